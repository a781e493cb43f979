"""Which locks are held at every access, call and acquisition of the program.

Each function is followed on its own (accessors and local closures looked
into), recording the locks held at each use of a field, each call and each
acquisition.  What a function is entered with is the intersection over all its
call sites; entry points and thread bodies start with nothing.
"""
from engine import Rule, Term, mk, norm, short, lockname, AnalysisBroken, ZERO

SPIN = {"shirakami::tid_word::lock": ("shirakami::Record::tidw_", 1), "shirakami::tid_word::unlock": ("shirakami::Record::tidw_", -1),
        "shirakami::Record::lock": ("shirakami::Record::tidw_", 1), "shirakami::Record::unlock": ("shirakami::Record::tidw_", -1),
        # storing a new stamp releases the record
        "shirakami::Record::set_tid": ("shirakami::Record::tidw_", -1),
        "shirakami::wp::wp_lock::lock": ("shirakami::wp::wp_meta::wp_lock_", 1), "shirakami::wp::wp_lock::unlock": ("shirakami::wp::wp_meta::wp_lock_", -1)}
MUTATORS = {"insert", "emplace", "emplace_back", "push_back", "erase", "clear", "pop_back", "operator[]", "insert_or_assign",
            "try_emplace", "operator=", "resize", "reserve", "swap", "push", "pop", "emplace_front", "push_front", "assign",
            "append", "set", "reset", "store", "merge", "extract"}


def fields_of(loc):
    """Qualified fields and globals whose storage the location is part of, innermost first.

    What a pointer kept in a field leads to is not part of that field.
    """
    out = []
    while isinstance(loc, Term):
        if loc.kind == "f":
            out.append(loc.args[1])
            loc = loc.args[0]
        elif loc.kind in ("e", "it"):
            loc = loc.args[0]
        elif loc.kind == "g":
            out.append(loc.args[0])
            break
        else:
            break
    return [f for f in out if not f.startswith("#")]


def guardname(loc):
    """Qualified name of the lock object at a location."""
    while isinstance(loc, Term):
        if loc.kind == "f":
            return loc.args[1]
        if loc.kind == "g":
            return loc.args[0]
        if loc.kind in ("e", "it", "d", "ld", "a"):
            loc = loc.args[0]
        else:
            break
    return "?"


def local(loc):
    """Does the location belong to an object of the running function itself?"""
    while isinstance(loc, Term):
        if loc.kind == "v":
            return loc.args[1] != "this"
        if loc.kind in ("f", "e", "it"):
            loc = loc.args[0]
        else:
            return loc.kind == "new"
    return False


class Survey(Rule):
    uses = True
    depth = 6
    merge_block = 24
    merge_exits = 6

    def __init__(self, eng, inline):
        super().__init__()
        self.inline = inline
        self.acc = {}
        self.calls = {}
        self.acq = {}
        self.stable = ()

    def is_stop(self, name, fid):
        return fid not in self.inline

    def held(self, st):
        return frozenset((guardname(m), t.args[1].lower()) for t, m in st.locks.items()) | frozenset((n, "x") for n in st.ps)

    def heldlocs(self, st):
        return tuple(st.locks.values())

    def on_use(self, eng, st, kind, loc):
        if local(loc):
            return
        fs = fields_of(loc)
        if not fs:
            return
        w = kind in MUTATORS
        self.put(eng.at, fs, "w" if w else "r", st, kind, loc)

    def on_write(self, eng, st, e):
        if e.loc is None or e.x or local(e.loc) or e.loc.kind not in ("f", "g", "e", "d"):
            return
        self.put((e.fn, e.line), fields_of(e.loc), "w", st, "=", e.loc)

    def on_atomic(self, eng, st, e):
        if e.loc is not None and not local(e.loc):
            self.put((e.fn, e.line), fields_of(e.loc), "a", st, e.kind, e.loc)

    def put(self, at, fs, kind, st, how, loc):
        if not fs:
            return
        h = self.held(st)
        for i, f in enumerate(fs):
            # changing a part of an element changes what the container protects
            self.acc.setdefault((f, kind, self.root, at[0]["file"], at[1], how if i == 0 else "part"), set()).add(h)

    def on_lock(self, eng, st, e):
        if e.kind != "acquire":
            return
        before = frozenset((guardname(m), t.args[1].lower()) for t, m in st.locks.items() if t != e.val) | frozenset(
            (n, "x") for n in st.ps)
        same = any(m == e.loc for t, m in st.locks.items() if t != e.val)
        self.acq.setdefault((guardname(e.loc), e.name.lower(), self.root, e.fn["file"], e.line), set()).add((before, same))

    def on_call(self, eng, st, e):
        held = self.held(st)
        s = SPIN.get(e.name)
        if s:
            if s[1] > 0:
                self.acq.setdefault((s[0], "x", self.root, e.fn["file"], e.line), set()).add((self.held(st), False))
                st.ps[s[0]] = 1
            else:
                st.ps.pop(s[0], None)
        for n in self.releases.get(e.fid, ()):
            st.ps.pop(n, None)
        if e.name in ("std::sort", "std::stable_sort", "std::reverse") and e.args:
            v = eng.V(st, e.args[0])
            if isinstance(v, Term) and v.kind == "it" and not local(v.args[0]):
                self.put((e.fn, e.line), fields_of(v.args[0]), "w", st, short(e.name), v.args[0])
        if e.fid and e.fid in eng.fns and e.fid not in self.inline:
            obj = e.recv[1] if e.recv else None
            if isinstance(obj, Term) and obj.kind == "f" and not local(obj):
                self.put((e.fn, e.line), fields_of(obj)[:1], "r" if eng.fns[e.fid].get("constm") else "c", st, "call", obj)
            self.calls.setdefault((self.root, e.fid, e.fn["file"], e.line), set()).add(held)


def closed(h):
    """Holding a lock exclusively includes holding it shared."""
    return h | frozenset((n, "s") for n, m in h if m == "x")


def build(eng):
    """Run the survey over the whole program."""
    if hasattr(eng, "_lockset"):
        return eng._lockset
    fns = eng.fns
    inline = set()
    for fid, f in fns.items():
        f["id"] = fid
        if f["kind"] == "lambda":
            inline.add(fid)
            continue
        info = eng.info(fid)
        if info.linear is not None and len(f["X"]) <= 14 and norm(f["n"]) not in SPIN and not any(
                x["k"] == "ctor" and "lock" in (x.get("c") or "") for x in f["X"].values()):
            inline.add(fid)
    r = Survey(eng, inline)
    # functions that release a spin lock and never take it leave their caller without it
    own, r.releases = {}, {}
    for fid, f in fns.items():
        for x in f["X"].values():
            t = SPIN.get(norm(x["n"])) if x["k"] == "call" and x.get("n") else None
            if t:
                own.setdefault((fid, t[0]), set()).add(t[1])
    todo = [k for k, v in own.items() if v == {-1}]
    for fid, n in todo:
        r.releases.setdefault(fid, set()).add(n)
        for c, _ in eng.callers(fid):
            if (c, n) not in own and (c, n) not in todo and n not in r.releases.get(c, ()):
                todo.append((c, n))
    skipped = []

    def survey(rule, fid):
        rule.root = fid
        try:
            eng.run(rule, fid)
        except AnalysisBroken as e:
            skipped.append((fid, str(e)))

    for fid in fns:
        if fid not in inline:
            survey(r, fid)
    # accessors nobody calls, and closures handed to the library: what they are entered with is not known
    r.loose = {fid for fid in inline if fid not in eng.analysed}
    for fid in sorted(r.loose):
        survey(r, fid)
    # entry locks
    callers = {}
    for (a, b, _, _), hs in r.calls.items():
        callers.setdefault(b, []).append((a, frozenset.intersection(*map(closed, hs))))
    entry = {fid: None for fid in fns}
    for fid in fns:
        if fid not in callers and fid not in r.loose:
            entry[fid] = frozenset()
    changed = True
    while changed:
        changed = False
        for fid, cs in callers.items():
            v = None
            for a, h in cs:
                if entry[a] is not None:
                    v = h | entry[a] if v is None else v & (h | entry[a])
            if v is not None and v != entry[fid]:
                entry[fid] = v
                changed = True
    for fid in fns:
        if entry[fid] is None:
            entry[fid] = frozenset()
    r.entry, r.callers, r.skipped = entry, callers, skipped
    eng._lockset = r
    return r
