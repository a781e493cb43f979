"""Path-sensitive, interprocedural abstract interpreter over the extracted IR.

No code is run and no solver is called.  Every path through the control-flow
graph of a root function (with its callees looked into) is followed
symbolically; values are hash-consed terms, branch outcomes are remembered as
equality facts on terms so that correlated branches agree, and a state that
was already seen at a block is not followed again.  Rules observe the events
(calls, writes, locks, branches, returns) along the paths.
"""
import re
from facts import AnalysisBroken


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ("kind", "args", "n", "vol", "root", "depth")

    def __repr__(self):
        return pretty(self)


_cache = {}
_EMPTY = frozenset()
VOLATILE = {"r", "o", "u", "it", "new", "lock"}


def mk(kind, *args):
    k = (kind,) + args
    t = _cache.get(k)
    if t is not None:
        return t
    t = Term()
    t.kind = kind
    t.args = args
    t.n = len(_cache)
    vol = None
    depth = 0
    root = None
    for a in args:
        if type(a) is Term:
            if a.vol:
                vol = a.vol if vol is None else vol | a.vol
            if a.depth > depth:
                depth = a.depth
        elif type(a) is tuple:
            for b in a:
                if type(b) is Term:
                    if b.vol:
                        vol = b.vol if vol is None else vol | b.vol
                    if b.depth > depth:
                        depth = b.depth
    if kind in VOLATILE:
        vol = (vol or _EMPTY) | frozenset((t,))
    t.vol = vol or _EMPTY
    t.depth = depth + 1
    if kind == "v":
        root = args[0]
    elif kind in ("f", "e", "it"):
        a0 = args[0]
        root = a0.root if type(a0) is Term else None
    t.root = root
    _cache[k] = t
    return t


def C(v):
    if v is True:
        v = 1
    elif v is False:
        v = 0
    elif v == "null":
        v = 0
    elif isinstance(v, str) and v.startswith("#"):
        v = int(v[1:])
    return mk("c", v)


ZERO = C(0)
ONE = C(1)


def short(name):
    return name.rsplit("::", 1)[-1]


def pretty(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(pretty(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 7:
        return "..."
    k, a = t.kind, t.args
    p = lambda x: pretty(x, d + 1)
    if k == "c":
        return str(a[0])
    if k == "p":
        return a[1]
    if k == "g":
        return short(a[0])
    if k == "v":
        return a[1].split("@")[0]
    if k == "f":
        b = a[0]
        if b.kind == "d":
            return p(b.args[0]) + "->" + short(a[1])
        return p(b) + "." + short(a[1])
    if k == "d":
        return "*" + p(a[0])
    if k == "e":
        return "elem(" + p(a[0]) + ")"
    if k == "a":
        return "&" + p(a[0])
    if k == "ld":
        return p(a[0])
    if k == "r":
        return short(a[0]) + "(" + (p(a[3]) if len(a) > 3 else "") + ")"
    if k == "o":
        return short(a[0]) + "#out" + str(a[3])
    if k == "u":
        return "?"
    if k == "fv":
        return p(a[0]) + "." + short(a[1])
    if k == "op":
        if len(a) == 2:
            return a[0] + p(a[1])
        return "(" + p(a[1]) + " " + a[0] + " " + p(a[2]) + ")"
    if k == "pc":
        return short(a[0]) + "(" + ", ".join(p(x) for x in a[1:]) + ")"
    if k == "str":
        return repr(a[0])
    if k == "it":
        return "it(" + p(a[0]) + "," + str(a[1]) + ")"
    if k == "rec":
        return p(a[0]) + "{" + ", ".join(short(f) + "=" + p(v) for f, v in a[1]) + "}"
    return k + "(" + ", ".join(p(x) for x in a if not isinstance(x, int)) + ")"


_nn = {}


def norm(n):
    """Qualified name without template arguments."""
    r = _nn.get(n)
    if r is not None:
        return r
    s = n
    tail = ""
    m = re.search(r"::(operator[^A-Za-z_].*)$", s)
    if m is None:
        m = re.search(r"^()(operator[^A-Za-z_].*)$", s)
    if m:
        i = s.index("operator", m.start())
        # an operator name is the last component
        j = s.rfind("operator")
        if j >= 0:
            i = j
        tail = s[i:]
        s = s[:i]
        if not tail.startswith(("operator<", "operator>", "operator-", "operator(")):
            tail = tail.split("<")[0] if not tail.startswith("operator ") else tail
    s = s.replace("<lambda>", "\1")
    out = []
    d = 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    r = "".join(out).replace("\1", "<lambda>") + tail
    _nn[n] = r
    return r


# ---------------------------------------------------------------- contexts
class Ctx:
    _tab = {}

    __slots__ = ("parent", "fn", "elem", "depth", "clo", "n")

    @staticmethod
    def get(parent, fid, elem, clo=None):
        k = (parent, fid, elem, clo)
        c = Ctx._tab.get(k)
        if c is None:
            c = Ctx()
            c.parent = parent
            c.fn = fid
            c.elem = elem
            c.clo = clo
            c.depth = 0 if parent is None else parent.depth + 1
            c.n = len(Ctx._tab)
            Ctx._tab[k] = c
        return c

    def __repr__(self):
        return "<ctx %d>" % self.n

    def has(self, fid):
        c = self
        while c is not None:
            if c.fn == fid:
                return True
            c = c.parent
        return False


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("env", "kids", "eq", "ne", "top", "outer", "ps", "locks", "live", "trace", "dead")

    def __init__(self):
        self.env = {}
        self.kids = {}
        self.eq = {}
        self.ne = {}
        self.top = {}
        self.outer = None
        self.ps = {}
        self.locks = {}
        self.live = set()
        self.trace = ()
        self.dead = False

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.kids = dict(self.kids)
        s.eq = dict(self.eq)
        s.ne = dict(self.ne)
        s.top = dict(self.top)
        s.outer = self.outer
        s.ps = dict(self.ps)
        s.locks = dict(self.locks)
        s.live = set(self.live)
        s.trace = self.trace
        s.dead = False
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.eq.items()), frozenset(self.ne.items()),
                frozenset(self.ps.items()), frozenset(self.locks.items()),
                frozenset((k, v) for k, v in self.top.items()))


class Info:
    """Static facts about one function, computed once."""

    def __init__(self, fn):
        self.fn = fn
        self.name = norm(fn["n"])
        self.blocks = {b["i"]: b for b in fn["B"]}
        self.X = {int(k): v for k, v in fn["X"].items()}
        self.declared = {p["v"] for p in fn["params"]}
        inits = set()
        defblk = {}
        useblk = {}
        for b in fn["B"]:
            for e in b["e"]:
                if isinstance(e, dict):
                    if e["k"] == "decl":
                        self.declared.add(e["v"])
                        if e.get("i") is not None:
                            inits.add(e["i"])
                    if e["k"] in ("finit", "ret") and e.get("a") is not None:
                        inits.add(e["a"])
                else:
                    defblk.setdefault(e, set()).add(b["i"])
        for x in self.X.values():
            if x["k"] == "new" and x.get("i") is not None:
                inits.add(x["i"])
            if x["k"] in ("pass",) and x.get("a") is not None:
                pass
        self.inits = inits
        # ids needed in another block than the one computing them
        self.cross = set()

        def subs(x):
            r = []
            for k in ("a", "b", "c", "i", "recv", "fe", "ord"):
                v = x.get(k)
                if isinstance(v, int) and not (x["k"] == "bind" and k == "i"):
                    r.append(v)
            for v in x.get("args", ()):
                if isinstance(v, int):
                    r.append(v)
            for cpt in x.get("caps", ()):
                if isinstance(cpt.get("ini"), int):
                    r.append(cpt["ini"])
            return r
        self.subs = subs

        def need(i, blk, seen):
            if i in seen:
                return
            seen.add(i)
            d = defblk.get(i)
            if d is not None:
                if blk not in d or len(d) > 1:
                    self.cross.add(i)
                return
            x = self.X.get(i)
            if x is None:
                return
            for j in subs(x):
                need(j, blk, seen)

        for b in fn["B"]:
            seen = set()
            for e in b["e"]:
                if isinstance(e, dict):
                    for k in ("i", "a"):
                        if isinstance(e.get(k), int):
                            need(e[k], b["i"], seen)
                else:
                    x = self.X.get(e)
                    if x is not None:
                        for j in subs(x):
                            need(j, b["i"], seen)
            if isinstance(b.get("c"), int):
                need(b["c"], b["i"], seen)
        # ids whose computation is spread over blocks are also needed by the
        # logical operators evaluated on demand
        for i, x in self.X.items():
            if x["k"] in ("bin",) and x["o"] in ("&&", "||") or x["k"] == "cond":
                for j in subs(x):
                    self.cross.add(j)
                self.cross.add(i)
        self._live()
        # operands without effects are evaluated where they are used
        lazy = {"var", "glob", "const", "str", "this", "mem", "memfn", "fnref", "log", "pass", "bind"}
        self.elems = {b["i"]: [e for e in b["e"] if isinstance(e, dict) or
                               (self.X.get(e) or {"k": "log"})["k"] not in lazy] for b in fn["B"]}
        # a function without branches is run straight through
        self.linear = []
        b = fn["entry"]
        seen = set()
        while b != fn["exit"]:
            blk = self.blocks[b]
            n = [x for x in blk["s"] if x is not None]
            if len(n) != 1 or b in seen or blk.get("nr") or (len(blk["s"]) > 1 and blk.get("c") is not None):
                self.linear = None
                break
            seen.add(b)
            self.linear.append(blk)
            b = n[0]

    def _live(self):
        fn = self.fn
        use = {}
        deff = {}
        esc = set()
        X = self.X

        def vars_of(i, out, seen):
            if i in seen:
                return
            seen.add(i)
            x = X.get(i)
            if x is None:
                return
            if x["k"] in ("var", "bind"):
                out.add(x["v"])
            if x["k"] == "lam":
                for cpt in x.get("caps", ()):
                    if cpt.get("v"):
                        out.add(cpt["v"])
                        esc.add(cpt["v"])
            for j in self.subs(x):
                vars_of(j, out, seen)

        for i, x in X.items():
            if x["k"] == "un" and x["o"] == "&":
                s = set()
                vars_of(x["a"], s, set())
                esc |= s
        for b in fn["B"]:
            u = set()
            d = set()
            for e in b["e"]:
                s = set()
                if isinstance(e, dict):
                    for k in ("i", "a"):
                        if isinstance(e.get(k), int):
                            vars_of(e[k], s, set())
                    if e["k"] == "dtor":
                        s.add(e["v"])
                    u |= (s - d)
                    if e["k"] == "decl":
                        if e.get("ref") and isinstance(e.get("i"), int):
                            esc |= s
                        d.add(e["v"])
                else:
                    vars_of(e, s, set())
                    u |= (s - d)
            if isinstance(b.get("c"), int):
                s = set()
                vars_of(b["c"], s, set())
                u |= (s - d)
            use[b["i"]] = u
            deff[b["i"]] = d
        live = {b["i"]: set(use[b["i"]]) for b in fn["B"]}
        ch = True
        while ch:
            ch = False
            for b in fn["B"]:
                i = b["i"]
                out = set()
                for s in b["s"]:
                    if s is not None:
                        out |= live[s]
                n = use[i] | (out - deff[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self.live = live
        self.esc = esc


LOCKS = {"std::lock_guard": "X", "std::unique_lock": "X", "std::scoped_lock": "X", "std::shared_lock": "S"}
CMP = {"==", "!=", "<", ">", "<=", ">="}
PURE_CONST = {"size", "empty", "count", "length", "compare", "find", "contains", "test", "get_vsplit",
              "get_vinsert_delete", "capacity", "data", "c_str", "substr"}
NONMUT = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "back", "front", "at", "operator[]",
          "operator*", "operator->", "get", "data", "c_str", "size", "empty", "operator bool", "lower_bound",
          "upper_bound", "operator()", "reserve", "native_handle", "length"}
# switches that only turn trace output on
NOISE = {"shirakami::logging::get_enable_logging_detail_info", "shirakami::logging::get_enable_logging_detail_info_"}
PASS1 = {"std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref", "std::string_view",
         "std::operator\"\"sv", "std::ssize"}


class Event:
    __slots__ = ("kind", "name", "fid", "args", "recv", "fn", "line", "ctx", "site", "ret", "stop", "x", "loc", "val",
                 "extra", "rloc")

    def __init__(self, kind, **kw):
        self.kind = kind
        self.name = None
        self.fid = None
        self.args = ()
        self.recv = None
        self.fn = None
        self.line = 0
        self.ctx = None
        self.site = None
        self.ret = None
        self.stop = False
        self.x = None
        self.loc = None
        self.val = None
        self.extra = None
        self.rloc = None
        for k, v in kw.items():
            setattr(self, k, v)


class Rule:
    """Base class: override the hooks that matter."""
    stop = frozenset()       # normalised names not looked into
    depth = 16
    nonempty = False         # loops over containers run at least once
    countto = -1             # counters up to here keep their value
    once = False             # loops over containers stop after one element
    max_states = 3000
    merge_exits = 12         # callee exits kept apart before joining equal outcomes
    merge_block = 48         # states per block kept apart before joining
    stable = ()              # atomic fields read as plain memory
    domains = {}             # field: the only values it can hold
    uses = False             # report reads and member calls (on_use)

    def __init__(self):
        self.violations = {}
        self.counts = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def start(self, eng, st):
        pass

    def on_call(self, eng, st, e):
        pass

    def after_call(self, eng, st, e):
        pass

    def on_write(self, eng, st, e):
        pass

    def on_atomic(self, eng, st, e):
        pass

    def on_lock(self, eng, st, e):
        pass

    def on_branch(self, eng, st, e):
        pass

    def on_new(self, eng, st, e):
        pass

    def on_delete(self, eng, st, e):
        pass

    def on_use(self, eng, st, kind, loc):
        pass

    def on_exit(self, eng, st, val, fn):
        pass

    def is_stop(self, name, fid):
        return name in self.stop

    def violate(self, st, fn, line, msg):
        k = (fn["file"], fn["n"], line, msg)
        if k not in self.violations:
            self.violations[k] = {"file": fn["file"], "function": fn["n"], "line": line, "what": msg,
                                  "path": list(st.trace[-12:]) if st is not None else []}


class Engine:
    def __init__(self, F):
        self.F = F
        self.fns = F["fns"]
        self._calls = {}
        self._callers = None
        self.info_ = {}
        self.byname = {}
        self.dtors = {}
        for fid, f in self.fns.items():
            self.byname.setdefault(norm(f["n"]), []).append(fid)
            if f["kind"] == "dtor":
                self.dtors[f.get("cls")] = fid
        self.enums = {e["n"]: dict((a, b) for a, b in e["vals"]) for e in (F["enums"].values() if isinstance(F["enums"], dict) else F["enums"])}
        self.analysed = set()
        self.nstates = 0
        self.nexits = 0
        self.ncalls = 0
        self.loops_ = {}

    # -- lookup helpers
    def info(self, fid):
        i = self.info_.get(fid)
        if i is None:
            i = self.info_[fid] = Info(self.fns[fid])
        return i

    def find(self, name, nparams=None, file=None, need=True):
        r = [f for f in self.byname.get(name, ()) if
             (nparams is None or len(self.fns[f]["params"]) == nparams) and
             (file is None or self.fns[f]["file"].endswith(file))]
        if not r and need:
            raise AnalysisBroken("no function %s%s in the sources" % (name, "" if nparams is None else "/%d" % nparams))
        return r

    def one(self, name, nparams=None, file=None):
        r = self.find(name, nparams, file)
        if len(r) != 1:
            raise AnalysisBroken("%d functions named %s" % (len(r), name))
        return r[0]

    def calls(self, fid):
        """Call sites in a function: (callee id or None, callee name, line)."""
        out = self._calls.get(fid)
        if out is None:
            out = []
            for x in self.fns[fid]["X"].values():
                if x["k"] in ("call", "ctor", "new") and (x.get("f") or x.get("n")):
                    out.append((x.get("f"), norm(x.get("n") or ""), x.get("l", 0)))
            self._calls[fid] = out
        return out

    def callers(self, fid):
        """(caller, line) of every call site of a function."""
        if self._callers is None:
            self._callers = {}
            for f in self.fns:
                for g, n, l in self.calls(f):
                    if g:
                        self._callers.setdefault(g, []).append((f, l))
        return self._callers.get(fid, [])

    def enum(self, e, n):
        try:
            return self.enums[e][n]
        except KeyError:
            raise AnalysisBroken("enumerator %s::%s not found" % (e, n))

    def enum_name(self, e, v):
        for k, x in self.enums.get(e, {}).items():
            if x == v:
                return k
        return None

    # -- memory
    def load(self, st, loc):
        v = st.env.get(loc)
        if v is None:
            k = loc.kind
            if k == "f":
                p = loc.args[0]
                w = self._whole(st, p)
                if w is not None:
                    v = self.fieldval(w, loc.args[1])
                else:
                    v = mk("ld", loc)
            else:
                v = mk("ld", loc)
        elif v.kind == "ref":
            return self.load(st, v.args[0])
        if loc in st.kids:
            v = self._rec(st, loc, v)
        return v

    def _whole(self, st, loc):
        """Value of the enclosing object when it was assigned as a whole."""
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc.kind == "f":
            w = self._whole(st, loc.args[0])
            if w is not None:
                return self.fieldval(w, loc.args[1])
        return None

    def _rec(self, st, loc, base):
        ov = {}
        if base.kind == "rec":
            ov = dict(base.args[1])
            base = base.args[0]
        for k in st.kids[loc]:
            if k in st.env or k in st.kids:
                ov[k.args[1]] = self.load(st, k)
        return mk("rec", base, tuple(sorted(ov.items())))

    def fieldval(self, v, f):
        k = v.kind
        if k == "rec":
            for n, x in v.args[1]:
                if n == f:
                    return x
            return self.fieldval(v.args[0], f)
        if k == "tup" and f.startswith("#"):
            i = int(f[1:])
            if i < len(v.args):
                return v.args[i]
        if k == "ld":
            return mk("ld", mk("f", v.args[0], f))
        if k == "c":
            if f.startswith("shirakami::tid_word::"):
                return v if v.args[0] == 0 else mk("fv", v, f)
            return mk("fv", v, f)
        if k == "lock":
            return mk("fv", v, f)
        return mk("fv", v, f)

    def store(self, st, loc, val):
        if loc.kind == "ld":
            raise AnalysisBroken("store to value")
        if loc in st.kids:
            self._dropkids(st, loc)
        st.env[loc] = val
        l = loc
        while l.kind == "f":
            p = l.args[0]
            ks = st.kids.get(p)
            if ks is None:
                st.kids[p] = frozenset((l,))
            elif l not in ks:
                st.kids[p] = ks | {l}
            l = p

    def _dropkids(self, st, loc):
        for k in st.kids.pop(loc, ()):
            st.env.pop(k, None)
            if k in st.kids:
                self._dropkids(st, k)

    def deref(self, val):
        if val.kind == "a":
            return val.args[0]
        if val.kind == "it":
            return mk("e", val)
        return mk("d", val)

    def kill(self, st, t):
        """Forget everything said about a volatile term before it is redefined."""
        if t not in st.live:
            st.live.add(t)
            return
        for d in (st.eq, st.ne):
            dead = [k for k in d if t in k.vol]
            for k in dead:
                del d[k]
        dead = []
        for l, v in st.env.items():
            if t in l.vol:
                dead.append((l, True))
            elif t in v.vol:
                dead.append((l, False))
        for l, d in dead:
            if d:
                st.env.pop(l, None)
            else:
                u = mk("u", "k", l)
                if u in st.live:
                    for dd in (st.eq, st.ne):
                        for k in [k for k in dd if u in k.vol]:
                            del dd[k]
                st.live.add(u)
                st.env[l] = u
        for l in [l for l in st.kids if t in l.vol]:
            del st.kids[l]
        for i, (v, l) in list(st.top.items()):
            if (v is not None and t in v.vol) or (l is not None and t in l.vol):
                st.top[i] = (mk("u", "k", i), None)
        for k, v in list(st.ps.items()):
            if type(v) is Term and t in v.vol:
                st.ps[k] = None

    # -- facts
    def decide(self, st, v):
        """True/False/None for the truth of v."""
        k = v.kind
        if k == "c":
            return bool(v.args[0])
        if k in ("a", "new", "lam", "fn", "str"):
            return True
        if k == "op":
            o = v.args[0]
            if o == "!":
                d = self.decide(st, v.args[1])
                return None if d is None else not d
            if o == "==":
                return self._eq(st, v)
            if o == "<":
                return self._lt(st, v)
            if o == "&&":
                a = self.decide(st, v.args[1])
                b = self.decide(st, v.args[2])
                if a is False or b is False:
                    return False
                return True if a and b else None
            if o == "||":
                a = self.decide(st, v.args[1])
                b = self.decide(st, v.args[2])
                if a or b:
                    return True
                return False if a is False and b is False else None
        c = st.eq.get(v)
        if c is not None:
            return bool(c)
        n = st.ne.get(v)
        if n is not None and 0 in n:
            return True
        return None

    def const(self, st, v):
        if v.kind == "c":
            return v.args[0]
        return st.eq.get(v)

    def _eq(self, st, v):
        a, b = v.args[1], v.args[2]
        if a is b:
            return True
        ca, cb = self.const(st, a), self.const(st, b)
        if ca is not None and cb is not None:
            return ca == cb
        if cb is not None:
            n = st.ne.get(a)
            if n is not None and cb in n:
                return False
            if cb == 0 and a.kind in ("a", "new"):
                return False
        if ca is not None:
            n = st.ne.get(b)
            if n is not None and ca in n:
                return False
        c = st.eq.get(v)
        if c is not None:
            return bool(c)
        l1 = st.eq.get(mk("op", "<", a, b))
        l2 = st.eq.get(mk("op", "<", b, a))
        if l1 == 1 or l2 == 1:
            return False
        if l1 == 0 and l2 == 0:
            return True
        return None

    def _lt(self, st, v):
        a, b = v.args[1], v.args[2]
        if a is b:
            return False
        ca, cb = self.const(st, a), self.const(st, b)
        if isinstance(ca, int) and isinstance(cb, int):
            return ca < cb
        c = st.eq.get(v)
        if c is not None:
            return bool(c)
        if st.eq.get(mk("op", "<", b, a)) == 1:
            return False
        e = mk("op", "==", a, b) if a.n < b.n else mk("op", "==", b, a)
        if st.eq.get(e) == 1:
            return False
        if st.eq.get(e) == 0 and st.eq.get(mk("op", "<", b, a)) == 0:
            return True
        return None

    def assume(self, st, v, truth):
        """Add the fact; False when it contradicts what is known."""
        d = self.decide(st, v)
        if d is not None:
            return d == truth
        k = v.kind
        if k == "op":
            o = v.args[0]
            if o == "!":
                return self.assume(st, v.args[1], not truth)
            if o == "==":
                a, b = v.args[1], v.args[2]
                cb = self.const(st, b)
                ca = self.const(st, a)
                if cb is not None:
                    return self._setc(st, a, cb, truth)
                if ca is not None:
                    return self._setc(st, b, ca, truth)
                st.eq[v] = 1 if truth else 0
                return True
            if o == "<":
                st.eq[v] = 1 if truth else 0
                return True
            if o == "&&" and truth:
                return self.assume(st, v.args[1], True) and self.assume(st, v.args[2], True)
            if o == "||" and not truth:
                return self.assume(st, v.args[1], False) and self.assume(st, v.args[2], False)
            if o in ("&&", "||"):
                st.eq[v] = 1 if truth else 0
                return True
        return self._setc(st, v, 0, not truth)

    def _setc(self, st, a, c, truth):
        if truth:
            st.eq[a] = c
            st.ne.pop(a, None)
        else:
            ne = st.ne.get(a, _EMPTY) | {c}
            dom = self.domain(a)
            if dom is not None:
                rest = dom - ne
                if not rest:
                    return False
                if len(rest) == 1:
                    st.eq[a] = next(iter(rest))
                    st.ne.pop(a, None)
                    return True
            st.ne[a] = ne
        return True

    def domain(self, a):
        """The values a field can hold by its invariant, where the rule gives one."""
        d = self.rule.domains
        if not d:
            return None
        if a.kind == "ld":
            l = a.args[0]
        elif a.kind == "r" and a.args[0] == "aload":
            l = a.args[3]
        else:
            return None
        return d.get(short(l.args[1])) if l.kind == "f" else None

    # -- operators
    def op(self, o, a, b):
        if o in CMP:
            # compare() results
            for x, y, flip in ((a, b, False), (b, a, True)):
                if y is ZERO and x.kind == "pc" and short(x.args[0]) == "compare" and len(x.args) == 3:
                    l, r = x.args[1], x.args[2]
                    oo = o
                    if flip:
                        oo = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
                    return self.op(oo, l, r)
            if o == "==" or o == "!=":
                for x, y in ((a, b), (b, a)):
                    if y.kind == "c" and y.args[0] in (0, 1) and x.kind == "op" and x.args[0] in ("==", "<", "!", "&&", "||"):
                        r = x if (y.args[0] == 1) == (o == "==") else self.neg(x)
                        return r
                if a is b:
                    e = ONE
                elif a.kind == "c" and b.kind == "c":
                    e = C(a.args[0] == b.args[0])
                else:
                    if a.kind == "c" or (b.kind != "c" and b.n < a.n):
                        a, b = b, a
                    e = mk("op", "==", a, b)
                return e if o == "==" else self.neg(e)
            if o == ">":
                return self.op("<", b, a)
            if o == "<=":
                return self.neg(self.op("<", b, a))
            if o == ">=":
                return self.neg(self.op("<", a, b))
            if a is b:
                return ZERO
            if a.kind == "c" and b.kind == "c" and isinstance(a.args[0], int) and isinstance(b.args[0], int):
                return C(a.args[0] < b.args[0])
            return mk("op", "<", a, b)
        if a.kind == "c" and b.kind == "c" and isinstance(a.args[0], int) and isinstance(b.args[0], int):
            x, y = a.args[0], b.args[0]
            try:
                if o == "+":
                    return C(x + y)
                if o == "-":
                    return C(x - y)
                if o == "*":
                    return C(x * y)
                if o == "<<":
                    return C(x << y)
                if o == ">>":
                    return C(x >> y)
                if o == "&":
                    return C(x & y)
                if o == "|":
                    return C(x | y)
            except (ValueError, OverflowError):
                pass
        if o in ("+", "-") and b is ZERO:
            return a
        if o in ("+", "*", "|", "&", "max", "min") and (a.kind == "c" or (b.kind != "c" and b.n < a.n)):
            a, b = b, a
        return mk("op", o, a, b)

    def neg(self, v):
        if v.kind == "op" and v.args[0] == "!":
            return v.args[1]
        if v.kind == "c":
            return C(not v.args[0])
        return mk("op", "!", v)

    # -- running
    def run(self, rule, fid, init=None):
        """Follow every path of fid under the rule; returns the exit states."""
        info = self.info(fid)
        fn = info.fn
        ctx = Ctx.get(None, fid, 0)
        st = State()
        self.rule = rule
        self.paths = 0
        if fn.get("cls") and not fn.get("static") and fn["kind"] != "lambda":
            st.env[mk("v", ctx, "this")] = mk("p", -1, "this")
        if fn["kind"] == "lambda":
            st.env[mk("v", ctx, "this")] = mk("p", -1, "this")
        for i, p in enumerate(fn["params"]):
            pv = mk("p", i, p["n"])
            if p["ref"]:
                st.env[mk("v", ctx, p["v"])] = mk("ref", mk("d", pv))
            else:
                st.env[mk("v", ctx, p["v"])] = pv
        rule.start(self, st)
        if init:
            init(self, st, ctx)
        res = self.analyse(fid, ctx, st)
        for s, v, l in res:
            self.nexits += 1
            if v is None and l is not None:
                v = self.load(s, l) if not fn["ret"].endswith("&") else mk("a", l)
            rule.on_exit(self, s, v, fn)
        return res

    def gc(self, st, ctx, info, blk):
        live = info.live[blk]
        esc = info.esc
        dead = [l for l in st.env if l.kind == "v" and l.args[0] is ctx and l.args[1] not in live
                and l.args[1] not in esc and l.args[1] != "this"]
        for l in dead:
            del st.env[l]
            if l in st.kids:
                self._dropkids(st, l)
        cross = info.cross
        for i in [i for i in st.top if i not in cross]:
            del st.top[i]
        self.gcfacts(st)

    def gcfacts(self, st, *more):
        """Drop facts on results nobody refers to any more."""
        if st.eq or st.ne:
            reach = set()
            for v in more:
                if v is not None:
                    reach |= v.vol
            for v in st.env.values():
                reach |= v.vol
            for v, l in st.top.values():
                if v is not None:
                    reach |= v.vol
                if l is not None:
                    reach |= l.vol
            o = st.outer
            while o is not None:
                for v, l in o[0].values():
                    if v is not None:
                        reach |= v.vol
                    if l is not None:
                        reach |= l.vol
                o = o[1]
            for v in st.ps.values():
                if type(v) is Term:
                    reach |= v.vol
                elif type(v) is tuple:
                    for w in v:
                        if type(w) is Term:
                            reach |= w.vol
            for d in (st.eq, st.ne):
                for k in [k for k in d if k.vol and not (k.vol <= reach)]:
                    del d[k]

    def merge(self, a, b):
        """Join two states: keep only what both agree on."""
        m = a.copy()
        m.live = a.live | b.live
        m.eq = {k: v for k, v in a.eq.items() if b.eq.get(k) == v}
        ne = {}
        for k, v in a.ne.items():
            w = b.ne.get(k)
            if w is None and k in b.eq:
                w = v - {b.eq[k]}
            if w:
                w = v & w
                if w:
                    ne[k] = w
        for k, w in b.ne.items():
            if k not in a.ne and k in a.eq:
                w = w - {a.eq[k]}
                if w:
                    ne[k] = w
        m.ne = ne
        env = {}
        for l, v in a.env.items():
            w = b.env.get(l)
            if v is w:
                env[l] = v
            else:
                env[l] = None
        for l in b.env:
            if l not in a.env:
                env[l] = None
        fresh = []
        for l, v in env.items():
            if v is None:
                u = mk("u", "m", l)
                fresh.append(u)
                env[l] = u
        m.env = env
        m.kids = dict(a.kids)
        for l, ks in b.kids.items():
            m.kids[l] = m.kids.get(l, _EMPTY) | ks
        m.top = {}
        for i, ev in a.top.items():
            if b.top.get(i) == ev:
                m.top[i] = ev
            elif i in b.top:
                u = mk("u", "mt", i)
                fresh.append(u)
                m.top[i] = (u, None)
        if fresh:
            fs = frozenset(fresh)
            for d in (m.eq, m.ne):
                for k in [k for k in d if k.vol & fs]:
                    del d[k]
            m.live |= fs
        return m

    def merge_all(self, exits):
        groups = {}
        order = []
        for s, v, l in exits:
            k = (frozenset(s.ps.items()), frozenset(s.locks.items()), v if v is None or v.kind == "c" else "v", l)
            if len(exits) < 200:
                k += (frozenset((x, y) for x, y in s.env.items() if y.kind == "c" and x.kind == "v"),)
            if k in groups:
                t, tv, tl = groups[k]
                m = self.merge(t, s)
                if tv is not v:
                    tv = mk("u", "mr", v.kind if v is not None else "")
                    m.live.add(tv)
                    for d in (m.eq, m.ne):
                        for kk in [x for x in d if tv in x.vol]:
                            del d[kk]
                groups[k] = (m, tv, tl)
            else:
                groups[k] = (s, v, l)
                order.append(k)
        return [groups[k] for k in order]

    def analyse(self, fid, ctx, st):
        info = self.info(fid)
        fn = info.fn
        self.analysed.add(fid)
        rule = self.rule
        st.outer = (st.top, st.outer)
        st.top = {}
        if info.linear is not None:
            return self._linear(info, ctx, st)
        visited = {}
        exits = []
        exkeys = set()
        summ = {}
        work = [(fn["entry"], st)]
        exitb = fn["exit"]
        total = 0
        while work:
            b, s = work.pop()
            if b == exitb:
                rv = s.top.get("ret", (None, None))
                v, l = rv
                if v is None and l is not None and not fn["ret"].endswith("&"):
                    v = self.load(s, l)
                    l = None
                if l is not None and l.root is ctx:
                    pass
                self._leave(s, ctx)
                self.gcfacts(s, v, l)
                k = (s.key(), v, l)
                if k not in exkeys:
                    exkeys.add(k)
                    exits.append((s, v, l))
                continue
            self.gc(s, ctx, info, b)
            k = s.key()
            vs = visited.setdefault(b, set())
            if k in vs:
                continue
            if len(vs) > rule.merge_block:
                mk0 = (b, frozenset(s.ps.items()), frozenset(s.locks.items()))
                if len(vs) <= rule.merge_block * 6:
                    # flags held in local variables keep states apart
                    mk0 += (frozenset((l, v) for l, v in s.env.items() if v.kind == "c" and l.kind == "v"),)
                old = summ.get(mk0)
                if old is not None:
                    s2 = self.merge(old, s)
                    k = s2.key()
                    if k in vs:
                        continue
                    s = s2
                summ[mk0] = s.copy()
            vs.add(k)
            total += 1
            self.nstates += 1
            if len(vs) > rule.max_states:
                raise AnalysisBroken("more than %d states at block %d of %s" % (rule.max_states, b, fn["n"]))
            blk = info.blocks[b]
            states = [s]
            for e in info.elems[b]:
                nxt = []
                for q in states:
                    r = self.elem(q, ctx, info, e)
                    nxt.extend(r)
                states = nxt
                if not states:
                    break
            if blk.get("nr"):
                continue
            for q in states:
                for t, q2 in self.branch(q, ctx, info, blk):
                    work.append((t, q2))
        if ctx.parent is not None and len(exits) > rule.merge_exits:
            exits = self.merge_all(exits)
        for s, v, l in exits:
            s.top = dict(s.outer[0])
            s.outer = s.outer[1]
        return exits

    def _linear(self, info, ctx, st):
        states = [st]
        for blk in info.linear:
            for e in info.elems[blk["i"]]:
                if len(states) == 1:
                    states = self.elem(states[0], ctx, info, e)
                else:
                    nxt = []
                    for q in states:
                        nxt.extend(self.elem(q, ctx, info, e))
                    states = nxt
                if not states:
                    return []
        self.nstates += 1
        out = []
        keys = set()
        for s in states:
            v, l = s.top.get("ret", (None, None))
            if v is None and l is not None and not info.fn["ret"].endswith("&"):
                v = self.load(s, l)
                l = None
            self._leave(s, ctx)
            if len(states) > 1:
                self.gcfacts(s, v, l)
                k = (s.key(), v, l)
                if k in keys:
                    continue
                keys.add(k)
            out.append((s, v, l))
        if ctx.parent is not None and len(out) > self.rule.merge_exits:
            out = self.merge_all(out)
        for s, v, l in out:
            s.top = dict(s.outer[0])
            s.outer = s.outer[1]
        return out

    def _leave(self, st, ctx):
        for l in [l for l in st.env if l.root is ctx]:
            del st.env[l]
        for l in [l for l in st.kids if l.root is ctx]:
            del st.kids[l]
        for d in (st.eq, st.ne):
            for k in [k for k in d if k.kind == "ld" and k.args[0].root is ctx]:
                del d[k]
        st.top = {}

    def branch(self, st, ctx, info, blk):
        ss = blk["s"]
        n = [s for s in ss if s is not None]
        if not n:
            return []
        if len(ss) == 1 or blk.get("c") is None:
            if len(n) == 1:
                return [(n[0], st)]
            if blk.get("tk") == "CXXTryStmt":
                return [(x, st.copy()) for x in n]
            return [(x, st.copy()) for x in n]
        if blk.get("tlog"):
            # the choice is only about logging
            return [(x, st.copy()) for x in n]
        if blk["tk"] == "SwitchStmt":
            return self.switch(st, ctx, info, blk)
        ev = self.get(st, ctx, info, blk["c"])
        v = self.V(st, ev)
        d = self.decide(st, v)
        if d is None and self.rule.nonempty:
            d = self._nonempty(st, ctx, v, blk)
        if d is None and self.rule.once:
            d = self._once(v, blk)
        out = []
        for truth, t in ((True, ss[0]), (False, ss[1])):
            if t is None:
                continue
            if d is not None and d != truth:
                continue
            q = st.copy() if d is None else st
            if d is None and not self.assume(q, v, truth):
                continue
            self.rule.on_branch(self, q, Event("branch", fn=info.fn, line=blk.get("tl", 0), ctx=ctx, val=v,
                                               extra=truth, site=(ctx, ("t", blk["i"]))))
            if not q.dead:
                out.append((t, q))
        return out

    def _nonempty(self, st, ctx, v, blk):
        """A first-iteration test of a loop: pretend the container is not empty."""
        neg = False
        if v.kind == "op" and v.args[0] == "!":
            v = v.args[1]
            neg = True
        if v.kind == "op" and v.args[0] == "==" and len(v.args) == 3:
            a, b = v.args[1], v.args[2]
            if a.kind == "it" and b.kind == "it" and a.args[0] is b.args[0]:
                tags = {a.args[1], b.args[1]}
                if "begin" in tags and "end" in tags and blk["tk"] in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt"):
                    return neg
        if v.kind == "op" and v.args[0] == "<" and v.args[1] is ZERO and v.args[2].kind == "pc" and v.args[2].args[0] == "size" \
                and blk["tk"] in ("ForStmt", "WhileStmt", "DoStmt"):
            return not neg
        return None

    def _once(self, v, blk):
        """A later test of a loop over a container: stop after one element."""
        neg = False
        if v.kind == "op" and v.args[0] == "!":
            v = v.args[1]
            neg = True
        if v.kind == "op" and v.args[0] == "==" and len(v.args) == 3 and blk["tk"] in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt"):
            a, b = v.args[1], v.args[2]
            if a.kind == "it" and b.kind == "it" and a.args[0] is b.args[0]:
                for x, y in ((a, b), (b, a)):
                    if x.args[1] == "end" and type(y.args[1]) is tuple and y.args[1][0] in ("++", "+", "next"):
                        return not neg
        return None

    def switch(self, st, ctx, info, blk):
        v = self.V(st, self.get(st, ctx, info, blk["c"]))
        c = self.const(st, v)
        out = []
        vals = []
        dflt = None
        for t in blk["s"]:
            if t is None:
                continue
            tb = info.blocks[t]
            if tb.get("case") is not None and not tb.get("default"):
                for cv in tb["case"]:
                    vals.append((C(cv).args[0], t))
            else:
                dflt = t
        ne = st.ne.get(v, _EMPTY)
        hit = False
        for cv, t in vals:
            if c is not None:
                if c == cv:
                    out.append((t, st.copy()))
                    hit = True
                continue
            if cv in ne:
                continue
            q = st.copy()
            if self.assume(q, self.op("==", v, C(cv)), True):
                self.rule.on_branch(self, q, Event("branch", fn=info.fn, line=blk.get("tl", 0), ctx=ctx,
                                                   val=self.op("==", v, C(cv)), extra=True,
                                                   site=(ctx, ("t", blk["i"]))))
                out.append((t, q))
        if dflt is not None and not hit and (c is None or True):
            if c is not None:
                out.append((dflt, st.copy()))
            else:
                q = st.copy()
                ok = True
                for cv, t in vals:
                    if not self.assume(q, self.op("==", v, C(cv)), False):
                        ok = False
                if ok:
                    out.append((dflt, q))
        return [(t, q) for t, q in out if not q.dead]

    # -- expressions
    def V(self, st, ev):
        v, l = ev
        if v is not None:
            return v
        if l is not None:
            if self.rule.uses:
                self.rule.on_use(self, st, "read", l)
            return self.load(st, l)
        return mk("u", "void")

    def get(self, st, ctx, info, i):
        ev = st.top.get(i)
        if ev is not None:
            return ev
        x = info.X.get(i)
        if x is None:
            return (mk("u", ctx, i), None)
        r = self.eval(st, ctx, info, i, x, lazy=True)
        return r[0][1]

    def varloc(self, st, ctx, info, key):
        if key in info.declared:
            l = mk("v", ctx, key)
        else:
            l = self._closure(ctx, key)
        v = st.env.get(l)
        n = 0
        while v is not None and v.kind == "ref" and n < 20:
            l = v.args[0]
            v = st.env.get(l)
            n += 1
        return l

    def _closure(self, ctx, key):
        c = ctx
        while c is not None and c.clo is not None:
            lam = c.clo              # ('lam', fid, ctx, site, copies)
            if key in lam.args[3]:
                return mk("v", ("cap", lam.args[1], lam.args[2]), key)
            c = lam.args[1]
            if key in self.info(c.fn).declared:
                return mk("v", c, key)
        return mk("v", ctx, key)

    def elem(self, st, ctx, info, e):
        if isinstance(e, dict):
            return self.inline_obj(st, ctx, info, e)
        x = info.X.get(e)
        if x is None or x["k"] == "log":
            st.top[e] = (mk("u", "log"), None)
            return [st]
        if x["k"] == "fatal":
            return []
        if x.get("l"):
            self.at = (info.fn, x["l"])
        out = []
        for s, ev in self.eval(st, ctx, info, e, x):
            if s.dead:
                continue
            s.top[e] = ev
            out.append(s)
        return out

    def inline_obj(self, st, ctx, info, e):
        k = e["k"]
        if k == "decl":
            if e.get("static"):
                return [st]
            l = mk("v", ctx, e["v"])
            if l in st.kids:
                self._dropkids(st, l)
            i = e.get("i")
            if i is None:
                t = e["t"]
                st.env[l] = mk("u", ctx, e["v"])
                self.kill(st, st.env[l])
                st.env[l] = mk("u", ctx, e["v"])
                return [st]
            ev = self.get(st, ctx, info, i)
            if e.get("ref"):
                if ev[1] is not None:
                    st.env[l] = mk("ref", ev[1])
                else:
                    st.env[l] = ev[0]
                return [st]
            v = self.V(st, ev)
            self.store(st, l, v)
            # a lock object that was built in place
            return [st]
        if k == "ret":
            a = e.get("a")
            if a is None:
                st.top["ret"] = (None, None)
            else:
                ev = self.get(st, ctx, info, a)
                if ev[0] is None and not info.fn["ret"].endswith("&"):
                    ev = (self.V(st, ev), None)
                st.top["ret"] = ev
            st.top["retl"] = (C(e.get("l", 0)), None)
            return [st]
        if k == "dtor":
            l = mk("v", ctx, e["v"])
            v = st.env.get(l)
            if v is not None and v.kind == "lock":
                self.unlock(st, ctx, info, v, e.get("l", 0))
                return [st]
            t = re.sub(r"^const ", "", e["t"])
            d = self.dtors.get(t)
            if d is not None and not ctx.has(d) and ctx.depth < self.rule.depth and not self.rule.is_stop(info_name(self, d), d):
                c2 = Ctx.get(ctx, d, ("d", e["v"]))
                st.env[mk("v", c2, "this")] = mk("a", l)
                return [s for s, v, l2 in self.analyse(d, c2, st)]
            return [st]
        if k == "finit":
            f = e.get("f")
            if f is None:
                return [st]
            this = self.load(st, mk("v", ctx, "this"))
            l = self.field(self.deref(this), f)
            ev = self.get(st, ctx, info, e["a"])
            if (e.get("ft") or "").endswith("&") and ev[1] is not None:
                st.env[l] = mk("ref", ev[1])
            else:
                self.write(st, ctx, info, l, self.V(st, ev), e.get("l", 0), init=True)
            return [st]
        return [st]

    def field(self, base, f):
        if "tid_word" in f and (f.endswith("::obj_") or f.endswith("tid_word::")):
            return base
        if f in ("std::pair::first", "std::_Rb_tree_node::first") or f.endswith("pair::first") or (f.startswith("std::pair<") and f.endswith("::first")):
            f = "#0"
        elif f.endswith("pair::second") or (f.startswith("std::pair<") and f.endswith("::second")):
            f = "#1"
        return mk("f", base, f)

    def write(self, st, ctx, info, loc, val, line, init=False, atomic=None):
        e = Event("write", loc=loc, val=val, fn=info.fn, line=line, ctx=ctx, extra=atomic)
        e.x = init
        self.rule.on_write(self, st, e)
        if val.depth > 14:
            val = mk("u", "deep", loc)
            self.kill(st, val)
        self.store(st, loc, val)

    def eval(self, st, ctx, info, i, x, lazy=False):
        """-> [(state, (val, loc))]"""
        k = x["k"]
        g = lambda j: self.get(st, ctx, info, j)
        if k == "var":
            return [(st, (None, self.varloc(st, ctx, info, x["v"])))]
        if k == "glob":
            return [(st, (None, mk("g", x["n"])))]
        if k == "const":
            return [(st, (C(x["v"]), None))]
        if k == "str":
            return [(st, (mk("str", x["v"]), None))]
        if k == "log":
            return [(st, (mk("u", "log"), None))]
        if k == "this":
            c = ctx
            if info.fn["kind"] == "lambda":
                while c is not None and c.clo is not None:
                    c = c.clo.args[1]
            return [(st, (self.load(st, mk("v", c, "this")), None))]
        if k == "mem":
            b = g(x["b"])
            if x.get("arrow"):
                base = self.deref(self.V(st, b))
            else:
                base = b[1]
            if x.get("anon"):
                if base is None:
                    return [(st, b)]
                return [(st, (None, base))]
            if base is None:
                f = self.field(mk("g", "$"), x["f"])
                if f.kind != "f" or f.args[0].kind != "g":
                    return [(st, b)]
                if f is mk("g", "$"):
                    return [(st, b)]
                return [(st, (self.fieldval(self.V(st, b), f.args[1]), None))]
            loc = self.field(base, x["f"])
            v = st.env.get(loc)
            if v is not None and v.kind == "ref":
                loc = v.args[0]
            return [(st, (None, loc))]
        if k == "memfn":
            return [(st, g(x["b"]))]
        if k == "un":
            return self.unary(st, ctx, info, i, x)
        if k == "bin":
            o = x["o"]
            if o in ("&&", "||"):
                return [(st, (self.logical(st, ctx, info, o, x), None))]
            if o == ",":
                return [(st, g(x["b"]))]
            a = self.V(st, g(x["a"]))
            b = self.V(st, g(x["b"]))
            if a.kind == "it" and o in ("+", "-"):
                return [(st, (mk("it", a.args[0], (o, ctx, i)), None))]
            return [(st, (self.op(o, a, b), None))]
        if k == "asg":
            a = g(x["a"])
            b = g(x["b"])
            v = self.V(st, b)
            if x["o"] != "=":
                old = self.V(st, a)
                v = self.op(x["o"][:-1], old, v)
                if v.depth > 6:
                    v = mk("u", ctx, i)
                    self.kill(st, v)
            if a[1] is not None:
                self.write(st, ctx, info, a[1], v, x.get("l", 0))
                return [(st, (None, a[1]))]
            return [(st, (v, None))]
        if k == "cond":
            cv = self.V(st, g(x["c"]))
            d = self.decide(st, cv)
            if d is None:
                ha, hb = x["a"] in st.top, x["b"] in st.top
                if ha and not hb:
                    d = True
                elif hb and not ha:
                    d = False
            if d is None:
                return [(st, (mk("op", "?", self.V(st, g(x["a"])), self.V(st, g(x["b"]))), None))]
            return [(st, g(x["a"] if d else x["b"]))]
        if k == "call":
            return self.call(st, ctx, info, i, x, lazy)
        if k == "ctor":
            return self.ctor(st, ctx, info, i, x, lazy)
        if k == "lam":
            copies = []
            for cp in x.get("caps", ()):
                if cp.get("v") and (not cp.get("ref") or cp.get("ini") is not None):
                    copies.append(cp["v"])
            fid = x["f"]
            gen = tuple(x.get("gen", ()))
            lam = mk("lam", fid, ctx, i, tuple(copies), gen)
            for cp in x.get("caps", ()):
                if cp.get("v") in copies:
                    cl = mk("v", ("cap", ctx, i), cp["v"])
                    if cp.get("ini") is not None:
                        ev = g(cp["ini"])
                        if cp.get("ref") and ev[1] is not None:
                            st.env[cl] = mk("ref", ev[1])
                        else:
                            self.store(st, cl, self.V(st, ev))
                    else:
                        self.store(st, cl, self.load(st, self.varloc(st, ctx, info, cp["v"])))
            return [(st, (lam, None))]
        if k == "new":
            n = mk("new", ctx, i, x["t"])
            self.kill(st, n)
            if x.get("i") is not None:
                ev = g(x["i"])
                self.store(st, mk("d", n), self.V(st, ev))
            self.rule.on_new(self, st, Event("new", val=n, name=x["t"], fn=info.fn, line=x["l"], ctx=ctx, site=(ctx, i)))
            return [(st, (n, None))]
        if k == "del":
            v = self.V(st, g(x["a"]))
            self.rule.on_delete(self, st, Event("delete", val=v, fn=info.fn, line=x["l"], ctx=ctx, site=(ctx, i)))
            return [(st, (None, None))]
        if k == "idx":
            a = self.V(st, g(x["a"]))
            b = self.V(st, g(x["b"]))
            return [(st, (None, mk("e", mk("it", self.deref(a), ("idx", b)))))]
        if k == "ilist":
            if x.get("flds") and len(x["flds"]) == len(x["args"]):
                if len(x["flds"]) == 1 and (x["flds"][0].endswith("::") or self.field(ZERO, x["flds"][0]) is ZERO):
                    return [(st, g(x["args"][0]))]
                vs = tuple(sorted((f, self.V(st, g(a))) for f, a in zip(x["flds"], x["args"])))
                return [(st, (mk("rec", mk("init", x["t"]), vs), None))]
            return [(st, (mk("tup", *[self.V(st, g(a)) for a in x["args"]]), None))]
        if k == "pass":
            return [(st, g(x["a"]))]
        if k == "bind":
            l = self.varloc(st, ctx, info, x["v"])
            f = mk("f", l, "#%d" % x["i"])
            v = st.env.get(f)
            if v is not None and v.kind == "ref":
                f = v.args[0]
            return [(st, (None, f))]
        if k == "fnref":
            return [(st, (mk("fn", x["f"], x["n"]), None))]
        if k == "atomic":
            return self.atomic_builtin(st, ctx, info, i, x)
        r = mk("u", ctx, i)
        self.kill(st, r)
        return [(st, (r, None))]

    def logical(self, st, ctx, info, o, x):
        a = self.V(st, self.get(st, ctx, info, x["a"]))
        d = self.decide(st, a)
        if o == "&&":
            if d is False:
                return ZERO
            b = self.V(st, self.get(st, ctx, info, x["b"]))
            return b if d else mk("op", "&&", a, b)
        if d is True:
            return ONE
        b = self.V(st, self.get(st, ctx, info, x["b"]))
        return b if d is False else mk("op", "||", a, b)

    def unary(self, st, ctx, info, i, x):
        o = x["o"]
        a = self.get(st, ctx, info, x["a"])
        if o == "!":
            return [(st, (self.neg(self.V(st, a)), None))]
        if o == "&":
            if a[1] is not None:
                if a[1].kind == "d":
                    return [(st, (a[1].args[0], None))]
                return [(st, (mk("a", a[1]), None))]
            return [(st, (a[0], None))]
        if o == "*":
            return [(st, (None, self.deref(self.V(st, a))))]
        if o in ("++", "--"):
            old = self.V(st, a)
            if old.kind == "it":
                nv = mk("it", old.args[0], (o, ctx, i))
                self.kill(st, nv)
            else:
                nv = self.op(o[0], old, ONE)
                if nv.kind == "c" and not 0 <= nv.args[0] <= self.rule.countto or nv.depth > 5 or (old.kind == "op" and old.args[0] in ("+", "-")):
                    nv = mk("u", ctx, i)
                    self.kill(st, nv)
            if a[1] is not None:
                self.write(st, ctx, info, a[1], nv, x.get("l", 0))
            if x.get("post"):
                return [(st, (old, None))]
            return [(st, (None, a[1]) if a[1] is not None else (nv, None))]
        v = self.V(st, a)
        if v.kind == "c" and o == "-":
            return [(st, (C(-v.args[0]), None))]
        if v.kind == "c" and o == "~":
            return [(st, (C(~v.args[0]), None))]
        if o == "+":
            return [(st, (v, None))]
        return [(st, (mk("op", o, v), None))]

    # -- atomics
    def is_stable(self, loc):
        if loc.root is not None:
            return True
        n = loc
        while n.kind in ("f",):
            f = n.args[1]
            if f.startswith("shirakami::session::") and not f.startswith("shirakami::session::lock_and_epoch"):
                return True
            if f in self.rule.stable:
                return True
            n = n.args[0]
        return n.kind == "g" and n.args[0] in self.rule.stable

    def fresh(self, st, name, ctx, i, *of):
        r = mk("r", name, ctx, i, *of)
        self.kill(st, r)
        return r

    def aev(self, st, ctx, info, i, x, op, loc, val=None, order=None, cond=None):
        e = Event(op, loc=loc, val=val, fn=info.fn, line=x.get("l", 0), ctx=ctx, extra=order, site=(ctx, i))
        e.args = cond
        self.rule.on_atomic(self, st, e)
        return e

    def atomic_builtin(self, st, ctx, info, i, x):
        g = lambda j: self.get(st, ctx, info, j)
        p = self.V(st, g(x["args"][0]))
        loc = self.deref(p)
        order = None
        if isinstance(x.get("ord"), int):
            order = self.V(st, g(x["ord"]))
            order = order.args[0] if order.kind == "c" else None
        o = x["o"]
        if "load" in o:
            v = self.load(st, loc) if loc.root is not None else self.fresh(st, "aload", ctx, i, loc)
            self.aev(st, ctx, info, i, x, "aload", loc, v, order=order)
            return [(st, (v, None))]
        if "store" in o:
            v = self.V(st, g(x["args"][1]))
            self.aev(st, ctx, info, i, x, "astore", loc, v, order=order)
            self.write(st, ctx, info, loc, v, x.get("l", 0), atomic=("store", order))
            return [(st, (None, None))]
        if "compare_exchange" in o:
            ex = self.V(st, g(x["args"][1]))
            des = self.V(st, g(x["args"][2]))
            r = self.fresh(st, "acas", ctx, i)
            exl = self.deref(ex)
            old = self.load(st, exl)
            self.aev(st, ctx, info, i, x, "acas", loc, des, order=order, cond=(old, r))
            q = st.copy()
            self.assume(st, r, True)
            self.write(st, ctx, info, loc, des, x.get("l", 0), atomic=("cas", order))
            self.assume(q, r, False)
            u = mk("o", "acas", ctx, i, 1)
            self.kill(q, u)
            self.store(q, exl, u)
            return [(st, (r, None)), (q, (r, None))]
        v = self.V(st, g(x["args"][1])) if len(x["args"]) > 1 else None
        r = self.fresh(st, "armw", ctx, i)
        self.aev(st, ctx, info, i, x, "armw", loc, v, order=order)
        self.write(st, ctx, info, loc, mk("u", ctx, i), x.get("l", 0), atomic=("rmw", order))
        return [(st, (r, None))]

    def atomic_call(self, st, ctx, info, i, x, sn, recv, args):
        loc = recv[1]
        if loc is None:
            loc = self.deref(self.V(st, recv)) if x.get("arrow") else mk("d", self.V(st, recv))
        vals = [self.V(st, a) for a in args]

        def order(n):
            if len(vals) > n and vals[n].kind == "c":
                return vals[n].args[0]
            return 5
        if sn == "load" or sn.startswith("operator ") and not args:
            v = self.load(st, loc) if self.is_stable(loc) else self.fresh(st, "aload", ctx, i, loc)
            self.aev(st, ctx, info, i, x, "aload", loc, v, order=order(0))
            return [(st, (v, None))]
        if sn in ("store", "operator="):
            self.aev(st, ctx, info, i, x, "astore", loc, vals[0], order=order(1))
            self.write(st, ctx, info, loc, vals[0], x.get("l", 0), atomic=("store", order(1)))
            return [(st, (vals[0], None))]
        if sn.startswith("compare_exchange"):
            r = self.fresh(st, "acas", ctx, i)
            self.aev(st, ctx, info, i, x, "acas", loc, vals[1], order=order(2), cond=(vals[0], r))
            q = st.copy()
            self.assume(st, r, True)
            self.write(st, ctx, info, loc, vals[1], x.get("l", 0), atomic=("cas", order(2)))
            self.assume(q, r, False)
            if args[0][1] is not None:
                u = mk("o", "acas", ctx, i, 1)
                self.kill(q, u)
                self.store(q, args[0][1], u)
            return [(st, (r, None)), (q, (r, None))]
        # ++ -- fetch_add fetch_or exchange
        if self.is_stable(loc):
            old = self.load(st, loc)
        else:
            old = self.fresh(st, "armw", ctx, i)
        o = {"operator++": "+", "operator--": "-", "fetch_add": "+", "fetch_sub": "-", "fetch_or": "|",
             "fetch_and": "&", "operator+=": "+", "operator-=": "-", "exchange": "="}.get(sn)
        amt = vals[0] if vals and not (sn in ("operator++", "operator--")) else ONE
        new = amt if o == "=" else (self.op(o, old, amt) if o else mk("u", ctx, i))
        if new.depth > 6:
            new = mk("u", ctx, i)
            self.kill(st, new)
        self.aev(st, ctx, info, i, x, "armw", loc, new, order=order(1), cond=(o, amt))
        self.write(st, ctx, info, loc, new, x.get("l", 0), atomic=("rmw", order(1)))
        post = bool(vals) or sn.startswith("fetch") or sn == "exchange"
        return [(st, (old if post else new, None))]

    # -- locks
    def lock(self, st, ctx, info, tok, line):
        if tok in st.locks:
            return
        st.locks[tok] = tok.args[0]
        self.rule.on_lock(self, st, Event("acquire", loc=tok.args[0], val=tok, name=tok.args[1], fn=info.fn, line=line, ctx=ctx))

    def unlock(self, st, ctx, info, tok, line):
        if tok not in st.locks:
            return
        del st.locks[tok]
        self.rule.on_lock(self, st, Event("release", loc=tok.args[0], val=tok, name=tok.args[1], fn=info.fn, line=line, ctx=ctx))

    def held(self, st, field, mode=None):
        """Is a mutex whose last component is `field` held?"""
        for tok, m in st.locks.items():
            if lockname(m) == field and (mode is None or tok.args[1] == mode or tok.args[1] == "X"):
                return True
        return False

    # -- constructors
    def ctor(self, st, ctx, info, i, x, lazy):
        c = norm(x["c"])
        args = [self.get(st, ctx, info, a) for a in x["args"]]
        if c in LOCKS:
            if not args:
                return [(st, (mk("u", "nolock"), None))]
            mode = LOCKS[c]
            m = args[0]
            loc = m[1] if m[1] is not None else mk("d", self.V(st, m))
            tags = []
            for j, a in enumerate(x["args"][1:]):
                ax = info.X.get(a, {})
                nm = ax.get("n", "") or ax.get("t", "") or ax.get("c", "")
                tags.append(nm)
            tok = mk("lock", loc, mode, ctx, i)
            st.live.add(tok)
            st.locks.pop(tok, None)
            if any("defer_lock" in t for t in tags):
                return [(st, (tok, None))]
            if any("adopt_lock" in t for t in tags):
                st.locks[tok] = loc
                return [(st, (tok, None))]
            if any("try_to_lock" in t for t in tags):
                q = st.copy()
                self.lock(st, ctx, info, tok, x["l"])
                return [(st, (tok, None)), (q, (tok, None))]
            extra = [tok]
            if c == "std::scoped_lock":
                for j, a in enumerate(args[1:]):
                    l2 = a[1] if a[1] is not None else mk("d", self.V(st, a))
                    t2 = mk("lock", l2, mode, ctx, (i, j))
                    extra.append(t2)
            for t in extra:
                self.lock(st, ctx, info, t, x["l"])
            if i not in info.inits:
                for t in extra:
                    self.unlock(st, ctx, info, t, x["l"])
            if len(extra) > 1:
                return [(st, (mk("lock", loc, mode, ctx, i), None))]
            return [(st, (tok, None))]
        if len(args) == 1 and c.endswith("iterator"):
            v = self.V(st, args[0])
            if v.kind == "it":
                return [(st, (v, None))]
        if c in ("std::tuple", "std::pair"):
            if x.get("copy") and len(args) == 1:
                return [(st, args[0])]
            if len(args) == 1 and c == "std::pair":
                return [(st, args[0])]
            return [(st, (mk("tup", *[self.V(st, a) for a in args]), None))]
        fid = x.get("f")
        fn = self.fns.get(fid)
        if fn is None:
            if x.get("copy") and len(args) >= 1:
                return [(st, (self.V(st, args[0]), None))]
            if c in ("std::basic_string", "std::basic_string_view", "std::function", "std::unique_ptr", "std::shared_ptr",
                     "std::atomic", "std::optional", "std::reverse_iterator", "std::thread") and len(args) >= 1:
                if len(args) == 1 or c == "std::basic_string" and len(args) == 2 and self._dfltarg(info, x["args"][1]):
                    v = self.V(st, args[0])
                    if c == "std::thread":
                        self.opaque_event(st, ctx, info, i, x, "std::thread::thread", args)
                    return [(st, (v, None))]
                return [(st, (mk("pc", c, *[self.V(st, a) for a in args]), None))]
            if c == "std::thread" and args:
                self.opaque_event(st, ctx, info, i, x, "std::thread::thread", args)
            if not args:
                if c in ("std::basic_string", "std::basic_string_view"):
                    return [(st, (mk("str", ""), None))]
                if c in ("std::unique_ptr", "std::shared_ptr", "std::function"):
                    return [(st, (ZERO, None))]
                return [(st, (mk("init", x.get("t", c)), None))]
            return [(st, (mk("pc", c, *[self.V(st, a) for a in args]), None))]
        obj = mk("v", ctx, "$%d" % i)
        if obj in st.kids:
            self._dropkids(st, obj)
        st.env[obj] = mk("init", x.get("t", c))
        ev = Event("call", name=norm(x["n"]), fid=fid, args=tuple(args), recv=(None, obj), fn=info.fn, line=x["l"],
                   ctx=ctx, site=(ctx, i), x=x)
        self.rule.on_call(self, st, ev)
        if st.dead:
            return []
        if lazy or ctx.has(fid) or ctx.depth >= self.rule.depth or self.rule.is_stop(ev.name, fid) or ev.stop:
            if x.get("copy") and args:
                return [(st, (self.V(st, args[0]), None))]
            return [(st, (mk("pc", norm(x["n"]), *[self.V(st, a) for a in args]), None))]
        c2 = Ctx.get(ctx, fid, i)
        st.env[mk("v", c2, "this")] = mk("a", obj)
        self.bind_params(st, c2, fn, args)
        out = []
        for s, v, l in self.analyse(fid, c2, st):
            out.append((s, (None, obj)))
        return out

    def _dfltarg(self, info, a):
        x = info.X.get(a, {})
        return x.get("k") in ("ctor",) and "allocator" in x.get("c", "")

    def bind_params(self, st, c2, fn, args):
        for j, p in enumerate(fn["params"]):
            l = mk("v", c2, p["v"])
            if j < len(args):
                a = args[j]
                if p["ref"]:
                    if a[1] is not None:
                        st.env[l] = mk("ref", a[1])
                    else:
                        st.env[l] = a[0] if a[0] is not None else mk("u", "void")
                else:
                    self.store(st, l, self.V(st, a))
            else:
                st.env[l] = mk("u", c2, p["v"])

    def opaque_event(self, st, ctx, info, i, x, name, args, recv=None):
        ev = Event("call", name=name, fid=None, args=tuple(args), recv=recv, fn=info.fn, line=x.get("l", 0), ctx=ctx,
                   site=(ctx, i), x=x)
        self.rule.on_call(self, st, ev)
        return ev

    # -- calls
    def call(self, st, ctx, info, i, x, lazy):
        self.ncalls += 1
        args = [self.get(st, ctx, info, a) for a in x["args"]]
        recv = None
        if x.get("recv") is not None:
            recv = self.get(st, ctx, info, x["recv"])
            if x.get("arrow"):
                recv = (None, self.deref(self.V(st, recv)))
        name = norm(x.get("n", "")) if x.get("n") else ""
        fid = x.get("f")
        fn = self.fns.get(fid)
        sn = name.rsplit("::", 1)[-1] if not "::operator" in name else name[name.rfind("::operator") + 2:]
        clo = None
        if name in NOISE:
            return [(st, (ZERO, None))]
        if not name and x.get("fe") is not None:
            fv = self.V(st, self.get(st, ctx, info, x["fe"]))
            if fv.kind == "fn":
                fid = fv.args[0]
                fn = self.fns.get(fid)
                name = norm(fv.args[1])
                sn = short(name)
            else:
                name = "<indirect>"
        if x.get("op") == "()" and recv is not None:
            rv = self.V(st, recv)
            if rv.kind == "lam":
                clo = rv
                fid2 = fid if fid in self.fns else rv.args[0]
                if name.startswith("std::function") or fid2 not in self.fns:
                    fid2 = rv.args[0]
                    if fid2 not in self.fns and rv.args[4]:
                        fid2 = rv.args[4][0]
                fid = fid2
                fn = self.fns.get(fid)
            elif rv.kind == "fn":
                fid = rv.args[0]
                fn = self.fns.get(fid)
                name = norm(rv.args[1])
                sn = short(name)
            elif fn is not None and fn["kind"] == "lambda":
                fn = None
        if fn is None:
            if self.rule.uses and recv is not None and recv[1] is not None:
                if x.get("l"):
                    self.at = (info.fn, x["l"])
                self.rule.on_use(self, st, sn, recv[1])
            if recv is not None and (name.startswith("std::atomic::") or name.startswith("std::__atomic_base::")
                                     or name.startswith("std::__atomic_float")):
                return self.atomic_call(st, ctx, info, i, x, sn, recv, args)
            r = self.library(st, ctx, info, i, x, name, sn, recv, args)
            if r is not None:
                return r
        ev = Event("call", name=name if fn is None or fn["kind"] != "lambda" else norm(fn["n"]), fid=fid, args=tuple(args),
                   recv=recv, fn=info.fn, line=x.get("l", 0), ctx=ctx, site=(ctx, i), x=x)
        self.rule.on_call(self, st, ev)
        if st.dead:
            return []
        if ev.ret is not None:
            return [(st, (ev.ret, None))]
        if ev.rloc is not None:
            return [(st, (None, ev.rloc))]
        if fn is not None and not lazy and not ev.stop and not ctx.has(fid) and ctx.depth < self.rule.depth \
                and not self.rule.is_stop(ev.name, fid):
            c2 = Ctx.get(ctx, fid, i, clo)
            if recv is not None and fn["kind"] != "lambda" and not fn.get("static"):
                rl = recv[1]
                if rl is None:
                    rl = mk("v", ctx, "$r%d" % i)
                    st.env[rl] = self.V(st, recv)
                st.env[mk("v", c2, "this")] = mk("a", rl) if rl.kind != "d" else rl.args[0]
            self.bind_params(st, c2, fn, args)
            out = []
            for s, v, l in self.analyse(fid, c2, st):
                ev2 = Event("ret", name=ev.name, fid=fid, args=ev.args, recv=recv, fn=info.fn, line=ev.line, ctx=ctx,
                            site=ev.site, x=x)
                ev2.val = v
                ev2.loc = l
                self.rule.after_call(self, s, ev2)
                if not s.dead:
                    out.append((s, (v, l)))
            return out
        return self.opaque(st, ctx, info, i, x, ev, name, sn, recv, args)

    def opaque(self, st, ctx, info, i, x, ev, name, sn, recv, args):
        if x.get("nr") or name in ("abort", "std::abort", "exit", "std::terminate"):
            return []
        r = self.fresh(st, name, ctx, i)
        pm = x.get("pm", ())
        for j, a in enumerate(args):
            m = pm[j] if j < len(pm) else "v"
            tgt = None
            if m == "r" and sn.startswith("emplace") and name.startswith("std::"):
                pass  # an element is made from the argument, which stays as it is
            elif m in ("r", "rr") and a[1] is not None:
                tgt = a[1]
            elif m == "p":
                v = self.V(st, a)
                if v.kind == "a":
                    tgt = v.args[0]
            if tgt is not None and tgt.root is not None:
                o = mk("o", name, ctx, i, j)
                self.kill(st, o)
                self.store(st, tgt, o)
        if recv is not None and recv[1] is not None and not x.get("cm") and sn not in NONMUT and \
                (name.startswith("std::") or name.startswith("tbb::")):
            o = mk("o", name, ctx, i, "this")
            self.kill(st, o)
            self.store(st, recv[1], o)
        t = x.get("t", "")
        ev2 = Event("ret", name=ev.name, fid=ev.fid, args=ev.args, recv=recv, fn=info.fn, line=ev.line, ctx=ctx, site=ev.site, x=x)
        ev2.val = r
        self.rule.after_call(self, st, ev2)
        if st.dead:
            return []
        f = self.fns.get(ev.fid)
        if f is not None and f["ret"].endswith("&"):
            return [(st, (None, mk("d", r)))]
        return [(st, (r, None))]

    def cont(self, st, recv):
        if recv[1] is not None:
            return recv[1]
        return mk("tmpc", self.V(st, recv))

    def library(self, st, ctx, info, i, x, name, sn, recv, args):
        """Model of the library calls the code uses; None -> plain opaque call."""
        V = lambda a: self.V(st, a)
        op = x.get("op")
        if name in PASS1 and args:
            return [(st, args[0])]
        if name == "std::get" and args:
            n = (x.get("ta") or [None])[0]
            if n is None:
                return None
            a = args[0]
            if a[1] is not None:
                f = mk("f", a[1], "#%d" % n)
                v = st.env.get(f)
                if v is not None and v.kind == "ref":
                    f = v.args[0]
                return [(st, (None, f))]
            return [(st, (self.fieldval(V(a), "#%d" % n), None))]
        if name in ("std::make_tuple", "std::make_pair", "std::tie", "std::forward_as_tuple"):
            return [(st, (mk("tup", *[V(a) for a in args]), None))]
        if name in ("std::max", "std::min") and len(args) == 2:
            return [(st, (self.op(short(name), V(args[0]), V(args[1])), None))]
        if name in ("std::max", "std::min") and len(args) == 1 and V(args[0]).kind == "tup":
            vs = V(args[0]).args
            r = vs[0]
            for w in vs[1:]:
                r = self.op(short(name), r, w)
            return [(st, (r, None))]
        if name in ("std::make_unique", "std::make_shared"):
            n = mk("new", ctx, i, x.get("t", ""))
            self.kill(st, n)
            return [(st, (n, None))]
        if op in CMP:
            if recv is not None:
                a, b = V(recv), V(args[0])
            elif len(args) == 2:
                a, b = V(args[0]), V(args[1])
            else:
                return None
            return [(st, (self.op(op, a, b), None))]
        if recv is None:
            if name in ("std::any_of", "std::all_of", "std::none_of", "std::for_each", "std::find_if", "std::copy_if",
                        "std::remove_if", "std::count_if") and len(args) >= 3:
                return self.algorithm(st, ctx, info, i, x, name, args)
            if name in ("std::next", "std::prev") and args:
                v = V(args[0])
                if v.kind == "it":
                    n = mk("it", v.args[0], (short(name), ctx, i))
                    self.kill(st, n)
                    return [(st, (n, None))]
            if name in ("std::begin", "std::end") and args:
                return [(st, (mk("it", self.cont(st, args[0]), short(name)), None))]
            return None
        # methods
        if sn in ("lock", "unlock", "try_lock", "lock_shared", "unlock_shared", "try_lock_shared", "owns_lock", "release"):
            rv = st.env.get(recv[1]) if recv[1] is not None else None
            if rv is None and recv[1] is not None:
                rv = self.load(st, recv[1])
            if rv is not None and rv.kind == "lock":
                if sn == "lock":
                    self.lock(st, ctx, info, rv, x["l"])
                elif sn == "unlock":
                    self.unlock(st, ctx, info, rv, x["l"])
                elif sn == "release":
                    st.locks.pop(rv, None)
                elif sn == "owns_lock":
                    return [(st, (C(rv in st.locks), None))]
                elif sn == "try_lock":
                    q = st.copy()
                    self.lock(st, ctx, info, rv, x["l"])
                    return [(st, (ONE, None)), (q, (ZERO, None))]
                return [(st, (None, None))]
            if name.startswith(("std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::timed_mutex")) and recv[1] is not None:
                mode = "S" if "shared" in sn else "X"
                tok = mk("lock", recv[1], mode, None, "raw")
                if sn in ("lock", "lock_shared"):
                    self.lock(st, ctx, info, tok, x["l"])
                    return [(st, (None, None))]
                if sn in ("unlock", "unlock_shared"):
                    self.unlock(st, ctx, info, tok, x["l"])
                    return [(st, (None, None))]
                q = st.copy()
                self.lock(st, ctx, info, tok, x["l"])
                return [(st, (ONE, None)), (q, (ZERO, None))]
            return None
        if not name.startswith(("std::", "__gnu_cxx::", "tbb::", "yakushima::node_version64_body::")):
            return None
        if op == "->" or op == "*" or sn in ("operator->", "operator*"):
            v = V(recv)
            if v.kind == "it":
                l = mk("e", v)
            else:
                l = self.deref(v)
            if op == "*" or sn == "operator*":
                return [(st, (None, l))]
            return [(st, (mk("a", l) if l.kind != "d" else l.args[0], None))]
        if op in ("++", "--"):
            old = V(recv)
            if old.kind == "it":
                nv = mk("it", old.args[0], (op, ctx, i))
                self.kill(st, nv)
            else:
                nv = mk("u", ctx, i)
                self.kill(st, nv)
            if recv[1] is not None:
                self.store(st, recv[1], nv)
            if args:
                return [(st, (old, None))]
            return [(st, (None, recv[1]) if recv[1] is not None else (nv, None))]
        if op in ("+", "-") and V(recv).kind == "it":
            v = V(recv)
            return [(st, (mk("it", v.args[0], (op, ctx, i)), None))]
        if op == "=":
            if name.startswith("std::thread"):
                pass
            v = V(args[0])
            if recv[1] is not None:
                if name.startswith("std::tuple") or name.startswith("std::pair"):
                    pass
                self.write(st, ctx, info, recv[1], v, x.get("l", 0))
                return [(st, (None, recv[1]))]
            return [(st, (v, None))]
        if sn in ("begin", "cbegin", "rbegin", "crbegin"):
            n = mk("it", self.cont(st, recv), "begin" if "r" not in sn.replace("begin", "") else "rbegin")
            self.kill_iter(st, n)
            return [(st, (n, None))]
        if sn in ("end", "cend", "rend", "crend"):
            return [(st, (mk("it", self.cont(st, recv), "end" if "r" not in sn.replace("end", "") else "rend"), None))]
        if sn in ("back", "front"):
            return [(st, (None, mk("e", mk("it", self.cont(st, recv), sn))))]
        if sn in ("at", "operator[]") and args:
            return [(st, (None, mk("e", mk("it", self.cont(st, recv), ("idx", V(args[0]))))))]
        if sn in ("find", "lower_bound", "upper_bound") and not name.startswith("std::basic_string"):
            n = mk("it", self.cont(st, recv), (sn, V(args[0]), ctx, i))
            ev = self.opaque_event(st, ctx, info, i, x, name, args, recv)
            if ev.ret is not None:
                return [(st, (ev.ret, None))]
            self.kill(st, n)
            return [(st, (n, None))]
        if sn == "erase" and args and V(args[0]).kind == "it":
            # the element behind the erased one
            self.opaque_event(st, ctx, info, i, x, name, args, recv)
            n = mk("it", self.cont(st, recv), ("next", ctx, i))
            self.kill(st, n)
            return [(st, (n, None))]
        if sn in ("data", "c_str", "get") and not args:
            return [(st, recv if recv[0] is not None else (None, recv[1]))]
        if sn.startswith("operator basic_string") or sn in ("operator bool", "has_value", "str", "operator basic_string_view"):
            if sn == "operator bool" and not name.startswith("std::atomic"):
                return [(st, (V(recv), None))]
            if sn.startswith("operator "):
                return [(st, (V(recv), None))]
            return None
        if sn in PURE_CONST:
            ev = self.opaque_event(st, ctx, info, i, x, name, args, recv)
            if ev.ret is not None:
                return [(st, (ev.ret, None))]
            rv = V(recv)
            if rv.kind == "str" and sn == "empty":
                return [(st, (C(rv.args[0] == ""), None))]
            return [(st, (mk("pc", sn, rv, *[V(a) for a in args]), None))]
        if sn == "operator()" and name.startswith("std::function"):
            return None
        return None

    def kill_iter(self, st, n):
        # a new traversal from the start: nothing is known about its first element test
        if n in st.live:
            for d in (st.eq, st.ne):
                for k in [k for k in d if n in k.vol]:
                    del d[k]
        st.live.add(n)

    def algorithm(self, st, ctx, info, i, x, name, args):
        fv = self.V(st, args[-1])
        it = self.V(st, args[0])
        if fv.kind != "lam":
            return None
        fid = fv.args[0]
        if fid not in self.fns and fv.args[4]:
            fid = fv.args[4][0]
        fn = self.fns.get(fid)
        if fn is None or ctx.has(fid):
            return None
        cont = it.args[0] if it.kind == "it" else mk("tmpc", it)
        el = mk("e", mk("it", cont, (short(name), ctx, i)))
        self.kill(st, el.args[0])
        none = st.copy()
        c2 = Ctx.get(ctx, fid, i, fv)
        self.bind_params(st, c2, fn, [(None, el)])
        out = []
        for s, v, l in self.analyse(fid, c2, st):
            v = self.V(s, (v, l))
            s1 = s
            s2 = s.copy()
            hit = self.assume(s1, v, True)
            miss = self.assume(s2, v, False)
            if v.kind != "c":
                for ok, q, tr in ((hit, s1, 1), (miss, s2, 0)):
                    if ok:
                        self.rule.on_branch(self, q, Event("branch", fn=fn, line=fn["l"], ctx=c2, val=v, extra=tr))
            sn = short(name)
            if sn in ("any_of", "find_if"):
                if hit:
                    out.append((s1, (ONE if sn == "any_of" else el.args[0], None)))
                if miss:
                    out.append((s2, (ZERO if sn == "any_of" else mk("it", cont, "end"), None)))
            elif sn in ("all_of", "none_of"):
                neg = sn == "none_of"
                if miss:
                    out.append((s2, (ONE if neg else ZERO, None)))
                if hit:
                    out.append((s1, (ZERO if neg else ONE, None)))
            else:
                out.append((s, (self.fresh(s, name, ctx, i), None)))
        if not self.rule.nonempty:
            sn = short(name)
            r = {"any_of": ZERO, "all_of": ONE, "none_of": ONE}.get(sn)
            if r is None:
                r = mk("it", cont, "end") if sn == "find_if" else self.fresh(none, name, ctx, i)
            out.append((none, (r, None)))
        return out


def info_name(eng, fid):
    return eng.info(fid).name


def lockname(loc):
    """Last component of a mutex location."""
    if loc.kind in ("f",):
        return short(loc.args[1])
    if loc.kind == "g":
        return short(loc.args[0])
    if loc.kind == "d":
        a = loc.args[0]
        if a.kind == "r":
            return short(a.args[0])
        return pretty(loc)
    return pretty(loc)


def base_of(loc):
    while loc is not None and loc.kind in ("f",):
        loc = loc.args[0]
    return loc
