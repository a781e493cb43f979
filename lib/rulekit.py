"""Building blocks for the rules: event automata and decision tables."""
import itertools
from engine import (Engine, Rule, Term, mk, C, ZERO, ONE, norm, short, pretty, lockname, AnalysisBroken)

SK = "shirakami::"


def q(names):
    """Qualified names from a blank-separated list below the shirakami namespace."""
    return frozenset(SK + n for n in names.split())


class Flow(Rule):
    """A rule given by handlers.

    call / after : {callee name: handler(X, st, e)}; e.args are (value, location)
                   pairs, e.val the result in `after`.
    write        : {last component of the field: handler}
    atomic       : handler for atomic loads/stores/exchanges
    exit         : handler(X, st, value, fn)
    """

    def __init__(self, K, rid, stop=frozenset(), call=None, after=None, write=None, atomic=None, lock=None, branch=None,
                 exit=None, new=None, delete=None, start=None, anycall=None, anywrite=None, **opt):
        super().__init__()
        self.K = K
        self.rid = rid
        self.stop = frozenset(stop)
        self.h_call = call or {}
        self.h_after = after or {}
        self.h_write = write or {}
        self.h_atomic = atomic
        self.h_lock = lock
        self.h_branch = branch
        self.h_exit = exit
        self.h_new = new
        self.h_delete = delete
        self.h_start = start
        self.h_anycall = anycall
        self.h_anywrite = anywrite
        self.domains = K.domains
        self.stable = ("tx_type_",)
        for k, v in opt.items():
            setattr(self, k, v)
        # handlers that observe a call do not imply it is looked into
        self.inst = 0

    # engine hooks
    def start(self, eng, st):
        self.eng = eng
        if self.h_start:
            self.h_start(self, st)

    def on_call(self, eng, st, e):
        self.eng = eng
        h = self.h_call.get(e.name)
        if h:
            h(self, st, e)
        if self.h_anycall:
            self.h_anycall(self, st, e)

    def after_call(self, eng, st, e):
        h = self.h_after.get(e.name)
        if h:
            h(self, st, e)

    def on_write(self, eng, st, e):
        if e.loc.kind in ("f", "g"):
            n = short(e.loc.args[1] if e.loc.kind == "f" else e.loc.args[0])
            h = self.h_write.get(n)
            if h:
                h(self, st, e)
        if self.h_anywrite:
            self.h_anywrite(self, st, e)

    def on_atomic(self, eng, st, e):
        if self.h_atomic:
            self.h_atomic(self, st, e)

    def on_lock(self, eng, st, e):
        if self.h_lock:
            self.h_lock(self, st, e)

    def on_branch(self, eng, st, e):
        if self.h_branch:
            self.h_branch(self, st, e)

    def on_new(self, eng, st, e):
        if self.h_new:
            self.h_new(self, st, e)

    def on_delete(self, eng, st, e):
        if self.h_delete:
            self.h_delete(self, st, e)

    def on_exit(self, eng, st, val, fn):
        self.eng = eng
        if self.h_exit:
            self.h_exit(self, st, val, fn)

    # for handlers
    def V(self, st, ev):
        return self.eng.V(st, ev)

    def arg(self, st, e, i):
        if i >= len(e.args):
            return None
        return self.eng.V(st, e.args[i])

    def recv(self, st, e):
        return e.recv[1] if e.recv is not None else None

    def const(self, st, v):
        return None if v is None else self.eng.const(st, v)

    def outcome(self, st, v, good):
        """'ok' when v is known to equal good, 'no' when known to differ, None when unknown."""
        if v is None:
            return None
        c = self.eng.const(st, v)
        if c is not None:
            return "ok" if c == good else "no"
        if good in st.ne.get(v, ()):
            return "no"
        return None

    def bad(self, st, e, msg):
        self.K.violation(self.rid, e.fn, e.line, msg, st)

    def badfn(self, st, fn, msg, line=None):
        self.K.violation(self.rid, fn, line if line is not None else fn["l"], msg, st)

    def ob(self, n=1):
        """One more obligation of this rule was examined."""
        self.inst += n

    def note(self, st, e, what):
        st.trace = st.trace[-11:] + ("%s:%d %s" % (e.fn["file"], e.line, what),)


class Kit:
    """Collects the result of one property's rules on one build configuration."""

    def __init__(self, eng, prop):
        self.eng = eng
        self.prop = prop
        self.viol = {}
        self.rules = []
        self.broken = []
        # a write set entry carries one of the four write operations, a transaction has one of three types
        self.domains = {
            "op_": frozenset(self.OP(n) for n in ("INSERT", "UPDATE", "UPSERT", "DELETE")),
            "tx_type_": frozenset(eng.enum("shirakami::transaction_options::transaction_type", n)
                                  for n in ("SHORT", "LONG", "READ_ONLY"))}

    # values
    def S(self, name):
        return self.eng.enum("shirakami::Status", name)

    def RC(self, name):
        return self.eng.enum("shirakami::reason_code", name)

    def OP(self, name):
        return self.eng.enum("shirakami::OP_TYPE", name)

    def status_name(self, v):
        return self.eng.enum_name("shirakami::Status", v) or str(v)

    def violation(self, rid, fn, line, msg, st=None):
        k = (rid, fn["file"], norm(fn["n"]), msg)
        if k not in self.viol:
            self.viol[k] = {"rule": rid, "file": fn["file"], "function": norm(fn["n"]), "line": line, "what": msg,
                            "path": list(st.trace) if st is not None else []}

    def fns(self, names, nparams=None, need=True):
        out = []
        for n in names.split() if isinstance(names, str) else names:
            out += self.eng.find(SK + n if not n.startswith(SK) else n, nparams, need=need)
        return out

    def run(self, rid, text, roots, minimum=1, init=None, **kw):
        """Run one automaton over all roots; at least `minimum` obligations must have been met."""
        try:
            return self._run(rid, text, roots, minimum, init, **kw)
        except AnalysisBroken as e:
            self.broken.append("%s: %s" % (rid, e))

    def table(self, rid, text, fid, dom, sem, spec, **kw):
        try:
            return self._table(rid, text, fid() if callable(fid) else fid, dom, sem, spec, **kw)
        except AnalysisBroken as e:
            self.broken.append("%s: %s" % (rid, e))

    def decide(self, rid, text, roots, dom, sem, spec, minimum=1, result=None, when=None, **kw):
        """Like table, for functions that decide inside a loop: the conditions met along each path are kept and compared with the
        specification under every assignment; conditions on iterators are left open."""
        names = list(dom)
        envs = [dict(zip(names, vals)) for vals in itertools.product(*[dom[k] for k in names])]
        inner = kw.pop("branch", None)

        def br(X, st, e):
            if inner:
                inner(X, st, e)
            o, a, b, t = atom(e.val, e.extra)
            if a.kind == "it" or b is not None and b.kind == "it":
                return
            c = (e.val, bool(e.extra))
            p = st.ps.get("path", ())
            if c not in p:
                st.ps["path"] = p + (c,)

        def ex(X, st, v, fn):
            if when is not None and not when(X, st, v):
                return
            res = v if result is None else result(X, st, v)
            conds = st.ps.get("path", ())
            for a in envs:
                want = spec(a)
                if want is None:
                    continue
                if any(x is not None and bool(x) != t for x, t in ((evalterm(c, a, sem), t) for c, t in conds)):
                    continue
                X.ob()
                got = evalterm(res, a, sem) if isinstance(res, Term) else res
                if got is None or got != want:
                    X.badfn(st, fn, "%s: for %s the answer is %s, expected %s" % (
                        text, ", ".join("%s=%s" % kv for kv in a.items()),
                        pretty(res) if got is None and isinstance(res, Term) else got, want))
                    return
        return self.run(rid, text, roots, minimum=minimum, branch=br, exit=ex, **kw)

    def part(self, rid, f):
        """Run a hand-written part of a property; a missing anchor there does not hide other rules."""
        try:
            f(self)
        except AnalysisBroken as e:
            self.broken.append("%s: %s" % (rid, e))

    def _run(self, rid, text, roots, minimum=1, init=None, **kw):
        if isinstance(roots, str):
            roots = self.fns(roots)
        if not roots:
            raise AnalysisBroken("%s: nothing to analyse" % rid)
        r = Flow(self, rid, **kw)
        n0 = len(self.viol)
        for f in roots:
            self.eng.run(r, f, init=init)
        if r.inst < minimum and len(self.viol) == n0:
            raise AnalysisBroken("%s: only %d instances found (expected at least %d): %s" % (rid, r.inst, minimum, text))
        self.rules.append({"id": rid, "rule": text, "roots": len(roots), "obligations": r.inst,
                           "violations": len(self.viol) - n0})
        return r

    def record(self, rid, text, obligations, minimum=1, before=0):
        if obligations < minimum:
            raise AnalysisBroken("%s: only %d instances found (expected at least %d): %s" % (rid, obligations, minimum, text))
        self.rules.append({"id": rid, "rule": text, "roots": 1, "obligations": obligations,
                           "violations": sum(1 for k in self.viol if k[0] == rid)})

    # decision tables -------------------------------------------------
    def _table(self, rid, text, fid, dom, sem, spec, init=None, result=None, minimum=1, check=None, **kw):
        """Compare every path of a function with a finite specification.

        dom  : {variable: values}
        sem  : function(term, assignment) -> value or None (unknown)
        spec : function(assignment) -> expected value (None: do not care)
        result: function(X, st, value) -> term or constant to compare
        """
        fn = self.eng.fns[fid]
        paths = []

        def ex(X, st, v, f):
            paths.append((st, v))
        r = Flow(self, rid, exit=ex, **kw)
        self.eng.run(r, fid, init=init)
        names = list(dom)
        n = 0
        n0 = len(self.viol)
        for vals in itertools.product(*[dom[k] for k in names]):
            a = dict(zip(names, vals))
            want = spec(a)
            if want is None:
                continue
            reached = False
            for st, v in paths:
                if not compatible(st, a, sem):
                    continue
                reached = True
                n += 1
                res = v if result is None else result(r, st, v)
                got = evalterm(res, a, sem) if isinstance(res, Term) else res
                if got is None or got != want:
                    self.violation(rid, fn, fn["l"], "%s: for %s the answer is %s, expected %s" % (
                        text, ", ".join("%s=%s" % kv for kv in a.items()),
                        pretty(res) if got is None and isinstance(res, Term) else got, want), st)
                    break
            if not reached:
                self.violation(rid, fn, fn["l"], "%s: no path answers for %s" % (text, a), None)
        if n < minimum:
            raise AnalysisBroken("%s: decision table of %s is empty" % (rid, fn["n"]))
        self.rules.append({"id": rid, "rule": text, "roots": 1, "obligations": n, "violations": len(self.viol) - n0})
        return paths


def evalterm(t, a, sem):
    """Value of a term under an assignment; None when unknown."""
    if not isinstance(t, Term):
        return t
    v = sem(t, a)
    if v is not None:
        return int(v) if isinstance(v, bool) else v
    k = t.kind
    if k == "c":
        return t.args[0]
    if k == "op":
        o = t.args[0]
        xs = [evalterm(x, a, sem) for x in t.args[1:]]
        if o == "!":
            return None if xs[0] is None else int(not xs[0])
        if o == "&&":
            if xs[0] == 0 or xs[1] == 0:
                return 0
            return None if None in xs else int(bool(xs[0]) and bool(xs[1]))
        if o == "||":
            if (xs[0] is not None and xs[0] != 0) or (xs[1] is not None and xs[1] != 0):
                return 1
            return None if None in xs else 0
        if None in xs:
            return None
        if o == "==":
            return int(xs[0] == xs[1])
        if not all(isinstance(x, (int, str, tuple)) for x in xs):
            return None
        try:
            if o == "<":
                return int(xs[0] < xs[1])
            if o == "+":
                return xs[0] + xs[1]
            if o == "-":
                return xs[0] - xs[1]
            if o == "max":
                return max(xs)
            if o == "min":
                return min(xs)
        except TypeError:
            return None
    return None


def compatible(st, a, sem):
    for t, c in st.eq.items():
        v = evalterm(t, a, sem)
        if v is not None and v != c:
            return False
    for t, cs in st.ne.items():
        v = evalterm(t, a, sem)
        if v is not None and v in cs:
            return False
    return True


def loc_is(loc, *fields):
    """Does the location end with these field names (innermost last)?"""
    for f in reversed(fields):
        if loc is None or loc.kind != "f" or short(loc.args[1]) != f:
            return False
        loc = loc.args[0]
    return True


def ld_is(t, *fields):
    return t is not None and t.kind == "ld" and loc_is(t.args[0], *fields)


def subterms(t):
    """All subterms of a term, itself first."""
    if isinstance(t, tuple):
        for y in t:
            yield from subterms(y)
    elif isinstance(t, Term):
        yield t
        for x in t.args:
            yield from subterms(x)


def mentions(t, pred, depth=0):
    """Does a term contain a subterm satisfying pred?"""
    if not isinstance(t, Term) or depth > 14:
        return False
    if pred(t):
        return True
    for x in t.args:
        if isinstance(x, Term):
            if mentions(x, pred, depth + 1):
                return True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term) and mentions(y, pred, depth + 1):
                    return True
                if isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term) and mentions(z, pred, depth + 1):
                            return True
    return False


def is_result(t, name):
    return isinstance(t, Term) and t.kind == "r" and t.args[0] == name


def atom(v, truth):
    """(operator, a, b, truth) of a branch condition; operator 't' for plain truth."""
    truth = bool(truth)
    while v.kind == "op" and v.args[0] == "!":
        v = v.args[1]
        truth = not truth
    if v.kind == "op" and v.args[0] in ("==", "<"):
        return (v.args[0], v.args[1], v.args[2], truth)
    return ("t", v, None, truth)


def field_of(t, name):
    """Base value when t is field `name` of something, else None."""
    if t is None:
        return None
    if t.kind == "fv" and short(t.args[1]) == name:
        return t.args[0]
    if t.kind == "ld" and t.args[0].kind == "f" and short(t.args[0].args[1]) == name:
        return mk("ld", t.args[0].args[0])
    return None


def in_container(t, field):
    """Does the term refer to an element of a container held in `field`?"""
    def p(x):
        if x.kind == "it":
            c = x.args[0]
            return c.kind == "f" and short(c.args[1]) == field
        if x.kind == "f" and x.args[1].startswith("[]"):
            c = x.args[0]
            return c.kind == "f" and short(c.args[1]) == field
        return False
    return mentions(t, p)


def is_aload(t):
    return isinstance(t, Term) and t.kind == "r" and t.args[0] == "aload"


_canon = {}


def canon(t):
    """The same location or value without the program points it was read at."""
    if not isinstance(t, Term):
        return t
    c = _canon.get(t)
    if c is None:
        if is_aload(t):
            c = mk("r", "aload", None, None, canon(t.args[3]))
        else:
            c = mk(t.kind, *[canon(x) if isinstance(x, Term) else x for x in t.args])
        _canon[t] = c
    return c


def stored(K, rid, fn, field, param=0, minimum=1):
    """The function leaves its parameter in the field on every path."""
    for fid in (K.fns(fn) if not fn.startswith("c:") and fn not in K.eng.fns else [fn]):
        f = K.eng.fns[fid]
        pn = f["params"][param]["n"]

        def put(X, st, e, field=field, pn=pn):
            if e.loc is not None and e.loc.kind == "f" and short(e.loc.args[1]) == field:
                st.ps["v"] = 1 if e.val is not None and is_param(e.val, param) else 0

        def at(X, st, e):
            if e.kind != "aload":
                put(X, st, e)

        def call(X, st, e, field=field):
            # containers and strings: assignment by member call
            if e.name.startswith("std::") and e.recv is not None and loc_is(e.recv[1], field) and short(e.name) in (
                    "operator=", "assign", "store"):
                v = X.arg(st, e, 0)
                st.ps["v"] = 1 if is_param(v, param) else 0

        def ex(X, st, v, fn, field=field):
            X.ob()
            if st.ps.get("v") != 1:
                X.badfn(st, fn, "does not store its argument in " + field)
        K.run(rid, "setters store what they are given", [fid], minimum=minimum, anywrite=put, atomic=at, anycall=call, exit=ex)


def is_param(t, i):
    return mentions(t, lambda x: x.kind == "p" and x.args[0] == i)
