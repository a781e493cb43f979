"""C27: committed reads stay protected from later-committing older writers."""
from rulekit import *
import publish

NOTE = ("every path of both commits: all point and range reads are registered with the commit position before the transaction leaves "
        "the set of running ones; the registries are compared with a table over order, epoch and range ends, and drop entries only "
        "below the oldest epoch a running long transaction may still use")

PL, RL, PS, RS = (SK + n + "::push" for n in ("point_read_by_long", "range_read_by_long", "point_read_by_short", "range_read_by_short"))
OVER = q("ongoing_tx::remove_id session::clean_up read_plan::remove_elem session::call_commit_callback")


def check(K):
    for f in (long_, short_, kept, point, range_, scan_all, drops, raises):
        K.part("C27." + f.__name__.rstrip("_"), f)


def own(t, f):
    return t is not None and mentions(t, lambda x: ld_is(x, f) or is_aload(x) and loc_is(x.args[3], f))


def parts(t):
    """Fields of a braced tuple or pair."""
    if t is None:
        return None
    if t.kind == "tup":
        return list(t.args[0]) if len(t.args) == 1 and isinstance(t.args[0], tuple) else list(t.args)
    if t.kind == "rec":
        f = dict(t.args[1])
        return [f[k] for k in sorted(f)]
    return None


def long_(K):
    """a long transaction registers every record and range it read, with its final epoch and its identity, before it is over"""
    OKV = K.S("OK")

    def position(X, st, e, p):
        if p is None:
            return False
        if not own(p[0], "valid_epoch_") and p[0] is not st.ps.get("ve"):
            X.bad(st, e, "long commit: registers a read with another epoch than its own")
        if not own(p[1], "long_tx_id_"):
            X.bad(st, e, "long commit: registers a read with another identity than its own")
        return True

    def pt(X, st, e):
        X.ob()
        position(X, st, e, parts(X.arg(st, e, 0)))
        r = X.recv(st, e)
        if r is not None and r.kind != "u" and not in_container(r, "set_"):
            X.bad(st, e, "long commit: registers a read on something else than a record read")
        st.ps["pt"] = 1

    def rg(X, st, e):
        X.ob()
        p = parts(X.arg(st, e, 0))
        if position(X, st, e, p):
            for i in range(1, 5):
                if len(p) > i + 1 and p[i + 1].kind != "u" and not mentions(p[i + 1], lambda x: x.kind in ("f", "fv") and x.args[1] == "#%d" % i):
                    X.bad(st, e, "long commit: registers another range than the one read")
        r = X.recv(st, e)
        if r is not None and r.kind != "u" and not mentions(r, lambda x: x.kind in ("f", "fv") and x.args[1] == "#0"):
            X.bad(st, e, "long commit: registers a range with another storage than the one read")
        st.ps["rg"] = 1

    def wr(X, st, e):
        if e.loc is not None and loc_is(e.loc, "valid_epoch_"):
            moved(X, st, e)

    def moved(X, st, e):
        st.ps["ve"] = e.val
        if (st.ps.get("pt") or st.ps.get("rg")) and not st.ps.get("over"):
            X.ob()
            X.bad(st, e, "long commit: moves its epoch after its reads were registered")

    def at(X, st, e):
        if e.kind == "astore" and loc_is(e.loc, "valid_epoch_"):
            moved(X, st, e)

    def over(X, st, e):
        ps = st.ps
        if ps.get("ab") or e.name == SK + "session::call_commit_callback" and X.const(st, X.arg(st, e, 0)) != OKV:
            return
        X.ob()
        ps["over"] = 1
        if not ps.get("pt"):
            X.bad(st, e, "long commit: %s before the records read are registered" % short(e.name))
        if not ps.get("rg"):
            X.bad(st, e, "long commit: %s before the ranges read are registered" % short(e.name))

    def abort(X, st, e):
        st.ps["ab"] = 1
    h = {n: over for n in OVER}
    h.update({PL: pt, RL: rg, SK + "long_tx::abort": abort})
    K.run("C27.long", long_.__doc__, "long_tx::commit", minimum=8, nonempty=True, once=True,
          stop=(publish.LSTOP | OVER | q("long_tx::expose_local_write")) - q("long_tx::register_read_by long_tx::verify"), call=h, anywrite=wr, atomic=at)


def short_(K):
    """a short transaction registers every record and range it read, with the epoch of its commit, before its commit counts as done"""
    ADD = ("insert", "emplace", "emplace_back", "push_back")

    def epoch(X, st, e):
        v = X.arg(st, e, 0)
        if v is not None and v.kind != "u" and field_of(v, "epoch_") is None:
            X.bad(st, e, "short commit: registers a read with something else than the epoch of its commit")
        elif v is not None and v.kind != "u" and not own(v, "mrc_tid_") and "mrc_tid" not in pretty(v):
            X.bad(st, e, "short commit: registers a read with the epoch of another stamp than its own")

    def col(X, st, e):
        if e.recv is None or short(e.name) not in ADD or not e.name.startswith("std::"):
            return
        for i in range(len(e.args)):
            v = X.arg(st, e, i)
            if v is not None and in_container(v, "read_set_for_stx_"):
                X.ob()
                st.ps["col"] = e.recv[1]

    def pt(X, st, e):
        X.ob()
        epoch(X, st, e)
        r = X.recv(st, e)
        l = e.recv[1]
        for x in (r, l):
            if x is None:
                continue
            if in_container(x, "read_set_for_stx_") or x.kind == "u":
                st.ps["pt"] = 1
            c = st.ps.get("col")
            if c is not None and mentions(x, lambda y: y.kind == "it" and y.args[0] is c):
                st.ps["pt"] = 1

    def rg(X, st, e):
        X.ob()
        epoch(X, st, e)
        st.ps["rg"] = 1

    def over(X, st, e):
        ps = st.ps
        if ps.get("ab") or not ps.get("exposed"):
            return
        X.ob()
        if not ps.get("pt"):
            X.bad(st, e, "short commit: %s before the records read are registered" % short(e.name))
        if not ps.get("rg"):
            X.bad(st, e, "short commit: %s before the ranges read are registered" % short(e.name))

    def abort(X, st, e):
        st.ps["ab"] = 1

    def seq(X, st, e):
        st.ps["exposed"] = 1
    h = {n: over for n in q("session::unlock_short_expose_ongoing_and_refresh_epoch session::clean_up")}
    h.update({PS: pt, RS: rg, SK + "short_tx::abort": abort, SK + "session::set_mrc_tid": seq})
    K.run("C27.short", short_.__doc__, "short_tx::commit", minimum=6, nonempty=True, once=True, merge_block=600,
          stop=publish.SSTOP | q("point_read_by_short::push range_read_by_short::push"), call=h, anycall=col)


def kept(K):
    """what is entered among the reads of a transaction is kept"""
    for root, field, ops in (("local_read_set_for_ltx::push", "set_", ("insert", "emplace")),
                             ("range_read_set_for_ltx::insert", "set_", ("insert", "emplace")),
                             ("session::push_to_range_read_by_short_set", "range_read_by_short_set_", ("insert", "emplace")),
                             ("session::push_to_read_set_for_stx", "read_set_for_stx_", ("emplace_back", "push_back"))):
        def add(X, st, e, field=field, ops=ops):
            if e.recv is None or not loc_is(e.recv[1], field) or short(e.name) not in ops:
                return
            X.ob()
            v = X.arg(st, e, 0)
            if v is not None and v.kind != "u" and not is_param(v, 0):
                X.bad(st, e, "%s: keeps something else than it was given" % X.root)
            st.ps["in"] = 1

        def ex(X, st, v, fn):
            X.ob()
            if not st.ps.get("in"):
                X.badfn(st, fn, "%s: does not keep what it was given" % X.root)
        K.run("C27.kept", kept.__doc__, root, minimum=1, anycall=add, exit=ex, root=root)


def el(t, f):
    t2 = t
    while t2.kind == "ld":
        t2 = t2.args[0]
    return t2.kind in ("f", "fv") and t2.args[1] == f and in_container(t2, "body_")


def point(K):
    """a committed long reader of a record conflicts with a writer iff it is older and its position is at or after the writer's"""
    def sem(t, a):
        if el(t, "#1"):
            return a["reader"]
        if el(t, "#0"):
            return a["read_at"]
        if ld_is(t, "long_tx_id_") or is_aload(t) and loc_is(t.args[3], "long_tx_id_"):
            return 5
        if ld_is(t, "valid_epoch_") or is_aload(t) and loc_is(t.args[3], "valid_epoch_"):
            return 5
        return None

    def spec(a):
        if a["reader"] == 5:
            return None
        return int(a["reader"] < 5 and a["read_at"] >= 5)
    K.decide("C27.point", point.__doc__, "point_read_by_long::is_exist", {"reader": (4, 5, 6), "read_at": (4, 5, 6)}, sem, spec,
             minimum=6, nonempty=True, once=True)


def range_(K):
    """a committed long range reader conflicts with a writer of a key iff it is older, its position is at or after the writer's and the
    range holds the key"""
    EX, IN, INF = (K.eng.enum(SK + "scan_endpoint", n) for n in ("EXCLUSIVE", "INCLUSIVE", "INF"))

    def sem(t, a):
        for f, k in (("#0", "read_at"), ("#1", "reader"), ("#2", "l_key"), ("#3", "l_end"), ("#4", "r_key"), ("#5", "r_end")):
            if el(t, f):
                return a[k]
        if t.kind != "op" and not in_container(t, "body_") and (is_param(t, 0) or is_param(t, 1) or is_param(t, 2)):
            return 5
        return None

    def spec(a):
        if a["reader"] == 5:
            return None
        left = a["l_end"] == INF or a["l_key"] < 5 or a["l_key"] == 5 and a["l_end"] == IN
        right = a["r_end"] == INF or a["r_key"] > 5 or a["r_key"] == 5 and a["r_end"] == IN
        return int(a["reader"] < 5 and a["read_at"] >= 5 and left and right)
    K.decide("C27.range", range_.__doc__, "range_read_by_long::is_exist",
             {"reader": (4, 5, 6), "read_at": (4, 5, 6), "l_key": (4, 5, 6), "l_end": (EX, IN, INF), "r_key": (4, 5, 6), "r_end": (EX, IN, INF)},
             sem, spec, minimum=300, nonempty=True, once=True, merge_block=1000, merge_exits=1000)


def scan_all(K):
    """the search for a conflicting reader looks at every entry, or stops where all further ones belong to newer transactions"""
    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==" and ("it" in (a.kind, b.kind)):
            if t:
                ps["end"] = 1
            else:
                ps["lt"] = None
                ps["n"] = 1
            return
        if o == "<":
            # reader < writer, or the other way round
            if el(a, "#1"):
                ps["lt"] = t
            elif el(b, "#1"):
                ps["lt"] = None if not t else False
        elif o == "==" and (el(a, "#1") or el(b, "#1")) and t:
            ps["lt"] = False

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if X.const(st, v) == 0 and ps.get("n") and not ps.get("end") and ps.get("lt") is not False:
            X.badfn(st, fn, "%s: stops looking although older readers may follow" % X.root)
    for r in ("point_read_by_long::is_exist", "range_read_by_long::is_exist"):
        K.run("C27.all", scan_all.__doc__, r, minimum=2, branch=br, exit=ex, root=r, merge_block=200)


def drops(K):
    """a registry always takes the new entry and drops only entries older than what a running long transaction may still be ordered at"""
    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "<" and el(a, "#0"):
            X.ob()
            ps["low"] = b if t else None
        elif o == "<" and el(b, "#0"):
            # threshold < entry: entries equal to the threshold would count as older
            ps["low"] = None
            if not t:
                ps["eq"] = 1

    def safe(X, st, b):
        """is the bound the safe snapshot epoch (or, before there is one, the current epoch)"""
        if b is None:
            return False
        return b.kind == "u" or "cc_safe_ss_epoch" in pretty(b) or is_result(b, SK + "epoch::get_cc_safe_ss_epoch") \
            or st.ps.get("zero") and "global_epoch" in pretty(b)

    def br2(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and b is ZERO and ("cc_safe_ss_epoch" in pretty(a)) and t or o == "t" and "cc_safe_ss_epoch" in pretty(a) and not t:
            st.ps["zero"] = 1
        br(X, st, e)
        if o == "<" and el(a, "#0") and t and not safe(X, st, b):
            X.bad(st, e, "%s: entries are dropped by another bound than the oldest epoch still in use" % X.root)

    def call(X, st, e):
        if e.recv is None or not loc_is(e.recv[1], "body_"):
            return
        n = short(e.name)
        if n in ("emplace_back", "push_back", "insert", "emplace"):
            X.ob()
            v = X.arg(st, e, len(e.args) - 1)
            if v is not None and v.kind != "u" and not is_param(v, 0):
                X.bad(st, e, "%s: enters something else than it was given" % X.root)
            st.ps["in"] = 1
        elif n in ("erase", "clear", "pop_back", "resize", "pop_front"):
            X.ob()
            if st.ps.get("in"):
                X.bad(st, e, "%s: drops entries after the new one was entered" % X.root)
            if st.ps.get("low") is None and not st.ps.get("seenlow") or n != "erase":
                X.bad(st, e, "%s: drops entries that may still be needed" % X.root)

    def step(X, st, e):
        br2(X, st, e)
        if st.ps.get("low") is not None:
            st.ps["seenlow"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("in") and not st.ps.get("dup"):
            X.badfn(st, fn, "%s: does not enter the read" % X.root)

    def same(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and t and (el(a, "#1") or el(b, "#1")):
            st.ps["dup"] = 1
        step(X, st, e)
    for r in ("point_read_by_long::push", "range_read_by_long::push"):
        K.run("C27.drops", drops.__doc__, r, minimum=4, branch=same, anycall=call, exit=ex, root=r)


def raises(K):
    """the mark of short readers only ever grows, and covers the epoch given"""
    def at(X, st, e):
        if not loc_is(e.loc, "max_epoch_"):
            return
        if e.kind == "aload":
            st.ps["cur"] = e.val
        elif e.kind == "acas":
            X.ob()
            if not is_param(e.val, 0):
                X.bad(st, e, "%s: marks another epoch than the one given" % X.root)
            if not st.ps.get("less"):
                X.bad(st, e, "%s: may lower the mark" % X.root)
            st.ps["cas"] = 1
            st.ps["less"] = None
        elif e.kind in ("astore", "armw"):
            X.ob()
            X.bad(st, e, "%s: overwrites the mark of a concurrent reader" % X.root)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "<" and is_param(b, 0) and not is_param(a, 0):
            ps["less"] = t
            ps["done"] = not t
        elif o == "<" and is_param(a, 0):
            # given < mark
            ps["less"] = None
            ps["done"] = t
        elif o == "t" and ps.get("cas") is not None and ("cas" in pretty(a) or a.kind in ("r", "u")):
            ps["done"] = t
            ps["cas"] = None

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("done"):
            X.badfn(st, fn, "%s: returns although the mark may be below the epoch given" % X.root)
    for r in ("point_read_by_short::push", "range_read_by_short::push"):
        K.run("C27.raises", raises.__doc__, r, minimum=2, atomic=at, branch=br, exit=ex, root=r)
