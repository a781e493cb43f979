"""C16: the epoch advances safely and snapshot boundaries never overtake live work."""
from rulekit import *
import publish

NOTE = ("every path of the epoch worker's step and of a short commit, with the locks and marks held at each access of the epoch and its "
        "boundaries; who may move them is read off the call graph")


def check(K):
    for f in (step, short_, long_, filter_, commit, refresh, raise_, movers):
        K.part("C16." + f.__name__.rstrip("_"), f)


def glob(loc, name):
    return loc is not None and loc.kind == "g" and short(loc.args[0]) == name


def is_glob(t, name):
    return is_aload(t) and glob(t.args[3], name) or t is not None and t.kind == "ld" and glob(t.args[0], name)


def plus1(X, st, v, name):
    return v is not None and v.kind == "op" and v.args[0] == "+" and is_glob(v.args[1], name) and X.const(st, v.args[2]) == 1


def step(K):
    """the epoch moves by one while begins are excluded, and its boundaries and the log's epoch follow before begins resume"""
    WORK = SK + "epoch::epoch_thread_work"

    def at(X, st, e):
        ps = st.ps
        if e.kind not in ("astore", "acas", "armw"):
            return
        if glob(e.loc, "global_epoch"):
            X.ob()
            if not X.eng.held(st, "wp_mutex"):
                X.bad(st, e, "epoch worker: the epoch moves while transactions may begin")
            if not X.eng.held(st, "ep_mtx_"):
                X.bad(st, e, "epoch worker: the epoch moves without its lock")
            if e.kind != "astore" or not plus1(X, st, e.val, "global_epoch"):
                X.bad(st, e, "epoch worker: the epoch does not move by one")
            ps.update(adv=e.val, lim=0, safe=0, log=0)
        for g, k in (("min_epoch_occ_potentially_write", "lim"), ("cc_safe_ss_epoch", "safe")):
            if glob(e.loc, g):
                X.ob()
                if not X.eng.held(st, "wp_mutex"):
                    X.bad(st, e, "epoch worker: a boundary moves while transactions may begin")
                ps[k] = 1

    def log(X, st, e):
        X.ob()
        if X.arg(st, e, 1) is not st.ps.get("adv") and not is_glob(X.arg(st, e, 1), "global_epoch"):
            X.bad(st, e, "epoch worker: the log is told another epoch than the new one")
        st.ps["log"] = 1

    def lock(X, st, e):
        ps = st.ps
        if e.kind != "release" or ps.get("adv") is None or X.eng.held(st, "wp_mutex"):
            return
        X.ob()
        for k, m in (("lim", "the limit of short commits still exposing"), ("safe", "the newest safe snapshot")) + ((("log", "the log's epoch"),) if X.pwal else ()):
            if not ps.get(k):
                X.bad(st, e, "epoch worker: begins resume before %s was brought up to the new epoch" % m)
        ps["adv"] = None
    pwal = bool(K.fns("switch_epoch", need=False))
    K.run("C16.step", step.__doc__, "epoch::epoch_thread_work", minimum=6, stop=q("switch_epoch get_tx_id"), call={SK + "switch_epoch": log}, atomic=at, lock=lock, pwal=pwal)


def leaves(v):
    if v is not None and v.kind == "op" and v.args[0] == "min":
        return leaves(v.args[1]) | leaves(v.args[2])
    return {v} if v is not None else set()


def status(t):
    return t is not None and mentions(t, lambda x: is_aload(x) and loc_is(x.args[3], "short_expose_ongoing_status_") or ld_is(x, "short_expose_ongoing_status_")
                                      or x.kind not in ("op",) and "acas" in pretty(x) and "out" in pretty(x))


def short_(K):
    """the limit of short commits still exposing is the minimum over every session, and only sessions not exposing are moved to the new epoch"""
    def target(x):
        return x.kind == "op" and x.args[0] == "&" and (status(x) or mentions(x, lambda y: y.kind == "u"))

    def at(X, st, e):
        ps = st.ps
        if loc_is(e.loc, "short_expose_ongoing_status_"):
            if e.kind == "aload":
                left(X, st, e)
                ps.update(open=1, free=None)
            elif e.kind in ("acas", "astore", "armw"):
                X.ob()
                if ps.get("free") is not True:
                    X.bad(st, e, "epoch worker: the epoch of a session that may be exposing is moved")
                v = e.val
                if v is not None and v.kind == "op" and v.args[0] == "|":
                    if not (X.const(st, v.args[2]) == 0 or X.const(st, v.args[1]) == 0):
                        X.bad(st, e, "epoch worker: a session is marked as exposing")
                    n = v.args[1] if X.const(st, v.args[2]) == 0 else v.args[2]
                    if not plus1(X, st, n, "global_epoch") and not is_glob(n, "global_epoch") and n.kind != "u":
                        X.bad(st, e, "epoch worker: a session is moved to another epoch than the new one")
                if e.kind != "acas":
                    X.bad(st, e, "epoch worker: the mark of a session is overwritten without looking whether it is exposing now")
                ps["free"] = None
        elif e.kind == "astore" and glob(e.loc, "min_epoch_occ_potentially_write"):
            X.ob()
            left(X, st, e)
            if not ps.get("any"):
                X.bad(st, e, "epoch worker: the limit of short commits is set without looking at the sessions")

    def left(X, st, e):
        if st.ps.get("open"):
            X.ob()
            X.bad(st, e, "epoch worker: a session is left out of the limit of short commits still exposing")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o in ("==", "t") and a.kind == "op" and a.args[0] == "&" and (status(a) or mentions(a, lambda y: y.kind == "u")) and (b is None or b is ZERO):
            ps["free"] = t if o == "==" else not t
        elif o == "<" and target(a) and not glob_min(b) and not t or o == "<" and target(b) and not glob_min(a) and t:
            ps.update(open=0, any=1)

    def glob_min(x):
        return is_glob(x, "min_epoch_occ_potentially_write")

    def wr(X, st, e):
        if e.loc is None or e.val is None:
            return
        v = e.val
        if v.kind == "op" and v.args[0] == "min" and any(target(x) for x in leaves(v)) or target(v) and e.loc.kind == "v" and st.ps.get("open"):
            X.ob()
            st.ps.update(open=0, any=1)
    K.run("C16.short", short_.__doc__, "epoch::epoch_thread_work", minimum=6, nonempty=True, stop=q("switch_epoch get_tx_id epoch::set_cc_safe_ss_epoch"), atomic=at, branch=br,
          anywrite=wr, once=True, merge_block=120, merge_exits=40)


def long_(K):
    """the newest safe snapshot is not beyond any unfinished long transaction nor beyond any committed one it overtook"""
    def val(x):
        return x is not None and (ld_is(x, "valid_epoch_") or is_aload(x) and loc_is(x.args[3], "valid_epoch_"))

    def at(X, st, e):
        ps = st.ps
        if e.kind == "astore" and glob(e.loc, "cc_safe_ss_epoch"):
            X.ob()
            settle(X, st, e)
            v = e.val
            if plus1(X, st, v, "global_epoch"):
                if ps.get("none") is not True:
                    X.bad(st, e, "epoch worker: the safe snapshot follows the epoch though long transactions may be running")
            elif not ps.get("first"):
                X.bad(st, e, "epoch worker: the safe snapshot is set without looking at the running long transactions")
            elif v is not None and v.kind == "op" and v.args[0] not in ("min",):
                X.bad(st, e, "epoch worker: the safe snapshot is not the oldest epoch found")
        elif e.kind == "aload" and loc_is(e.loc, "valid_epoch_"):
            X.ob()
            if not X.eng.held(st, "mtx_"):
                X.bad(st, e, "epoch worker: running transactions are looked at while they may end")

    def settle(X, st, e):
        ps = st.ps
        if ps.get("com") and ps.get("less") is not False and ps.get("hit") is not False:
            X.ob()
            X.bad(st, e, "epoch worker: a committed transaction that was overtaken does not hold the safe snapshot back")
        ps.update(com=None, less=None, hit=None)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if a.kind == "pc" and short(a.args[0]) in ("empty", "size"):
            n = t if short(a.args[0]) == "empty" else None
            if n is None:
                n = (not t) if o == "t" else t if b is ZERO else None
            if "overtaken_ltx_set_" in pretty(a):
                ps["plain"] = n
            elif n is not None:
                ps["none"] = n
        x = a if a is not None else None
        if x is not None and o in ("t", "==") and tup(x, "#2"):
            settle(X, st, e)
            ps["com"] = t if o == "t" else t == bool(b.args[0]) if b.kind == "c" else None
            ps["comx"] = 1
        elif o == "<" and tup(a, "#0"):
            ps["less"] = t
        elif o == "<" and tup(b, "#0"):
            ps["less"] = not t
        elif o == "==" and (a.kind == "it" and b.kind == "it"):
            p = pretty(a) + pretty(b)
            if "find" in p and "end" in p:
                ps["hit"] = not t

    def tup(x, f):
        return x is not None and x.kind in ("ld", "fv") and mentions(x, lambda y: y.kind == "it" and "wp_result_set_" in pretty(y)) and ("." + f in pretty(x) or pretty(x).endswith(f))

    def wr(X, st, e):
        ps = st.ps
        if e.loc is None or e.val is None:
            return
        if e.loc.kind == "v" and (val(e.val) or e.val.kind == "op" and e.val.args[0] == "min" and any(val(x) for x in leaves(e.val))):
            ps["first"] = 1
        if e.loc.kind == "v" and (tup(e.val, "#0") or e.val.kind == "op" and e.val.args[0] == "min" and any(tup(x, "#0") for x in leaves(e.val))):
            if ps.get("less") is True or e.val.kind == "op":
                X.ob()
                ps.update(com=None, less=None, hit=None)
    K.run("C16.long", long_.__doc__, "epoch::epoch_thread_work", minimum=6, nonempty=True, stop=q("switch_epoch get_tx_id epoch::set_min_epoch_occ_potentially_write session::cas_short_expose_ongoing_status"),
          atomic=at, branch=br, anywrite=wr, once=True, merge_block=120, merge_exits=40)


def filter_(K):
    """long transactions are never left out when the safe snapshot is computed"""
    ty = SK + "transaction_options::transaction_type"
    LONG = K.eng.enum(ty, "LONG")
    roots = [i for i in lambdas(K) if K.eng.info(i).fn["file"].endswith("epoch.cpp")]
    if not roots:
        return

    def ex(X, st, v, fn):
        if v is None:
            return
        X.ob()
        for t, c in st.eq.items():
            if ld_is(t, "tx_type_") and c != LONG:
                return
        if any(ld_is(t, "tx_type_") and LONG in cs for t, cs in st.ne.items()):
            return
        r = value(v, LONG)
        if r is not None and not r:
            X.badfn(st, fn, "epoch worker: a long transaction is left out of the computation of the safe snapshot")

    def value(v, ty):
        if v.kind == "c":
            return bool(v.args[0])
        if v.kind == "op" and v.args[0] == "!":
            r = value(v.args[1], ty)
            return None if r is None else not r
        if v.kind == "op" and v.args[0] == "==" and any(mentions(x, lambda y: ld_is(y, "tx_type_") or is_aload(y) and loc_is(y.args[3], "tx_type_")) for x in v.args[1:3]):
            c = [x.args[0] for x in v.args[1:3] if x.kind == "c"]
            return c[0] == ty if c else None
        return None
    K.run("C16.filter", filter_.__doc__, roots, minimum=1, exit=ex)


def lambdas(K):
    return [i for i, f in K.eng.fns.items() if f["kind"] == "lambda"]


def commit(K):
    """a short commit is marked as exposing before it picks its epoch and until its writes and reads are registered, and the mark ends on every path"""
    PUSH = q("point_read_by_short::push range_read_by_short::push")

    def at(X, st, e):
        ps = st.ps
        if loc_is(e.loc, "short_expose_ongoing_status_"):
            if e.kind == "armw":
                X.ob()
                ps["mark"] = 1
            elif e.kind in ("astore", "acas"):
                X.ob()
                if not ps.get("mark"):
                    X.bad(st, e, "short commit: ends a mark it does not hold")
                ps["mark"] = 0
                ps["was"] = 1
        elif e.kind == "aload" and glob(e.loc, "global_epoch") and ps.get("mark"):
            ps["ce"] = tuple(ps.get("ce", ())) + (e.val,)

    def ep(X, st, e):
        v = X.arg(st, e, 0)
        if v is not None and is_glob(v, "global_epoch"):
            X.ob()
            if v not in st.ps.get("ce", ()):
                X.bad(st, e, "short commit: its epoch was read before it was marked as exposing")

    def expose(X, st, e):
        if short(e.name) == "set_tid" and "mrc_tid_" not in pretty(X.arg(st, e, 0)):
            # a placeholder, not a write of this commit
            return
        X.ob()
        if not st.ps.get("mark"):
            X.bad(st, e, "short commit: %s while not marked as exposing" % ("registers a read" if e.name in PUSH else "exposes a write"))

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("mark"):
            X.badfn(st, fn, "short commit: returns while still marked as exposing")
    h = {n: expose for n in PUSH | q("Record::set_tid Record::set_latest Record::set_value")}
    h[SK + "tid_word::set_epoch"] = ep
    stop = (publish.SSTOP - q("session::lock_short_expose_ongoing session::unlock_short_expose_ongoing_and_refresh_epoch epoch::get_global_epoch")) | PUSH
    K.run("C16.commit", commit.__doc__, "short_tx::commit", minimum=20, nonempty=True, once=True, stop=stop, call=h, atomic=at, exit=ex, merge_block=80, merge_exits=30)


def refresh(K):
    """ending the mark of a short commit records the current epoch and no mark; setting it keeps the epoch"""
    def at(X, st, e):
        if not loc_is(e.loc, "short_expose_ongoing_status_") or e.kind == "aload":
            return
        X.ob()
        st.ps["done"] = 1
        v = e.val
        c = [X.const(st, x) for x in v.args[1:3]] if v is not None and v.kind == "op" and v.args[0] == "|" else None
        if X.end:
            if c is None or 0 not in c or not any(is_glob(x, "global_epoch") for x in v.args[1:3]):
                X.bad(st, e, "session: the end of a short commit does not leave the session unmarked at the current epoch")

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("done"):
            X.badfn(st, fn, "session: the mark of a short commit is not changed")
    K.run("C16.refresh", refresh.__doc__, "session::unlock_short_expose_ongoing_and_refresh_epoch", minimum=2, atomic=at, exit=ex, end=True)
    K.run("C16.refresh", refresh.__doc__, "session::lock_short_expose_ongoing", minimum=2, atomic=at, exit=ex, end=False)


def raise_(K):
    """a transaction that looked at all sessions only ever raises the limit of short commits"""
    def at(X, st, e):
        if e.kind in ("acas", "astore") and glob(e.loc, "min_epoch_occ_potentially_write"):
            X.ob()
            if e.kind == "astore":
                X.bad(st, e, "advance_min_epoch_occ_potentially_write: overwrites the limit without comparing")
            elif st.ps.get("lower") is not True:
                X.bad(st, e, "advance_min_epoch_occ_potentially_write: may lower the limit")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "<":
            if is_param(b, 0) and b.kind != "op":
                st.ps["lower"] = t
            elif is_param(a, 0) and a.kind != "op":
                st.ps["lower"] = not t
    K.run("C16.raise", raise_.__doc__, "epoch::advance_min_epoch_occ_potentially_write", minimum=1, atomic=at, branch=br)


def movers(K):
    """only the epoch worker and startup move the epoch and the safe snapshot"""
    ok = {SK + "epoch::epoch_thread_work", SK + "init"}
    n0 = len(K.viol)
    obs = 0
    for name in ("epoch::set_global_epoch", "epoch::set_cc_safe_ss_epoch", "epoch::set_min_epoch_occ_potentially_write"):
        seen, todo = set(), list(K.fns(name))
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            fn = K.eng.info(f).fn
            if fn["n"] in ok:
                continue
            up = [c for c in K.eng.callers(f)]
            up = [u[0] if isinstance(u, tuple) else u for u in up]
            obs += 1
            if not up and f not in K.fns(name):
                K.violation("C16.movers", fn, fn["l"], "%s is moved by %s, which neither the epoch worker nor startup calls" % (name, fn["n"]))
            todo += up
    K.record("C16.movers", movers.__doc__, obs, 3, n0)
