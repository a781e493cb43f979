"""C08: long-transaction validation rejects every order violation before exposing writes."""
from rulekit import *
import ops
import publish

NOTE = ("every path of a long commit up to its first exposed effect: which overtaken results move the order, which reads forbid it and which "
        "writes are rejected; plus the bookkeeping it relies on: who counts as overtaken, the range read, and the newest epoch read")

FWD, RNG = SK + "long_tx::wp_verify_and_forwarding", SK + "long_tx::update_local_read_range"
PEX, REX = SK + "point_read_by_long::is_exist", SK + "range_read_by_long::is_exist"
PAGE = SK + "wp::find_page_set_meta"
EFFECT = q("""Record::set_tid Record::set_latest Record::set_value tid_word::lock version::version session::commit_sequence
point_read_by_long::push range_read_by_long::push ongoing_tx::remove_id session::clean_up lpwal::handler::push_log""")
VER = q("long_tx::version_function_with_optimistic_check long_tx::version_function_without_optimistic_check long_tx::version_traverse_and_read")


def check(K):
    for f in (order, writes, over, range_, before, newest, limit):
        K.part("C08." + f.__name__.rstrip("_"), f)


def place(t):
    """(container field, path of element parts) a value was read from."""
    p = []
    while isinstance(t, Term):
        if t.kind == "ld":
            t = t.args[0]
        elif t.kind in ("f", "fv") and t.args[1].startswith("#"):
            p.append(int(t.args[1][1:]))
            t = t.args[0]
        elif t.kind == "e" and isinstance(t.args[0], Term) and t.args[0].kind == "it":
            c = t.args[0].args[0]
            return (c, tuple(reversed(p)))
        else:
            return (None, ())
    return (None, ())


def at(t, field, *path):
    c, p = place(t)
    return c is not None and p == path and c.kind == "f" and short(c.args[1]) == field


def own(t, f):
    return t is not None and t.kind != "op" and mentions(t, lambda x: ld_is(x, f) or is_aload(x) and loc_is(x.args[3], f)) and place(t)[0] is None


def commit(K, rid, text, minimum, **h):
    """Run a long commit up to its first effect."""
    def abort(X, st, e):
        st.dead = True

    def effect(X, st, e):
        X.ob()
        if not st.ps.get("noread"):
            X.judge(X, st, e)
            for c in X.loops:
                if st.ps.get("end " + c) is False and (st.ps.get("fw") or c != "cont_for_bt_"):
                    X.bad(st, e, "long commit: goes on before all of %s was looked at" % c)
        st.dead = True

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if a.kind == "pc" and short(a.args[0]) in ("empty", "size") and "ltx_storage_read_set_" in pretty(a):
            none = t if short(a.args[0]) == "empty" else not t if o == "t" else t if o == "==" and b is ZERO else None
            if none:
                st.ps["noread"] = 1
        if o == "==" and b is not None:
            for x in (a, b):
                if x.kind == "it" and x.args[1] == "end" and x.args[0].kind == "f":
                    c = short(x.args[0].args[1])
                    if c in X.loops and (t or not st.ps.get("pt")):
                        st.ps["end " + c] = t or st.ps.get("end " + c, False)
        X.seen(X, st, e, o, a, b, t)
    call = {n: effect for n in EFFECT}
    call[SK + "long_tx::abort"] = abort
    call.update(h.pop("call", {}))
    stop = (publish.LSTOP | EFFECT | q("read_plan::add_elem session::extract_wait_for get_tx_id bg_work::bg_commit::register_tx")) - q("long_tx::verify Record::get_key")
    K.run(rid, text, "long_tx::commit", minimum=minimum, nonempty=True, once=True, stop=stop | {PEX, REX}, call=call, branch=br, merge_block=400, merge_exits=300, **h)


def order(K):
    """a long transaction that overtook and read under a committed older one takes an order before it, or fails if it read too much for that"""
    INF = K.eng.enum(SK + "scan_endpoint", "INF")

    def seen(X, st, e, o, a, b, t):
        ps = st.ps
        if o == "==" and a.kind == "c":
            a, b = b, a
        R, O = "wp_result_set_", "overtaken_ltx_set_"
        truth = t if o == "t" else t == bool(b.args[0]) if o == "==" and b.kind == "c" else None
        if at(a, R, 2) and truth is not None:
            X.ob()
            ps["com"] = truth
        elif at(a, R, 3, 0) and truth is not None:
            ps["wrote"] = truth
        elif o == "==" and "it" in (a.kind, b.kind):
            for x, y in ((a, b), (b, a)):
                if x.kind == "it" and isinstance(x.args[1], tuple) and x.args[1][0] == "find" and at(x.args[1][1], R, 1):
                    ps["mem"] = not t
        elif a.kind == "pc" and short(a.args[0]) in ("count", "contains") and mentions(a, lambda x: at(x, R, 1)):
            ps["mem"] = t if o == "t" else not t if b is ZERO else None
        elif o == "<" and at(a, O, 1, 1, 2) and at(b, R, 3, 1):
            ps["rl"] = t
        elif o == "<" and at(b, O, 1, 1, 0) and at(a, R, 3, 2):
            ps["wl"] = t
        elif o == "==" and b.kind == "c" and at(a, O, 1, 1, 3):
            ps["ri"] = t if b.args[0] == INF else False if t else ps.get("ri")
        elif o == "==" and b.kind == "c" and at(a, O, 1, 1, 1):
            ps["li"] = t if b.args[0] == INF else False if t else ps.get("li")
        elif o == "<" and at(a, R, 0) and own(b, "valid_epoch_"):
            ps["lt"] = t
        elif o == "<" and at(b, R, 0) and own(a, "valid_epoch_"):
            ps["lt"] = not t
        elif o == "<" and at(b, R, 0) and own(a, "read_version_max_epoch_"):
            ps["up"] = not t

    def wr(X, st, e):
        if e.loc is None:
            return
        if loc_is(e.loc, "is_forwarding_"):
            st.ps["fw"] = X.const(st, e.val)
        elif loc_is(e.loc, "valid_epoch_"):
            X.ob()
            if at(e.val, "wp_result_set_", 0):
                if st.ps.get("lt") is not True:
                    X.bad(st, e, "long commit: takes the order of a result without it being older than its own")
                if st.ps.get("up") is not False:
                    X.bad(st, e, "long commit: takes an older order without checking that all it read is older still")
                st.ps["ve"] = 1

    def judge(X, st, e):
        ps = st.ps
        if ps.get("com") is False or ps.get("mem") is False or ps.get("wrote") is False:
            return
        if ps.get("rl") is True and ps.get("ri") is False or ps.get("wl") is True and ps.get("li") is False:
            return
        if ps.get("fw") != 1:
            X.bad(st, e, "long commit: goes on without moving its order though it read under a committed older transaction it overtook")
        elif ps.get("lt") is None:
            X.bad(st, e, "long commit: goes on without comparing its order with the overtaken transaction's")
        elif ps.get("lt") and not ps.get("ve"):
            X.bad(st, e, "long commit: goes on without taking the order of the overtaken transaction")
    commit(K, "C08.order", order.__doc__, 20, seen=seen, judge=judge, anywrite=wr, loops=("overtaken_ltx_set_", "wp_result_set_"))


def writes(K):
    """a long transaction moved backward exposes a write only if no committed read and no existence of the key speaks against it"""
    INS, UPS, UPD, DEL = (K.OP(n) for n in ("INSERT", "UPSERT", "UPDATE", "DELETE"))
    W = "cont_for_bt_"
    ALL = frozenset((INS, UPS, UPD, DEL))

    def wsrec(t):
        return in_container(t, W)

    def seen(X, st, e, o, a, b, t):
        ps = st.ps
        if o == "==" and a.kind == "c":
            a, b = b, a
        truth = t if o == "t" else t == bool(b.args[0]) if o == "==" and b.kind == "c" else None
        if ld_is(a, "op_") and wsrec(a) and o == "==" and b.kind == "c":
            ps["ops"] = ps.get("ops", ALL) & {b.args[0]} if t else ps.get("ops", ALL) - {b.args[0]}
        elif ld_is(a, "is_forwarding_") and truth is not None:
            ps["fw"] = int(truth)
        elif (is_result(a, PEX) or is_result(a, REX)) and truth is not None:
            X.ob()
            ps["pt" if is_result(a, PEX) else "rg"] = not truth
        elif o == "<":
            for x, y, strict in ((a, b, True), (b, a, False)):
                if is_aload(x) and loc_is(x.args[3], "max_epoch_") and (own(y, "valid_epoch_") or y is ps.get("ve")):
                    X.ob()
                    k = "ps" if wsrec(x) else "rs"
                    if strict:
                        ps[k] = t
        for f in ("latest_", "absent_"):
            s = field_of(a, f)
            if s is not None and truth is not None and wsrec(s):
                ps[f] = truth
                if ps.get("latest_") and ps.get("absent_") is not None:
                    ps["gone" if ps["absent_"] else "there"] = 1

    def wr(X, st, e):
        if e.loc is None:
            return
        if loc_is(e.loc, "is_forwarding_"):
            st.ps["fw"] = X.const(st, e.val)
        elif loc_is(e.loc, "valid_epoch_"):
            st.ps["ve"] = e.val
            for k in ("pt", "ps", "rg", "rs"):
                if st.ps.pop(k, None):
                    X.bad(st, e, "long commit: moves its order after its writes were checked")

    def rex(X, st, e):
        ps = st.ps
        v = X.arg(st, e, 0)
        if v is not None and v.kind != "u" and v is not ps.get("ve") and not own(v, "valid_epoch_"):
            X.bad(st, e, "long commit: looks for range reads with another epoch than its own")
        k = X.arg(st, e, 2)
        if k is not None and k.kind != "u" and not wsrec(k):
            X.bad(st, e, "long commit: looks for range reads of another key than the one written")

    def pex(X, st, e):
        r = e.recv[1]
        if r is not None and r.kind != "u" and not wsrec(r):
            X.bad(st, e, "long commit: looks for reads of another record than the one written")

    def judge(X, st, e):
        ps = st.ps
        if not ps.get("fw"):
            if ps.get("fw") is None:
                X.bad(st, e, "long commit: goes on without asking whether its order was moved")
            return
        have = ps.get("ops", ALL)
        if ps.get("pt") is not True:
            X.bad(st, e, "long commit: a write goes on without looking for reads of the record by committed long transactions")
        if ps.get("ps") is not True:
            X.bad(st, e, "long commit: a write goes on without looking for reads of the record by committed short transactions")
        for k, m in (("rg", "long"), ("rs", "short")):
            for op, n in ((INS, "an insert"), (UPS, "an upsert"), (DEL, "a delete")):
                if op in have and ps.get(k) is not True:
                    X.bad(st, e, "long commit: %s goes on without looking for range reads by committed %s transactions" % (n, m))
        if INS in have and not ps.get("gone"):
            X.bad(st, e, "long commit: an insert goes on though the key may exist")
        for op, n in ((UPD, "an update"), (DEL, "a delete")):
            if op in have and not ps.get("there"):
                X.bad(st, e, "long commit: %s goes on though the key may be missing" % n)
    commit(K, "C08.writes", writes.__doc__, 20, seen=seen, judge=judge, anywrite=wr, loops=("cont_for_bt_",), call={PEX: pex, REX: rex})


def over(K):
    """every unfinished older long transaction with a write preserve on the storage, and every committed one of the same epoch, counts as overtaken"""
    R = "wp_result_set_"

    def isown(t):
        return t is not None and t.kind != "op" and mentions(t, lambda x: ld_is(x, "long_tx_id_"))

    def wp(t):
        c, p = place(t)
        return c is not None and p == (1,) and not (c.kind == "f" and short(c.args[1]) == R)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        truth = t if o == "t" else (not t if b is ZERO else None) if o == "==" else None
        if wp(a) and truth is not None:
            ps["some"] = truth
        elif o == "<" and wp(a) and isown(b):
            X.ob()
            ps["older"] = t
        elif o == "<" and wp(b) and isown(a):
            ps["older"] = False if t else ps.get("older")
        elif at(a, R, 2):
            ps["com"] = t if o == "t" else not t
        elif o == "<" and at(a, R, 1) and isown(b):
            X.ob()
            ps["rold"] = t
        elif o == "<" and at(b, R, 1) and isown(a):
            ps["rold"] = False if t else ps.get("rold")
        elif o == "==" and (at(a, R, 0) and own(b, "valid_epoch_") or at(b, R, 0) and own(a, "valid_epoch_")):
            ps["same"] = t
        elif o == "<" and at(a, R, 0) and own(b, "valid_epoch_"):
            ps["same"] = False if t else ps.get("same")

    def call(X, st, e):
        if short(e.name) not in ("insert", "emplace", "emplace_hint") or e.recv is None or e.recv[1] is None:
            return
        if "overtaken_ltx_set_" not in pretty(e.recv[1]) and not mentions(e.recv[1], lambda x: x.kind == "f" and short(x.args[1]) == "overtaken_ltx_set_"):
            return
        v = X.arg(st, e, 0)
        X.ob()
        if v is None or v.kind == "u":
            return
        if wp(v):
            st.ps["live"] = 1
        elif at(v, R, 1):
            st.ps["res"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        if ps.get("some") is not False and ps.get("older") is not False and not ps.get("live"):
            X.badfn(st, fn, "overtaking: an unfinished older transaction with a write preserve on the storage is passed over")
        if ps.get("com") is not False and ps.get("rold") is not False and ps.get("same") is not False and not ps.get("res"):
            X.badfn(st, fn, "overtaking: a committed older transaction of the same epoch is passed over")
    K.run("C08.over", over.__doc__, "wp::extract_higher_priori_ltx_info", minimum=8, nonempty=True, once=True, branch=br, anycall=call, exit=ex, merge_block=300, merge_exits=100)

    # a read asks with the write preserves of its own storage
    def ext(X, st, e):
        X.ob()
        w = X.arg(st, e, 2)
        if w is not None and w.kind != "u" and not mentions(w, lambda x: is_result(x, SK + "wp::wp_meta::get_wped")):
            X.bad(st, e, "overtaking: asks with something else than the storage's write preserves")
        st.ps["ask"] = 1

    def ex2(X, st, v, fn):
        X.ob()
        if not st.ps.get("ask"):
            X.badfn(st, fn, "overtaking: a read does not look for older transactions")
    K.run("C08.over", over.__doc__, "long_tx::wp_verify_and_forwarding", minimum=4, stop=q("wp::extract_higher_priori_ltx_info wp::wp_meta::get_wped"),
          call={SK + "wp::extract_higher_priori_ltx_info": ext}, exit=ex2)


def range_(K):
    """the range remembered for a storage covers everything read, and never shrinks"""
    INF = K.eng.enum(SK + "scan_endpoint", "INF")

    def slot(loc):
        """Which part of the remembered range is it?"""
        if loc is not None and loc.kind == "f" and loc.args[1].startswith("#") and loc.args[0].kind == "f" and loc.args[0].args[1] == "#1":
            return int(loc.args[1][1:])
        return None

    def sl(t):
        return slot(t.args[0]) if t is not None and t.kind == "ld" else None

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        truth = t if o == "t" else t == bool(b.args[0]) if o == "==" and b.kind == "c" else None
        if o == "==" and a.kind == "c":
            a, b = b, a
        if sl(a) == 4 and truth is not None:
            ps["init"] = truth
        elif a.kind == "pc" and short(a.args[0]) == "empty" and truth:
            ps["init"] = False
        elif o == "<" and is_param(a, X.lk) and sl(b) == 0:
            X.ob()
            ps["lt"] = t
        elif o == "<" and sl(a) == 0 and is_param(b, X.lk):
            ps["lt"] = False if t else ps.get("lt")
        elif X.rk is not None and o == "<" and sl(a) == 2 and is_param(b, X.rk):
            X.ob()
            ps["gt"] = t
        elif X.rk is not None and o == "<" and sl(b) == 2 and is_param(a, X.rk):
            ps["gt"] = False if t else ps.get("gt")
        elif o == "==" and b.kind == "c":
            for k, i, p in (("l", 1, X.le), ("r", 3, X.re)):
                yes = t if b.args[0] == INF else False if t else None
                if sl(a) == i and yes is not None:
                    ps[k + "old"] = yes
                elif p is not None and is_param(a, p) and yes is not None:
                    ps[k + "inf"] = yes

    def put(X, st, i, v, e):
        ps = st.ps
        if i in (0, 2):
            k, c = (X.lk, "lt") if i == 0 else (X.rk, "gt")
            X.ob()
            if v is not None and v.kind != "u" and not (k is not None and is_param(v, k)):
                X.bad(st, e, "range read: an end becomes something else than what was read")
            elif ps.get("init") is not False and ps.get(c) is not True:
                X.bad(st, e, "range read: an end is moved without the new one being further out")
            ps["w%d" % i] = 1
        elif i in (1, 3):
            X.ob()
            k = "l" if i == 1 else "r"
            c = X.const(st, v)
            inf = c == INF if c is not None else ps.get(k + "inf")
            if ps.get("init") is not False and inf is not True and ps.get(k + "old") is not False:
                X.bad(st, e, "range read: an end that may be infinite becomes finite")
            p = X.le if i == 1 else X.re
            if p is not None and (is_param(v, p) or inf is True):
                ps["w%d" % i] = 1
        elif i == 4 and X.const(st, v) == 1:
            ps["w4"] = 1

    def wr(X, st, e):
        i = slot(e.loc)
        if i is not None:
            put(X, st, i, e.val, e)

    def call(X, st, e):
        if short(e.name) in ("operator=", "assign") and e.recv is not None:
            i = slot(e.recv[1])
            if i is not None:
                put(X, st, i, X.arg(st, e, 0), e)
        if short(e.name) in ("insert", "emplace"):
            st.ps["hit"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        if X.hit and not ps.get("hit"):
            return
        X.ob()
        fresh = ps.get("init") is False
        if not ps.get("w0") and not (not fresh and ps.get("lt") is False) and not (X.point and ps.get("gt") is True):
            X.badfn(st, fn, "range read: the left end does not cover what was read")
        if X.rk is not None and not ps.get("w2") and not (not fresh and ps.get("gt") is False) and not (X.point and ps.get("lt") is True and not fresh):
            X.badfn(st, fn, "range read: the right end does not cover what was read")
        for k, i, p in (("l", 1, X.le), ("r", 3, X.re)):
            if p is not None and not ps.get("w%d" % i) and (fresh or ps.get(k + "inf") is not False):
                X.badfn(st, fn, "range read: an infinite end is not remembered")
        if fresh and not ps.get("w4"):
            X.badfn(st, fn, "range read: a first range is not marked as there")
    n = 0
    for fid in K.fns("long_tx::update_local_read_range"):
        ps = K.eng.fns[fid]["params"]
        full, ends = len(ps) == 6, len(ps) >= 4
        n += 1
        K.run("C08.range", range_.__doc__, [fid], minimum=4, branch=br, anywrite=wr, anycall=call, exit=ex, lk=2, le=3 if ends else None,
              rk=4 if full else None if ends else 2, re=5 if full else None, point=not ends, hit=False, merge_block=200)
    for fid in K.fns("wp::extract_higher_priori_ltx_info", 4):
        K.run("C08.range", range_.__doc__, [fid], minimum=4, nonempty=True, once=True, branch=br, anywrite=wr, anycall=call, exit=ex, lk=3, le=None, rk=3, re=None,
              point=True, hit=True, merge_block=300, merge_exits=100)


def before(K):
    """a long transaction notes which transactions it overtakes before it looks at data, and the range it looked at before it answers"""
    W = ops.Watch(K)
    OKV, NF, LIMIT = K.S("OK"), K.S("WARN_NOT_FOUND"), K.S("WARN_SCAN_LIMIT")

    def br(X, st, e):
        W.branch(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        if X.root == "open_scan" and a.kind == "p" and a.args[0] == 8:
            st.ps["rtl"] = t if o == "t" else t == bool(b.args[0])

    def long_(st):
        return W.types(st) == {W.LONG}

    def fwd(X, st, e):
        X.ob()
        st.ps["fwd"] = 1
        if len(e.args) > 2 and X.key is not None and not is_param(X.arg(st, e, 2), X.key):
            X.bad(st, e, "%s: looks for overtaken transactions with another key" % X.root)

    def rng(X, st, e):
        X.ob()
        st.ps["rng"] = max(len(e.args), st.ps.get("rng", 0))
        if X.root == "open_scan":
            for i, p in ((2, 2), (3, 3), (4, 4), (5, 5)):
                v = X.arg(st, e, i) if i < len(e.args) else None
                if v is not None and v.kind != "u" and not is_param(v, p):
                    X.bad(st, e, "open_scan: remembers another range than the one asked for")
        elif X.key is not None and not is_param(X.arg(st, e, 2), X.key):
            X.bad(st, e, "%s: remembers another key than the one asked for" % X.root)

    def look(X, st, e):
        if W.types(st) - {W.LONG} and X.root != "x":
            if not long_(st):
                return
        X.ob()
        if not st.ps.get("fwd"):
            X.bad(st, e, "%s (LTX): looks at data before noting which older transactions it overtakes" % X.root)

    def ex(X, st, v, fn):
        if not long_(st) or not X.needs:
            return
        ok, nf = X.outcome(st, v, OKV) == "ok", X.outcome(st, v, NF) == "ok"
        X.ob()
        if not (ok or nf):
            return
        n = st.ps.get("rng", 0)
        if not n:
            if X.root == "open_scan" and not st.ps.get("fwd"):
                return
            X.badfn(st, fn, "%s (LTX): answers without remembering the range it looked at" % X.root)
        elif X.root == "open_scan" and n < 6 and (nf or st.ps.get("rtl") is not False):
            X.badfn(st, fn, "open_scan (LTX): remembers only a part of the range it looked at")
    LOOK = q("get scan iscan_open long_tx::version_traverse_and_read long_tx::version_function_with_optimistic_check") | {"yakushima::iscan_open"}
    h = {n: look for n in LOOK}
    h.update({FWD: fwd, RNG: rng})
    for r in ops.READS:
        K.run("C08.before", before.__doc__, r, minimum=4, stop=ops.STOP, start=lambda X, st: None, call=h, branch=br, exit=ex, root=r, needs=True,
              key=None if r == "open_scan" else 2, merge_block=200, merge_exits=60)
    for r in ("read_value_from_scan", "read_key_from_scan"):
        K.run("C08.before", before.__doc__, r, minimum=2, stop=ops.STOP, call={RNG: rng}, branch=br, exit=ex, root=r, needs=True, key=None, merge_block=200, merge_exits=60)
    for r in ops.WRITES:
        if r != "upsert":
            K.run("C08.before", before.__doc__, r, minimum=2, stop=ops.STOP, call=h, branch=br, exit=ex, root=r, needs=False, key=2, merge_block=200, merge_exits=60)


def newest(K):
    """the newest epoch a long transaction read is remembered with every version it read, deletions included"""
    OKV, NF = K.S("OK"), K.S("WARN_NOT_FOUND")
    LONG = K.eng.enum(SK + "transaction_options::transaction_type", "LONG")
    SEARCH = SK + "local_write_set::search"

    def mx(t):
        return t is not None and (ld_is(t, "read_version_max_epoch_") or is_aload(t) and loc_is(t.args[3], "read_version_max_epoch_"))

    def snap(t):
        return t is not None and mentions(t, lambda x: ld_is(x, "valid_epoch_") or is_aload(x) and loc_is(x.args[3], "valid_epoch_"))

    def ep(t):
        s = field_of(t, "epoch_")
        return s if s is not None else None

    def start(X, st):
        st.ps["alive"] = 1

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==" and a.kind == "c":
            a, b = b, a
        if ld_is(a, "tx_type_") and o == "==" and b.kind == "c" and t != (b.args[0] == LONG):
            ps.pop("alive", None)
        if is_result(a, SEARCH):
            yes = t if o == "t" else not t if b is ZERO else None
            if yes:
                ps["own"] = 1
        if o == "<":
            if ep(a) is not None and snap(b):
                ps["vis"] = t
                ps.pop("max", None)
            elif mx(a) and ep(b) is not None:
                X.ob()
                if not t:
                    ps["max"] = 1
            elif mx(b) and ep(a) is not None and t:
                ps["max"] = 1
        if a.kind == "r" and a.args[0] == "acas" and ps.get("cas"):
            ok = t if o == "t" else t == bool(b.args[0]) if o == "==" and b.kind == "c" else None
            if ok:
                ps["max"] = 1

    def atm(X, st, e):
        if not loc_is(e.loc, "read_version_max_epoch_"):
            return
        if e.kind == "acas":
            X.ob()
            st.ps["cas"] = 1
            v = X.raised(X, st, e)
            if v is not None and v.kind != "u" and ep(v) is None:
                X.bad(st, e, "%s: raises the newest epoch read to something else than the epoch of the version" % X.root)
        elif e.kind == "astore":
            st.ps["max"] = 1

    def raised(X, st, e):
        return e.val

    def ex(X, st, v, fn):
        ps = st.ps
        if "alive" not in ps or ps.get("own") or ps.get("vis") is not True:
            return
        if X.outcome(st, v, OKV) == "ok" or X.outcome(st, v, NF) == "ok":
            X.ob()
            if not ps.get("max"):
                X.badfn(st, fn, "%s (LTX): answers from a version without remembering its epoch as read" % X.root)
    for r in ("search_key", "exist_key", "read_value_from_scan", "read_key_from_scan"):
        K.run("C08.newest", newest.__doc__, r, minimum=6, stop=ops.STOP - VER, start=start, branch=br, atomic=atm, exit=ex, root=r, raised=raised, merge_block=300, merge_exits=100)


def limit(K):
    """a long scan that reached its end remembers the right end it asked for as read"""
    LIMIT = K.S("WARN_SCAN_LIMIT")
    LONG = K.eng.enum(SK + "transaction_options::transaction_type", "LONG")
    INF = K.eng.enum(SK + "scan_endpoint", "INF")

    def start(X, st):
        st.ps["alive"] = 1

    def slot(loc):
        if loc is not None and loc.kind == "f" and loc.args[1].startswith("#") and loc.args[0].kind == "f" and loc.args[0].args[1] == "#1":
            return int(loc.args[1][1:])
        return None

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==" and a.kind == "c":
            a, b = b, a
        if ld_is(a, "tx_type_") and o == "==" and b.kind == "c" and t != (b.args[0] == LONG):
            ps.pop("alive", None)
        if is_result(a, SK + "wp::find_wp_meta") and o == "==" and b.kind == "c" and t != (b.args[0] == K.S("OK")):
            ps.pop("alive", None)
        if o == "<" and ld_is(b, "max_size_") and not t:
            # stopped by the number of records asked for
            ps.pop("alive", None)
        if o == "<" and a.kind == "ld" and slot(a.args[0]) == 2 and mentions(b, lambda x: x.kind == "f" and short(x.args[1]) == "r_key_"):
            X.ob()
            ps["gt"] = t
        elif o == "==" and b.kind == "c" and mentions(a, lambda x: x.kind == "f" and short(x.args[1]) == "r_end_"):
            ps["inf"] = t if b.args[0] == INF else False if t else None

    def put(X, st, i, v):
        if i == 2 and mentions(v, lambda x: x.kind == "f" and short(x.args[1]) == "r_key_"):
            st.ps["key"] = 1
        elif i == 3 and (X.const(st, v) == INF or v is not None and mentions(v, lambda x: x.kind == "f" and short(x.args[1]) == "r_end_") and st.ps.get("inf")):
            st.ps["end"] = 1

    def wr(X, st, e):
        i = slot(e.loc)
        if i is not None and e.val is not None:
            put(X, st, i, e.val)

    def call(X, st, e):
        if short(e.name) in ("operator=", "assign") and e.recv is not None and slot(e.recv[1]) is not None:
            put(X, st, slot(e.recv[1]), X.arg(st, e, 0))

    def rng(X, st, e):
        if len(e.args) >= 6 and mentions(X.arg(st, e, 4), lambda x: x.kind == "f" and short(x.args[1]) == "r_key_"):
            st.ps["key"] = st.ps["end"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        if "alive" not in ps or X.outcome(st, v, LIMIT) != "ok":
            return
        X.ob()
        if not ps.get("key") and ps.get("gt") is not False:
            X.badfn(st, fn, "next (LTX): the end of a scan is reached without remembering the right end as read")
        elif not ps.get("end") and ps.get("inf") is not False:
            X.badfn(st, fn, "next (LTX): the end of a scan without limit is reached without remembering that")
    K.run("C08.limit", limit.__doc__, "next", minimum=4, stop=ops.STOP, start=start, branch=br, anywrite=wr, anycall=call, call={RNG: rng}, exit=ex, merge_block=300, merge_exits=100)
