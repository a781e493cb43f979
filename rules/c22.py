"""C22: scans cover the requested range and refuse handles that are not theirs."""
from rulekit import *
import ops

NOTE = ("the decision which bounds are empty, in full; what reaches the index when a scan is opened; every use of a scan handle in the five operations that take "
        "one; how a cursor advances and when it reports the end; which record reading takes. Which records are visible is decided by C05 and C26")
ASSUMPTIONS = ["yakushima returns every entry of the range it is given once and in order", "a handle that is not null designates a scan of some session that is still open"]
STOP = (ops.STOP | q("""check_empty_scan_range node_set::emplace_back long_tx::update_local_read_range long_tx::wp_verify_and_forwarding wp::find_wp
wp::wp_meta::find_min_ep session::find_high_priority_short long_tx::check_read_area long_tx::abort short_tx::abort""")) - q("""scan iscan_open
scan_handler::check_valid_scan_handle scan_handler::create_scan_cache scan_handler::create_scan_context""")
EMPTY = SK + "check_empty_scan_range"
USERS = "next close_scan read_key_from_scan read_value_from_scan scannable_total_index_size"


def check(K):
    for f in (empty, opens, handle, owner, step, reads):
        K.part("C22." + f.__name__, f)


def empty(K):
    """a range is empty exactly when no key can lie between its bounds"""
    E = "shirakami::scan_endpoint"
    EX, IN, INF = (K.eng.enum(E, n) for n in ("EXCLUSIVE", "INCLUSIVE", "INF"))
    OK, NF = K.S("OK"), K.S("WARN_NOT_FOUND")

    def sem(t, a):
        if t.kind == "p":
            return {1: a["le"], 3: a["re"]}.get(t.args[0])
        if t.kind in ("pc", "r", "u", "op") and "empty" in pretty(t)[:6]:
            return a["rz"] if "r_key" in pretty(t) or is_param(t, 2) else a["lz"]
        if t.kind in ("pc", "r") and "compare" in pretty(t)[:9]:
            return a["cmp"] if is_param(t.args[1] if isinstance(t.args[1], Term) else t, 0) else None
        if t.kind == "op" and t.args[0] in ("<", "==") and all(isinstance(x, Term) and (is_param(x, 0) or is_param(x, 2)) for x in t.args[1:]):
            x, y = t.args[1:]
            c = a["cmp"] if is_param(x, 0) else -a["cmp"]
            return int(c < 0) if t.args[0] == "<" else int(c == 0)
        return None

    def spec(a):
        if a["rz"] and a["cmp"] < 0 or a["rz"] and a["lz"] != (a["cmp"] == 0) or a["lz"] and a["cmp"] > 0:
            return None
        if a["lz"] and not a["rz"] and a["cmp"] != -1:
            return None
        if a["re"] == INF:
            return OK
        if a["le"] == INF:
            return NF if a["re"] == EX and a["rz"] else OK
        if a["cmp"]:
            return OK if a["cmp"] < 0 else NF
        return OK if a["le"] == IN and a["re"] == IN else NF
    dom = {"le": (EX, IN, INF), "re": (EX, IN, INF), "cmp": (-1, 0, 1), "lz": (0, 1), "rz": (0, 1)}
    K.table("C22.empty", empty.__doc__, lambda: K.fns("check_empty_scan_range")[0], dom, sem, spec)


def opens(K):
    """the index is searched only for a range that is not empty, with exactly the bounds, limit and direction asked for, and an empty range is reported as such"""
    OK, NF = K.S("OK"), K.S("WARN_NOT_FOUND")

    def em(X, st, e):
        for i, p in enumerate((2, 3, 4, 5)):
            if not is_param(X.arg(st, e, i), p):
                X.bad(st, e, "another range than the one asked for is tested for being empty")
        st.ps["asked"] = 1

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if is_result(a, EMPTY) and o == "==":
            c = X.const(st, b)
            if c == OK:
                st.ps["full"] = t
            elif c == NF and t:
                st.ps["full"] = False
        for i in (3, 5):
            if a.kind == "p" and a.args[0] == i and o == "==" and t:
                st.ps["end%d" % i] = X.const(st, b)

    def idx(X, st, e):
        if e.name not in ("yakushima::scan", "yakushima::iscan_open"):
            return
        X.ob()
        ps = st.ps
        if ps.get("full") is not True:
            X.bad(st, e, "the index is searched for a range that may be empty")
        for i, p, w in ((1, 2, "left key"), (3, 4, "right key")):
            v = X.arg(st, e, i)
            if v.kind != "u" and not is_param(v, p):
                X.bad(st, e, "the index is searched with another %s" % w)
        if e.name == "yakushima::scan":
            if len(e.args) > 8:
                v, d = X.arg(st, e, 7), X.arg(st, e, 8)
                if v.kind != "u" and not is_param(v, 7):
                    X.bad(st, e, "the index is searched with another limit")
                if d.kind != "u" and not is_param(d, 8):
                    X.bad(st, e, "the index is searched in another direction")
        elif len(e.args) > 5:
            d = X.arg(st, e, 5)
            if d.kind != "u" and not is_param(d, 8):
                X.bad(st, e, "the index is searched in another direction")
        for i, p, w in ((2, 3, "left"), (4, 5, "right")):
            v = X.arg(st, e, i)
            c, k = X.const(st, v), ps.get("end%d" % p)
            if c is not None:
                if yname(K, c) != ename(K, k):
                    X.bad(st, e, "the index is searched with another kind of %s end" % w)

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("full") is False and X.const(st, v) == OK:
            X.badfn(st, fn, "a scan of an empty range is opened")
    K.run("C22.opens", opens.__doc__, "open_scan", minimum=6, stop=STOP, call={EMPTY: em}, branch=br, anycall=idx, exit=ex, merge_block=200, merge_exits=100)


def ename(K, v):
    return next((n for n in ("EXCLUSIVE", "INCLUSIVE", "INF") if K.eng.enum("shirakami::scan_endpoint", n) == v), None)


def yname(K, v):
    return {0: "EXCLUSIVE", 1: "INCLUSIVE", 2: "INF"}.get(v)


def handle(K):
    """nothing behind a scan handle is looked at before it is known to be set and to belong to this session; any other handle is refused as invalid"""
    OK, INV, NB = K.S("OK"), K.S("WARN_INVALID_HANDLE"), K.S("WARN_NOT_BEGIN")

    def behind(loc):
        """a location behind the handle"""
        while loc is not None and loc.kind in ("f", "d", "ld"):
            if loc.kind == "d" and loc.args[0].kind == "p" and loc.args[0].args[0] == 1:
                return True
            loc = loc.args[0]
        return False

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        if a.kind == "p" and a.args[0] == 1 or b is not None and b.kind == "p" and b.args[0] == 1:
            if o == "t" or X.const(st, b) == 0 or X.const(st, a) == 0:
                ps["set" if t != (o == "==") else "null"] = 1
        elif o == "==" and any(x is not None and has(x, "parent_") for x in (a, b)):
            if not ps.get("set"):
                X.bad(st, e, "%s: looks behind a handle that may be null" % X.root)
            ps["own" if t else "foreign"] = 1
        elif o == "==" and a.kind == "it" and (has(a, "allocated_") or has(a, "allocated_i_")):
            ps["foreign" if t else "own"] = 1
            if not t:
                ps["set"] = 1

    def anyc(X, st, e):
        if e.recv and behind(e.recv[1]) and short(e.name) != "get_parent":
            X.ob()
            if not st.ps.get("own"):
                X.bad(st, e, "%s: uses a handle that may be null or belong to another session" % X.root)

    def wr(X, st, e):
        if behind(e.loc):
            X.ob()
            if not st.ps.get("own"):
                X.bad(st, e, "%s: changes a scan that may belong to another session" % X.root)

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        if (ps.get("null") or ps.get("foreign")) and c not in (INV, None):
            X.badfn(st, fn, "%s: a handle that is null or of another session is not refused as invalid" % X.root)
        if c == INV and not (ps.get("null") or ps.get("foreign")):
            X.badfn(st, fn, "%s: a valid handle is refused" % X.root)
        if c == OK and not ps.get("own"):
            X.badfn(st, fn, "%s: succeeds without having tested the handle" % X.root)
    for r in USERS.split():
        K.run("C22.handle." + r, handle.__doc__, r, minimum=4, stop=STOP - q("scan_handler::delete_scan_cache scan_handler::delete_scan_context"), branch=br,
              anycall=anyc, anywrite=wr, exit=ex, root=r, merge_block=200, merge_exits=60)


def has(t, word):
    return t is not None and any(x.kind == "f" and short(x.args[1]) == word or x.kind == "g" and short(str(x.args[0])) == word for x in subterms(t))


def owner(K):
    """a new scan belongs to the session that opened it and is kept by it, under the lock of the set of scans, and closing takes away exactly the scan named"""
    for fn in ("scan_handler::create_scan_cache", "scan_handler::create_scan_context"):
        def wr(X, st, e):
            if e.loc.kind == "f" and short(e.loc.args[1]) == "parent_":
                X.ob()
                if pretty(e.val) == "this" or "this" in pretty(e.val):
                    st.ps["par"] = 1
                else:
                    st.ps.pop("par", None)

        def anyc(X, st, e):
            if e.recv and e.name.startswith("std::") and short(e.name) in ("insert", "emplace") and (has(e.recv[1], "allocated_") or has(e.recv[1], "allocated_i_")):
                X.ob()
                st.ps["kept"] = 1
                if not X.eng.held(st, "mtx_allocated_"):
                    X.bad(st, e, "a scan is added to the open ones without their lock")

        def ex(X, st, v, f):
            X.ob()
            if X.const(st, v) == 0:
                return
            if not st.ps.get("par"):
                X.badfn(st, f, "a new scan does not know the session it belongs to")
            if not st.ps.get("kept"):
                X.badfn(st, f, "a new scan is not kept by its session")
        K.run("C22." + fn[fn.index("create"):], owner.__doc__, fn, minimum=2, anywrite=wr, anycall=anyc, exit=ex)
    OK = K.S("OK")
    for fn in ("scan_handler::delete_scan_cache", "scan_handler::delete_scan_context"):
        def br(X, st, e):
            o, a, b, t = atom(e.val, e.extra)
            if o == "==" and a.kind == "it" and (has(a, "allocated_") or has(a, "allocated_i_")):
                st.ps["found"] = not t

        def anyd(X, st, e):
            if e.recv and e.name.startswith("std::") and short(e.name) in ("erase", "clear") and (has(e.recv[1], "allocated_") or has(e.recv[1], "allocated_i_")):
                X.ob()
                st.ps["gone"] = 1
                if not X.eng.held(st, "mtx_allocated_"):
                    X.bad(st, e, "a scan is removed from the open ones without their lock")
                v = X.arg(st, e, 0) if e.args else None
                if v is None:
                    X.bad(st, e, "closing one scan closes all of them")
                elif v.kind == "it":
                    g = v.args[1]
                    if not st.ps.get("found"):
                        X.bad(st, e, "a scan is closed that was not found among the open ones")
                    if not (isinstance(g, tuple) and g[0] == "find" and is_param(g[1], 0)):
                        X.bad(st, e, "another scan than the one named is closed")

        def exd(X, st, v, f):
            X.ob()
            if X.const(st, v) == OK and not st.ps.get("gone"):
                X.badfn(st, f, "closing succeeds but the scan stays open")
            if X.const(st, v) not in (OK, None) and st.ps.get("gone"):
                X.badfn(st, f, "closing is refused but the scan is gone")
        K.run("C22." + fn[fn.index("delete"):], owner.__doc__, fn, minimum=2, branch=br, anycall=anyd, exit=exd)


def is_size(t):
    return t is not None and (has(t, "max_size_") or any(x.kind in ("pc", "r") and "size" in str(x.args[0]) for x in subterms(t)) and has(t, "vec_"))


def cur(t):
    """the place of the cursor, possibly after some rounds"""
    return has(t, "scan_index_") or any(x.kind == "u" for x in subterms(t))


def step(K):
    """a cursor moves by one record at a time, reports the limit exactly when no record is left, and offers the record it stands on"""
    OK, LIM = K.S("OK"), K.S("WARN_SCAN_LIMIT")

    def wr(X, st, e):
        ps = st.ps
        if e.loc.kind == "f" and short(e.loc.args[1]) == "scan_index_":
            X.ob()
            v = e.val
            if v.kind == "op" and v.args[0] == "+" and (X.const(st, v.args[2]) == 1 or X.const(st, v.args[1]) == 1) and cur(v):
                if ps.get("un"):
                    X.bad(st, e, "the cursor skips a record")
                ps["adv"] = ps["un"] = 1
                ps["loc"] = e.loc
                ps.pop("in", None)
            elif is_size(v):
                ps["stop"] = 1
            elif v.kind != "u":
                X.bad(st, e, "the cursor does not move by one record")
            else:
                if ps.get("un"):
                    X.bad(st, e, "the cursor skips a record")
                ps["adv"] = ps["un"] = 1
                ps["loc"] = e.loc
                ps.pop("in", None)

    def yk(X, st, e):
        if e.name == "yakushima::iscan_next":
            X.ob()
            st.ps["nexts"] = 1
            if not st.ps.get("adv"):
                X.bad(st, e, "the index moves on without the cursor")

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        if o == "<":
            if is_size(b) and cur(a) and not is_size(a):
                now = X.eng.load(st, ps["loc"]) if isinstance(ps.get("loc"), Term) else None
                if now is None or now is a or any(x.kind == "u" for x in subterms(now)) or any(x.kind == "u" for x in subterms(a)):
                    ps["in" if t else "out"] = 1
                    ps.pop("un", None)
        elif o == "==" and (is_size(a) or is_size(b)) and (cur(a) or cur(b)):
            ps["out" if t else "in"] = 1
            ps.pop("un", None)
        elif is_result(a, "yakushima::iscan_next") and o == "==" and t and X.const(st, b) == SCAN_END:
            ps["out"] = 1
    SCAN_END = 14

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        if c == OK and not ps.get("adv"):
            X.badfn(st, fn, "the cursor is said to have moved but did not")
        if c == OK and not ps.get("in"):
            X.badfn(st, fn, "the cursor moves to a record without having tested that there is one")
        if c == LIM and not ps.get("out"):
            X.badfn(st, fn, "the limit is reported although records may be left")
        if ps.get("out") and c == OK:
            X.badfn(st, fn, "the cursor moves past the end of the range")
    K.run("C22.step", step.__doc__, "next", minimum=6, stop=STOP, anywrite=wr, anycall=yk, branch=br, exit=ex, once=True, merge_block=200, merge_exits=60)


def reads(K):
    """reading from a scan takes the record under the cursor, and reports the limit when the cursor stands past the last one"""
    OK, LIM = K.S("OK"), K.S("WARN_SCAN_LIMIT")
    READ = q("read_record Record::get_key Record::get_value write_set_obj::get_key write_set_obj::get_value long_tx::version_function_with_optimistic_check "
             "long_tx::version_function_without_optimistic_check long_tx::version_traverse_and_read local_write_set::search")

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        if o == "<" and is_size(b) and has(a, "scan_index_"):
            ps["in" if t else "out"] = 1
        elif o == "==" and (is_size(a) or is_size(b)) and (has(a, "scan_index_") or has(b, "scan_index_")):
            ps["out" if t else "in"] = 1

    def rd(X, st, e):
        X.ob()
        if st.ps.get("in") is None:
            X.bad(st, e, "%s: reads without a record under the cursor" % X.root)
        r = X.arg(st, e, 0) if e.name in (SK + "read_record", SK + "local_write_set::search") else X.recv(st, e) if e.recv else None
        if r is None or r.kind == "u":
            return
        its = [x for x in subterms(r) if x.kind == "it" and has(x.args[0], "vec_")]
        if its and not any(has_t(x.args[1], "scan_index_") for x in its):
            g = its[0].args[1]
            if g in ("begin", "back", "rbegin"):
                X.bad(st, e, "%s: reads another record than the one under the cursor" % X.root)

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if st.ps.get("out") and c not in (LIM, None):
            X.badfn(st, fn, "%s: reading past the last record is not reported as the limit" % X.root)
        if c == LIM and st.ps.get("in"):
            X.badfn(st, fn, "%s: the limit is reported although there is a record under the cursor" % X.root)
    for r in ("read_key_from_scan", "read_value_from_scan"):
        K.run("C22." + r, reads.__doc__, r, minimum=6, stop=STOP | READ, call={n: rd for n in READ}, branch=br, exit=ex, root=r, merge_block=200, merge_exits=60)


def has_t(g, word):
    return isinstance(g, tuple) and any(has(x, word) for x in g if isinstance(x, Term))
