"""C03: absences and ranges a short transaction observed are re-validated."""
from rulekit import *
import ops
import c01

NOTE = ("every path of lookups, writes and scans of a short transaction: an index miss, each index node a cursor lands on, and each own "
        "insert is entered in or carried into the node set; the node set itself refuses changed nodes; commit compares every entry")

EMPL = SK + "node_set::emplace_back"
# outcomes of the index as numbered by the stand-in header the analysis is run with
Y_ABORTED, Y_CONCURRENT, Y_OK = 0, 2, 9


def check(K):
    for f in (miss, inserts, opens, cursor, iterator, remember, advance, split):
        K.part("C03." + f.__name__, f)
    c01.commit(K, "C03.commit", "commit of a short transaction compares the version of every index node it depends on, without skipping any",
               ("node",), "index node it depends on")
    c01.node_verify(K, "C03.verify")
    c01.comp_ver(K, "C03.compare")


def noted(st):
    st.ps["node"] = None


def marks(X, st, e, ps):
    """The storage's mark for ranges read by short transactions."""
    v = X.arg(st, e, 0)
    X.ob()
    if v is not None and v.kind != "u" and not mentions(v, lambda x: x.kind == "f" and short(x.args[1]) == "range_read_by_short_"):
        X.bad(st, e, "%s: registers something else than the storage's mark for short readers" % X.root)
    ps["mark"] = 1


def miss(K):
    """a short transaction told that a key is not in the index remembers the node that showed it and marks the range as read"""
    W = ops.Watch(K)
    NF = K.S("WARN_NOT_FOUND")

    def got(X, st, e):
        X.ob()
        ps = st.ps
        ps["loc"] = e.args[3][0] if len(e.args) > 3 else None
        ps["reg"] = False
        ps["got"] = None
        ps["mark"] = 0
        ps["ypres"] = e.val

    def nf(X, st, e, o, a, b, t):
        if a.kind == "r" and a.args[0] == SK + "get" and o == "==" and b.kind == "c" and b.args[0] == NF and not t:
            st.ps["gone"] = 1

    def empl(X, st, e):
        X.ob()
        ps = st.ps
        if ps.get("ypres") is None:
            return
        v = X.arg(st, e, 0)
        want = mentions(v, lambda x: x.kind == "o" or "get#out3" in pretty(x)) if v is not None else None
        if v is not None and v.kind != "u" and not want:
            X.bad(st, e, "%s: remembers a node version that did not come with the answer of the index" % X.root)
        ps["reg"] = True

    def rng(X, st, e):
        marks(X, st, e, st.ps)

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if ps.get("got") is not False or W.SHORT not in W.types(st) or ps.get("ab") or ps.get("gone") and X.root in ops.WRITES:
            return
        if c is not None and c != NF:
            return
        if c is None and v is not ps.get("ypres"):
            return
        if not ps.get("reg"):
            X.badfn(st, fn, "%s: tells a short transaction that the key is not there without remembering the index node" % X.root)
        elif not ps.get("mark"):
            X.badfn(st, fn, "%s: tells a short transaction that the key is not there without marking the range as read" % X.root)

    def abort(X, st, e):
        st.ps["ab"] = 1
    for r in ops.POINTS + ("update", "delete_record"):
        K.run("C03.miss", miss.__doc__, r, minimum=4, stop=ops.STOP,
              call={EMPL: empl, SK + "session::push_to_range_read_by_short_set": rng, SK + "short_tx::abort": abort},
              after={SK + "get": got}, branch=W.branch, exit=ex, root=r, more={"nf": nf}, merge_block=200, merge_exits=100)


def inserts(K):
    """a new record put in the index by a short transaction is carried into the nodes it depends on, or makes it abort"""
    W = ops.Watch(K)
    OKV = K.S("OK")

    def put(X, st, e):
        X.ob()
        ps = st.ps
        ps["put"] = e.val
        ps["info"] = e.args[4][1]
        ps["rec"] = X.arg(st, e, 3)
        ps["in"] = None
        ps["upd"] = ps["rd"] = False
        ps["node"] = ps["mine"] = None

    def upd(X, st, e):
        X.ob()
        ps = st.ps
        if ps.get("put") is None:
            X.bad(st, e, "%s: carries a change into the nodes before it was made" % X.root)
            return
        v, w = X.arg(st, e, 0), X.V(st, (None, ps["info"]))
        if v is not None and w is not None and v is not w and v.kind != "u":
            X.bad(st, e, "%s: carries another change into the nodes than the one of the index" % X.root)
        ps["upd"] = True

    def res(X, st, e, o, a, b, t):
        if a.kind == "r" and a.args[0] == SK + "put" and o == "==" and b.kind == "c" and b.args[0] == Y_OK:
            st.ps["in"] = t

    def push(X, st, e):
        v = X.arg(st, e, 0)
        X.ob()
        if v is not None and (v.kind != "rec" or st.ps.get("rec") is None or mentions(v, lambda x: x is st.ps["rec"])):
            st.ps["rd"] = True

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if X.const(st, v) != OKV or not ps.get("in") or W.SHORT not in W.types(st):
            return
        if not ps.get("upd"):
            X.badfn(st, fn, "%s: a short transaction's new record is not carried into the nodes it depends on" % X.root)
        elif ps.get("node") is not True:
            X.badfn(st, fn, "%s: goes on although another transaction may have changed a node this one depends on" % X.root)
        elif ps.get("mine") is not False and not ps.get("rd"):
            X.badfn(st, fn, "%s: a new record on a node the transaction depends on is not entered in the validation set" % X.root)
    for r in ("insert", "upsert"):
        K.run("C03.inserts", inserts.__doc__, r, minimum=6, stop=ops.STOP,
              call={SK + "session::update_node_set": upd, SK + "session::push_to_read_set_for_stx": push},
              after={SK + "put": put}, branch=W.branch, exit=ex, root=r, more={"res": res}, merge_block=200, merge_exits=100)


def positive(t):
    """A sum of counts with a positive part."""
    if t.kind == "c":
        return t.args[0] > 0
    return t.kind == "op" and t.args[0] == "+" and any(positive(x) for x in t.args[1:])


def base_of(t):
    """The element of a container a value is part of."""
    while t is not None and t.kind in ("ld", "f", "fv"):
        t = t.args[0]
    return t if t is not None and t.kind == "e" else None


def opens(K):
    """opening a scan as a short transaction marks the range as read and remembers the nodes up to the first record it finds, or all
    of them when there is none"""
    W = ops.Watch(K)
    OKV, NF = K.S("OK"), K.S("WARN_NOT_FOUND")

    def scan(X, st, e):
        X.ob()
        ps = st.ps
        if W.SHORT in W.types(st) and not ps.get("mark"):
            X.bad(st, e, "open_scan: looks at the index before marking the range as read")
        ps["scan"] = 1
        ps["nv"] = base(e.args[7][0]) if len(e.args) > 7 else None
        ps["n"] = 0
        if len(e.args) > 7 and e.args[7][0] is ZERO:
            X.bad(st, e, "open_scan: does not ask the index for the nodes it visited")

    def base(v):
        return v

    def empl(X, st, e):
        X.ob()
        ps = st.ps
        v = X.arg(st, e, 0)
        b = base_of(v)
        if ps.get("scan") and v is not None and v.kind != "u" and b is None and v.kind != "tup":
            X.bad(st, e, "open_scan: remembers a node version that did not come from the index")
        ps["n"] = min(ps.get("n", 0) + 1, 2)
        ps["all"] = 0

    def br(X, st, e):
        W.branch(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==" and a.kind == "it" and b.kind == "it" and t and ("end" in (a.args[1], b.args[1])):
            # a loop over some container came to its end
            x = b if a.args[1] == "end" else a
            nv = ps.get("nv")
            if nv is not None and mentions(nv, lambda y: y is x.args[0]):
                ps["all"] = 1
        if o == "<" and not t and ps.get("scan"):
            # an index loop came to its end: is it bounded by the number of nodes, or by the records skipped
            if a is ZERO and b.kind == "op" and positive(b):
                ps["imp"] = 1
            if b.kind == "c" and b.args[0] < 2 and ps.get("n") and ps.get("rn") == 2 and W.SHORT in W.types(st):
                X.bad(st, e, "open_scan: forgets the index nodes of the records skipped before the first one found")
            if b.kind == "pc" and ("scan#out7" in pretty(b) or
                                   ps.get("nv") is not None and mentions(b, lambda y: mentions(ps["nv"], lambda z: z is y))):
                ps["all"] = 1

    def rng(X, st, e):
        marks(X, st, e, st.ps)

    def at(X, st, e):
        if e.kind == "aload" and (loc_is(e.loc, "tidw_") or e.val is not None and ld_is(e.val, "tidw_")):
            st.ps["rn"] = min(st.ps.get("rn", 0) + 1, 2)

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if not ps.get("scan") or W.SHORT not in W.types(st) or ps.get("ab") or "early" in ps or ps.get("imp"):
            return
        if c == OKV and not ps.get("n") and not ps.get("all"):
            X.badfn(st, fn, "open_scan: lets a short transaction's cursor stand on a record without remembering its index node")
        if c == NF and ps.get("found") and not ps.get("all"):
            X.badfn(st, fn, "open_scan: tells a short transaction that the range is empty without remembering every index node")

    def sres(X, st, e, o, a, b, t):
        if a.kind == "r" and a.args[0] == SK + "scan" and o == "==" and b.kind == "c" and b.args[0] == OKV:
            st.ps["found"] = t

    def abort(X, st, e):
        st.ps["ab"] = 1
    K.run("C03.opens", opens.__doc__, "open_scan", minimum=20, stop=ops.STOP,
          call={EMPL: empl, SK + "session::push_to_range_read_by_short_set": rng, SK + "short_tx::abort": abort, SK + "scan": scan,
                SK + "iscan_open": lambda X, st, e: iopen(K, W, X, st, e)},
          branch=br, exit=ex, atomic=at, root="open_scan", more={"sres": sres}, merge_block=200, merge_exits=100)


def iopen(K, W, X, st, e):
    X.ob()
    if W.SHORT in W.types(st) and not st.ps.get("mark"):
        X.bad(st, e, "open_scan: looks at the index before marking the range as read")


def cursor(K):
    """a short transaction's cursor never leaves a record, nor ends a call, without having remembered the index node it stands on"""
    W = ops.Watch(K)

    def stands(X, st, rec, e):
        b = base_of(rec)
        if b is None or not in_container(rec, "vec_"):
            return
        X.ob()
        st.ps["on"] = b

    def search(X, st, e):
        stands(X, st, X.arg(st, e, 0), e)

    def at(X, st, e):
        if e.kind == "aload" and loc_is(e.loc, "tidw_"):
            stands(X, st, e.loc.args[0] if e.loc.kind == "f" else None, e)

    def wr(X, st, e):
        if loc_is(e.loc, "scan_index_"):
            leave(X, st, e)
            st.ps["on"] = st.ps["have"] = None

    def leave(X, st, e):
        ps = st.ps
        if ps.get("on") is not None and W.SHORT in W.types(st) and not ps.get("ab") and ps.get("have") is not ps["on"]:
            X.bad(st, e, "%s: leaves a record without having remembered its index node" % X.root)

    def empl(X, st, e):
        X.ob()
        v = X.arg(st, e, 0)
        if v is None or v.kind == "u":
            st.ps["have"] = st.ps.get("on")
            return
        bs = [base_of(x) for x in subterms(v) if base_of(x) is not None]
        if v.kind == "tup" and len(v.args) >= 1:
            fs = sorted(f for f in ("#1", "#2") if mentions(v, lambda x: x.kind in ("f", "fv") and str(x.args[1]) == f))
            if bs and fs != ["#1", "#2"]:
                X.bad(st, e, "%s: remembers something else than the version and the node of the record" % X.root)
        if bs:
            st.ps["have"] = bs[0]
            st.ps["node"] = None
            st.ps["emp"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if ps.get("ab") or W.SHORT not in W.types(st):
            return
        if ps.get("on") is not None and ps.get("have") is not ps["on"]:
            X.badfn(st, fn, "%s: ends with the cursor on a record whose index node was not remembered" % X.root)
        if ps.get("node") is False or ps.get("node") is None and ps.get("emp") and c in (K.S("OK"), K.S("WARN_SCAN_LIMIT")):
            X.badfn(st, fn, "%s: goes on although the index node has changed since the scan was opened" % X.root)
        if ps.get("yk") in (Y_ABORTED, Y_CONCURRENT) and c in (K.S("OK"), K.S("WARN_SCAN_LIMIT")) and ps.get("cb"):
            X.badfn(st, fn, "%s: goes on although the index reported a concurrent change" % X.root)

    def yres(X, st, e, o, a, b, t):
        if a.kind == "r" and a.args[0] == "yakushima::iscan_next" and o == "==" and b.kind == "c":
            st.ps["yk"] = b.args[0] if t else st.ps.get("yk")

    def step(X, st, e):
        # the callback is only given for a short transaction
        st.ps["cb"] = len(e.args) > 2
        st.ps["yk"] = None

    def abort(X, st, e):
        st.ps["ab"] = 1
    K.run("C03.cursor", cursor.__doc__, "next", minimum=8, stop=ops.STOP,
          call={EMPL: empl, "yakushima::iscan_next": step, SK + "local_write_set::search": search, SK + "short_tx::abort": abort}, atomic=at, anywrite=wr,
          branch=W.branch, exit=ex, root="next", more={"y": yres}, merge_block=200, merge_exits=100)


def iterator(K):
    """an iterator over the index for a short transaction is given a callback that remembers every node it visits"""
    W = ops.Watch(K)
    lams = {}

    def cb(X, st, e):
        if W.SHORT not in W.types(st):
            return
        if e.name == SK + "iscan_open" and W.types(st) != {W.SHORT} and len(e.args) < 10:
            return
        X.ob()
        v = X.arg(st, e, len(e.args) - 1)
        l = None
        if v is not None:
            for x in subterms(v):
                if x.kind == "lam":
                    l = x
        if l is None:
            if v is not None and v.kind != "u":
                X.bad(st, e, "%s: walks the index for a short transaction without remembering the nodes" % X.root)
            return
        lams[l.args[0]] = 1
    for r in ("open_scan", "next"):
        K.run("C03.iterator", iterator.__doc__, r, minimum=1, stop=ops.STOP,
              call={SK + "iscan_open": cb, "yakushima::iscan_next": cb}, branch=W.branch, root=r, merge_block=200, merge_exits=100)
    if not lams:
        K.broken.append("C03.iterator: no callback given to the index iterator")
    CC = K.S("ERR_CC")

    def empl(X, st, e):
        X.ob()
        v = X.arg(st, e, 0)
        st.ps["n"] = 1
        if v is not None and v.kind == "tup" and not (is_param(v, 0) and is_param(v, 1)):
            X.bad(st, e, "iterator callback: remembers something else than the node and version it was given")

    def res(X, st, e):
        st.ps["r"] = e.val

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("n"):
            X.badfn(st, fn, "iterator callback: does not remember the node it was given")
            return
        bad = X.outcome(st, st.ps["r"], CC)
        c = X.const(st, v)
        if c is None and v is not None:
            o, a, b, t = atom(v, True)
            if a is st.ps["r"] and o == "==" and b.kind == "c":
                if t != (b.args[0] == CC):
                    X.badfn(st, fn, "iterator callback: does not stop the iteration exactly when the node has changed")
                return
        if bad == "yes" and c == 0 or bad == "no" and c == 1 or bad is None and c is not None:
            X.badfn(st, fn, "iterator callback: does not stop the iteration exactly when the node has changed")
    for l in lams:
        K.run("C03.iterator", iterator.__doc__, [l], minimum=1, stop=q("node_set::emplace_back"), call={EMPL: empl}, after={EMPL: res}, exit=ex)


def remember(K):
    """the node set takes an entry only while the node still has the version seen, or already holds the same node with the version it has
    now"""
    OKV, CC = K.S("OK"), K.S("ERR_CC")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o != "==":
            return
        txt = (pretty(a), pretty(b))
        own = [x for x in (a, b) if in_container(x, "set_")]
        now = [x for x in (a, b) if mentions(x, lambda y: y.kind == "r" and short(y.args[0]) == "get_stable_version")]
        par = [x for x in (a, b) if is_param(x, 0) and not mentions(x, lambda y: y.kind == "r")]
        if "get_vinsert_delete" in txt[0] + txt[1] or "get_vsplit" in txt[0] + txt[1]:
            if now and own:
                ps["oldv"] = t and ps.get("oldv") is not False
            elif now and par:
                ps["newv"] = t and ps.get("newv") is not False
        elif own and par and o == "==":
            if any("back" in x for x in txt):
                ps["last"] = t
            else:
                ps["ptr"] = t
                ps["oldv"] = None

    def add(X, st, e):
        if not loc_is(e.recv[1], "set_"):
            return
        X.ob()
        ps = st.ps
        v = X.arg(st, e, 0)
        if v is not None and not is_param(v, 0):
            X.bad(st, e, "node_set::emplace_back: stores something else than the entry given")
        if not ps.get("newv"):
            X.bad(st, e, "node_set::emplace_back: stores an entry without having found the node unchanged")
        ps["in"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if c == OKV and not ps.get("in") and not ps.get("last") and not (ps.get("ptr") and ps.get("oldv")):
            X.badfn(st, fn, "node_set::emplace_back: returns OK without the node being remembered with a valid version")
        if c is None:
            X.badfn(st, fn, "node_set::emplace_back: outcome not decided")
    K.run("C03.remember", remember.__doc__, "node_set::emplace_back", minimum=3, branch=br,
          call={n: add for n in ("std::vector::emplace_back", "std::vector::push_back")}, exit=ex, nonempty=False)


def advance(K):
    """an own insert advances the remembered version of the node by exactly one, for every entry of it, or reports a conflict"""
    OKV, CC, NF = K.S("OK"), K.S("ERR_CC"), K.S("WARN_NOT_FOUND")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o != "==":
            return
        txt = pretty(a) + pretty(b)
        if "get_vinsert_delete" in txt:
            own = [x for x in (a, b) if in_container(x, "set_")]
            now = [x for x in (a, b) if not in_container(x, "set_")]
            one = own and own[0].kind == "op" and own[0].args[0] == "+" and any(x.kind == "c" and x.args[0] == 1 for x in own[0].args[1:])
            X.ob()
            if own and now:
                if not one:
                    X.bad(st, e, "node_set::update_node_set: the own change does not count for exactly one")
                ps["one"] = t
                if not t:
                    ps["bad"] = 1
        elif [x for x in (a, b) if in_container(x, "set_")] and [x for x in (a, b) if is_param(x, 0)]:
            if ps.get("hit") and not ps.get("adv"):
                X.bad(st, e, "node_set::update_node_set: passes over an entry of the node without advancing it")
            ps["hit"] = t
            ps["any"] = ps.get("any") or t
            ps["adv"] = ps["one"] = None

    def wr(X, st, e):
        if e.loc is None or not in_container(e.loc, "set_"):
            return
        X.ob()
        ps = st.ps
        if not ps.get("hit") or not ps.get("one"):
            X.bad(st, e, "node_set::update_node_set: changes an entry without having compared it")
        ps["adv"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if ps.get("bad") and c != CC:
            X.badfn(st, fn, "node_set::update_node_set: does not report a change made by another transaction")
        if c == CC and not ps.get("bad"):
            X.badfn(st, fn, "node_set::update_node_set: reports a conflict that was not found")
        if ps.get("any") and not ps.get("bad"):
            if c not in (OKV,):
                X.badfn(st, fn, "node_set::update_node_set: does not tell that the node is one the transaction depends on")
            if ps.get("hit") and not ps.get("adv"):
                X.badfn(st, fn, "node_set::update_node_set: leaves an entry of the node at its old version")
    K.run("C03.advance", advance.__doc__, K.fns("node_set::update_node_set", 2), minimum=4, branch=br, anywrite=wr, exit=ex)


def split(K):
    """when an own insert split a node the transaction depends on, the new node is remembered as well"""
    OKV, CC = K.S("OK"), K.S("ERR_CC")
    U2 = SK + "node_set::update_node_set"

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if a.kind == "r" and a.args[0] == U2 and o == "==" and b.kind == "c":
            if b.args[0] == OKV:
                ps["mine"] = t
            elif t:
                ps["mine"] = False
        if ld_is(a, "created_nvp"):
            ps["new"] = t if o == "t" else (not t if b is ZERO else None)
        if "get_vinsert_delete" in pretty(a) + (pretty(b) if b is not None else "") and o == "==":
            ps["same"] = t
        if a.kind == "r" and a.args[0] == EMPL and o == "==" and b.kind == "c":
            ps["emp"] = (t if b.args[0] == OKV else not t if b.args[0] == CC else None)

    def empl(X, st, e):
        X.ob()
        st.ps["in"] = 1
        v = X.arg(st, e, 0)
        if v is not None and v.kind == "tup" and "created_nvp" not in pretty(v):
            X.bad(st, e, "node_set::update_node_set: remembers another node than the one split off")

    def first(X, st, e):
        X.ob()
        v = X.arg(st, e, 0)
        if v is not None and "modified_nvp" not in pretty(v) and v.kind != "u":
            X.bad(st, e, "node_set::update_node_set: advances another node than the one changed")

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if ps.get("mine") and ps.get("new") is not False:
            if ps.get("same") is False or ps.get("emp") is False:
                if c != CC:
                    X.badfn(st, fn, "node_set::update_node_set: does not report that the new node was changed by another transaction")
            elif not ps.get("in"):
                X.badfn(st, fn, "node_set::update_node_set: forgets the node split off from one the transaction depends on")
            elif ps.get("same") is None:
                X.badfn(st, fn, "node_set::update_node_set: remembers the node split off without comparing its version")
    one = [f for f in K.fns("node_set::update_node_set", 1)]
    two = set(K.fns("node_set::update_node_set", 2))
    K.run("C03.split", split.__doc__, one, minimum=3, stop=q("node_set::emplace_back") | {U2} if two else q("node_set::emplace_back"),
          call={EMPL: empl, U2: first}, branch=br, exit=ex)
