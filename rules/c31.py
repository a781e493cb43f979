"""C31: read areas declared by a long transaction are enforced."""
from rulekit import *
import ops

NOTE = ("every path of the long transaction's operations that read: the read area of the named storage is tested before data is "
        "looked at and a violation leads to abort, reason and status; the test itself, the preparation of the area at begin and its "
        "publication to other transactions are checked for all combinations of lists")

LOOKS = q("""get put scan iscan_open local_write_set::search try_deleted_to_inserting read_record
long_tx::version_traverse_and_read session::push_to_write_set long_tx::wp_verify_and_forwarding long_tx::update_local_read_range
range_read_set_for_ltx::insert local_read_set_for_ltx::push scan_handler::create_scan_cache
scan_handler::create_scan_context""") | {"yakushima::iscan_open"}


def check(K):
    for f in (uses, test, prepare, publish):
        K.part("C31." + f.__name__, f)


def uses(K):
    """operations of a long transaction that depend on existing data test the read area of their storage first and abort outside it"""
    W = ops.Watch(K)
    REASON = K.RC("CC_LTX_READ_AREA_VIOLATION")

    def asked(X, st, e):
        X.ob()
        st.ps["st"] = is_param(X.arg(st, e, 1), 1)
        st.ps.pop("area", None)

    def look(X, st, e):
        if W.LONG not in W.types(st):
            return
        X.ob()
        ps = st.ps
        if e.name == SK + "get" and not ps.get("storage"):
            return
        if ps.get("area") is None:
            X.bad(st, e, "%s: %s without having tested the read area" % (X.root, short(e.name)))
        elif ps["area"] is False:
            X.bad(st, e, "%s: %s although the storage is outside the read area" % (X.root, short(e.name)))
        elif not ps.get("st"):
            X.bad(st, e, "%s: the read area was tested for another storage" % X.root)

    def abort(X, st, e):
        if e.name == SK + "long_tx::abort":
            st.ps["ab"] = 1

    def res(X, st, e):
        st.ps["why"] = X.const(st, X.V(st, e.args[0]))

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if ps.get("area") is False and ps.get("st") is not None:
            if not ps.get("ab"):
                X.badfn(st, fn, "%s: does not abort although the storage is outside the read area" % X.root)
            if c is not None and c != W.AREA:
                X.badfn(st, fn, "%s: returns %s although the storage is outside the read area" % (X.root, K.status_name(c)))
            if ps.get("why") != REASON:
                X.badfn(st, fn, "%s: the reason of the abort does not say that the read area was violated" % X.root)
        elif c == W.AREA:
            X.badfn(st, fn, "%s: reports a violation of the read area that was not found" % X.root)
    base = {n: look for n in LOOKS}
    base.update({SK + "long_tx::check_read_area": asked, SK + "long_tx::abort": abort, SK + "session::set_result": res})
    for r in ops.READS + ops.WRITES:
        calls = dict(base)
        if r == "upsert":
            for n in LOOKS:
                calls.pop(n, None)
        K.run("C31.uses", uses.__doc__, r, minimum=6 if r != "upsert" else 1, stop=ops.STOP | q("session::set_result"), call=calls,
              branch=W.branch, exit=ex, root=r, merge_block=200, merge_exits=100)


def elem(t):
    while t is not None and t.kind == "ld":
        t = t.args[0]
    return t is not None and t.kind == "e"


def listed(X, st, t):
    """Which of the two lists does this term come from?"""
    def has(u, n):
        return mentions(u, lambda z: z.kind in ("f", "fv") and short(z.args[1]) == n)
    for u in (t, X.V(st, (None, t)) if t is not None and t.kind in ("v", "g", "f") else None):
        if u is None:
            continue
        for k, n in (("p", "positive_list_"), ("n", "negative_list_")):
            if has(u, n):
                return k
    return None


def test(K):
    """a storage is inside the area iff both lists are empty, or it is in the positive list, or only excluded ones are listed and it is not among them"""
    W = ops.Watch(K)

    def owner(X, st, u):
        """list of an iterator or element term, local copies resolved through the calls seen"""
        k = listed(X, st, u)
        if k:
            return k
        for key, val in st.ps.items():
            if key.startswith("c:") and mentions(u, lambda z: pretty(z) == key[2:]):
                return val
        return None

    def anyc(X, st, e):
        if e.recv is None or not e.name.startswith("std::"):
            return
        k = None
        for x in e.recv:
            if x is not None and k is None:
                k = listed(X, st, x)
        if k and e.recv[1] is not None:
            st.ps["c:" + pretty(e.recv[1])] = k

    def branch(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        X.ob()
        if o == "==" and b.kind == "c" and a.kind != "c":
            x, want = a, b.args[0]
        elif o == "t":
            x, want = a, 1
        else:
            x = None
        if x is not None:
            z = x
            if pretty(z).startswith("empty("):
                k = owner(X, st, z)
                if k:
                    ps[k + "e"] = t if want else not t
                return
            if pretty(z).startswith("size("):
                k = owner(X, st, z)
                if k:
                    ps[k + "e"] = not t if o == "t" else t == (want == 0)
                return
            if pretty(z).startswith("count("):
                k = owner(X, st, z)
                if k:
                    ps[k + "f"] = t if o == "t" else t == (want != 0)
                return
        if o == "<" and a is ZERO and pretty(b).startswith("count("):
            k = owner(X, st, b)
            if k:
                ps[k + "f"] = t
            return
        if o == "==":
            for u, v in ((a, b), (b, a)):
                if mentions(u, lambda z: z.kind == "it" and isinstance(z.args[1], tuple) and z.args[1][0] == "find"):
                    k = owner(X, st, u)
                    key = next((z.args[1][1] for z in subterms(u) if z.kind == "it" and isinstance(z.args[1], tuple)), None)
                    if k and key is not None and is_param(key, 1):
                        ps[k + "f"] = not t
                    return
                if elem(u) and is_param(v, 1):
                    k = owner(X, st, u)
                    if k:
                        if t:
                            ps[k + "f"] = True
                        else:
                            ps.setdefault(k + "f", False)
                    return

    def log(X, st, e):
        X.ob()
        st.ps["log"] = is_param(X.arg(st, e, 0), 1)

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        pe, ne, pf, nf = (ps.get(k) for k in ("pe", "ne", "pf", "nf"))
        if pf:
            pe = False
        if nf:
            ne = False
        if c == W.OKV:
            if pe is False and not pf:
                X.badfn(st, fn, "accepts a storage that is not found in a non-empty positive list")
            if nf and not pf:
                X.badfn(st, fn, "accepts a storage of the negative list")
            if pe is not True and not pf:
                X.badfn(st, fn, "accepts a storage without having looked at the positive list")
            if pe and ne is not True and nf is not False:
                X.badfn(st, fn, "accepts a storage without having looked for it in the negative list")
            if not ps.get("log"):
                X.badfn(st, fn, "accepts a storage without recording it as read")
        elif c == W.AREA:
            if pf:
                X.badfn(st, fn, "refuses a storage of the positive list")
            elif pe is not False and ne:
                X.badfn(st, fn, "refuses a storage although no area was declared")
            elif pe and nf is not True:
                X.badfn(st, fn, "refuses a storage that is not in the negative list")
            if ps.get("log"):
                X.badfn(st, fn, "records a storage as read that is refused")
        elif c is not None:
            X.badfn(st, fn, "answers %s" % K.status_name(c))
    K.run("C31.test", test.__doc__, "long_tx::check_read_area", minimum=5, stop=q("session::insert_to_ltx_storage_read_set"),
          call={SK + "session::insert_to_ltx_storage_read_set": log}, anycall=anyc, branch=branch, exit=ex, nonempty=False)


def prepare(K):
    """at begin excluded storages are removed from the positive list, and the same area is enforced and published under the transaction's id"""
    W = ops.Watch(K)

    def anyc(X, st, e):
        n = short(e.name)
        if e.name.startswith("std::") and n in ("erase", "extract") and e.recv is not None and e.recv[1] is not None:
            k = listed(X, st, e.recv[1])
            v = X.arg(st, e, 0)
            if k == "p" and v is not None:
                X.ob()
                st.ps["cut"] = 1
                st.ps.pop("same", None)
            elif k == "n":
                X.bad(st, e, "a storage is removed from the list of excluded ones")

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and elem(a) and elem(b):
            st.ps["cmp"] = 1
            if t:
                st.ps["same"] = 1
        z = a if o in ("t", "==") else None
        if z is not None and pretty(z).startswith("empty("):
            k = listed(X, st, z)
            if k:
                st.ps[k + "e"] = t if o == "t" else t == bool(b.args[0])

    def take(X, st, e):
        ps = st.ps
        X.ob()
        n = short(e.name)
        i = 1 if n == "add_elem" else 0
        v = X.arg(st, e, i)
        if v is None or not mentions(v, lambda z: z.kind == "p" and z.args[0] == 2):
            X.bad(st, e, "%s: not the read area given at begin" % n)
        if ps.get("same"):
            X.bad(st, e, "%s: a storage in both lists was not removed from the positive one" % n)
        if ps.get("pe") is False and ps.get("ne") is False and not ps.get("cmp") and not ps.get("cut"):
            X.bad(st, e, "%s: both lists are used without removing the excluded storages" % n)
        if not (ps.get("cut") or ps.get("cmp") or ps.get("pe") or ps.get("ne")):
            X.bad(st, e, "%s: the area was not prepared" % n)
        if n == "add_elem":
            ps["plan"] = v
            w = X.arg(st, e, 0)
            if not (ld_is(w, "long_tx_id_") or mentions(w, lambda z: pretty(z) == "counter") or is_result(w, SK + "wp::long_tx::get_counter")):
                X.bad(st, e, "the read area is published under something else than the transaction's id")
        else:
            ps["area"] = v

    def ex(X, st, v, fn):
        X.ob()
        if X.const(st, v) != W.OKV:
            return
        p, a = st.ps.get("plan"), st.ps.get("area")
        if a is None:
            X.badfn(st, fn, "begins without setting the read area")
        elif p is None:
            X.badfn(st, fn, "begins without publishing the read area")
        elif p is not a and pretty(p) != pretty(a):
            X.badfn(st, fn, "enforces another read area than the one published")
    K.run("C31.prepare", prepare.__doc__, "long_tx::tx_begin", minimum=6, nonempty=True,
          stop=q("wp::write_preserve ongoing_tx::push read_plan::add_elem session::set_read_area"),
          call={SK + "read_plan::add_elem": take, SK + "session::set_read_area": take}, anycall=anyc, branch=branch, exit=ex)


def publish(K):
    """the plan published at begin holds every storage of the positive list as not yet submitted and the negative list, under the given id"""
    two = K.fns("read_plan::add_elem", 2)

    def anyc(X, st, e):
        if not (e.name.startswith("std::") and short(e.name) in ("insert", "emplace", "emplace_hint")) or not e.args:
            return
        v = X.arg(st, e, 0)
        es = [z for z in subterms(v) if z.kind == "e" and listed(X, st, z) == "p"] if v is not None else []
        if es:
            X.ob()
            st.ps["pos"] = 1
            parts = e.args if len(e.args) >= 2 else None
            flag = None
            t = v
            while t.kind == "tup" and len(t.args) == 1:
                t = t.args[0]
            if parts and len(parts) >= 6:
                flag = X.const(st, X.arg(st, e, 1))
            elif t.kind == "tup" and len(t.args) > 1:
                flag = X.const(st, t.args[1])
            if flag is not None and flag != 0:
                X.bad(st, e, "a storage of a running transaction is published as already submitted")
        elif v is not None and any(z.kind == "e" and listed(X, st, z) == "n" for z in subterms(v)):
            X.ob()

    def wr(X, st, e):
        if not mentions(e.loc, lambda z: z.kind == "it" and isinstance(z.args[1], tuple) and z.args[1][0] == "idx"):
            return
        X.ob()
        v = e.val
        idx = next(z.args[1][1] for z in subterms(e.loc) if z.kind == "it" and isinstance(z.args[1], tuple))
        if not is_param(idx, 0):
            X.bad(st, e, "the plan is stored under another id")
        if not st.ps.get("pos"):
            X.bad(st, e, "the plan is stored without the positive list")
        if listed(X, st, v) != "n" and not mentions(v, lambda z: z.kind in ("f", "fv") and short(z.args[1]) == "negative_list_"):
            X.bad(st, e, "the plan is stored without the negative list")
        st.ps["stored"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("stored"):
            X.badfn(st, fn, "returns without storing the plan")
    K.run("C31.publish", publish.__doc__, two, minimum=3, nonempty=True, anycall=anyc, anywrite=wr, exit=ex)
