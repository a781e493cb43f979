"""C04: every record version a short transaction returns is recorded for validation."""
from rulekit import *
import ops
import c01

NOTE = ("every path of the record reader and of every operation that can tell a short transaction something about a committed record: "
        "the stamp handed out is an unlocked one compared again after the value was read, and the same record and stamp enter the "
        "validation set before the call returns; commit compares every entry")

PUSH = SK + "session::push_to_read_set_for_stx"


def check(K):
    for f in (stable, pushed, seen, existing):
        K.part("C04." + f.__name__, f)
    c01.commit(K, "C04.commit", "commit of a short transaction compares the stamp of every record it read, without skipping any",
               ("tid", "epo", "lck", "absent"), "record it read")


def entry(X, st, e):
    """(record, stamp) entered into the validation set."""
    v = X.arg(st, e, 0)
    if v is None or v.kind != "rec":
        return None
    f = dict(v.args[1])
    r = [x for n, x in f.items() if n.endswith("rec_ptr_")]
    t = [x for n, x in f.items() if n.endswith("tid_")]
    return (r[0], t[0]) if r and t else None


def bit(a):
    """(bit, stamp) when the value is a bit of a record's stamp."""
    for f in ("lock_", "lock_by_gc_", "latest_", "absent_"):
        s = field_of(a, f)
        if s is not None:
            return f, s
    return None, None


def tidloc(s):
    """The location of the record's stamp a value was read from."""
    if is_aload(s):
        return s.args[3] if loc_is(s.args[3], "tidw_") else None
    return s.args[0] if s.kind == "ld" and ld_is(s, "tidw_") else None


def stable(K):
    """the record reader hands out a value only together with a stamp that was unlocked and did not change while the value was read"""
    OKV, NF, CI, CU = (K.S(n) for n in ("OK", "WARN_NOT_FOUND", "WARN_CONCURRENT_INSERT", "WARN_CONCURRENT_UPDATE"))

    def tidw(loc):
        return loc is not None and loc_is(loc, "tidw_")

    def at(X, st, e):
        if e.kind != "aload" or not tidw(e.loc):
            return
        ps = st.ps
        v = e.val
        ps["pre"] = frozenset(ps.get("pre", frozenset()) - {v})
        ps["post"] = frozenset(ps.get("post", frozenset()) | {v})
        if ps.get("unl") is v:
            ps["unl"] = None
        ps["same"] = False
        ps["n"] = 1

    def val(X, st, e):
        X.ob()
        ps = st.ps
        ps["pre"] = frozenset(ps.get("pre", frozenset()) | ps.get("post", frozenset()))
        ps["post"] = frozenset()
        ps["val"] = 1
        ps["same"] = False
        if not ps.get("unl"):
            X.bad(st, e, "read_record: reads the value although the record may be locked")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "t" or o == "==" and b is not None and b.kind == "c":
            yes = t if o == "t" else t == bool(b.args[0])
            f, s = bit(a)
            if f == "lock_":
                ps["unl"] = None if yes else s
                ps["lk"] = yes
                ps["latest_"] = ps["absent_"] = None
            elif f in ("latest_", "absent_"):
                if s.kind == "u" and ps.get(f) is not None and ps[f] != yes:
                    # a value the analysis lost track of: not a real path
                    ps["imp"] = 1
                ps[f] = yes
        elif o == "==":
            x, y = a, b
            pre, post = ps.get("pre", frozenset()), ps.get("post", frozenset())
            vague = x.kind == "u" or y.kind == "u" or not ps.get("val")
            if x in pre and y in post or y in pre and x in post or vague and (x in post or y in post):
                ps["same"] = t
                if not t:
                    # a new attempt
                    ps["val"] = 0
                    ps["pre"] = frozenset()

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if c is None:
            X.badfn(st, fn, "read_record: outcome not decided by the stamp")
            return
        n = K.status_name(c)
        if ps.get("absent_") is False and ps.get("latest_") is False or ps.get("imp"):
            # no such stamp
            return
        if c in (OKV, NF):
            if ps.get("lk") is not False:
                X.badfn(st, fn, "read_record: returns %s although the record may be locked" % n)
            if not ps.get("same"):
                X.badfn(st, fn, "read_record: returns %s although the stamp may have changed while reading" % n)
            if not ps.get("out"):
                X.badfn(st, fn, "read_record: returns %s without handing out the stamp" % n)
        if c == OKV:
            if ps.get("absent_") is not False:
                X.badfn(st, fn, "read_record: returns OK for a record that may be absent")
            if ps.get("want") is not False and not ps.get("val"):
                X.badfn(st, fn, "read_record: returns OK without having read the value")
        if c == NF and (ps.get("absent_") is not True or ps.get("latest_") is not False):
            X.badfn(st, fn, "read_record: reports a record as deleted that may not be")

    def wr(X, st, e):
        if e.loc is not None and e.loc.kind == "deref" or str(e.loc).startswith("*tid"):
            v = e.val
            ps = st.ps
            known = ps.get("pre", frozenset()) | ps.get("post", frozenset())
            ps["out"] = v in known or v.kind == "u"

    def br2(X, st, e):
        br(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        if o == "t" and is_param(a, 3):
            st.ps["want"] = t
    K.run("C04.stable", stable.__doc__, "read_record", minimum=6, stop=q("Record::get_value tid_word::lock tid_word::unlock"),
          call={SK + "Record::get_value": val}, atomic=at, branch=br2, anywrite=wr, exit=ex)


def pushed(K):
    """what the record reader told a short transaction enters its validation set, same record and same stamp, before the call returns"""
    W = ops.Watch(K)
    OKV, NF, CI, CU, CC = (K.S(n) for n in ("OK", "WARN_NOT_FOUND", "WARN_CONCURRENT_INSERT", "WARN_CONCURRENT_UPDATE", "ERR_CC"))

    def rr(X, st, e):
        X.ob()
        ps = st.ps
        if ps.get("want"):
            X.bad(st, e, "%s: reads another record before the one read was entered in the validation set" % X.root)
        ps["rec"] = X.arg(st, e, 0)
        ps["loc"] = e.args[1][1] if len(e.args) > 1 else None
        ps["want"] = True
        ps["rr"] = None
        ps["rrne"] = ()
        ps["res"] = e.val

    def push(X, st, e):
        X.ob()
        ps = st.ps
        if not ps.get("want"):
            return
        en = entry(X, st, e)
        if en is None:
            X.bad(st, e, "%s: cannot tell which record enters the validation set" % X.root)
            return
        tid = X.V(st, (None, ps["loc"])) if ps.get("loc") is not None else None
        if ps.get("rec") is not None and en[0] is not ps["rec"]:
            X.bad(st, e, "%s: another record than the one read enters the validation set" % X.root)
        if tid is not None and en[1] is not tid:
            X.bad(st, e, "%s: another stamp than the one read enters the validation set" % X.root)
        ps["want"] = False

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if ps.get("res") is None or ps.get("ab"):
            return
        rrc = ps.get("rr")
        if rrc is None and c is not None and v is ps["res"]:
            rrc = c
        if rrc in (CU, CI):
            if c == OKV:
                X.badfn(st, fn, "%s: reports OK although the record was being written" % X.root)
            return
        if ps.get("want"):
            X.badfn(st, fn, "%s: returns what it read without entering it in the validation set" % X.root)
        if rrc == NF and c == OKV:
            X.badfn(st, fn, "%s: reports OK although the record is deleted" % X.root)
        if rrc is None and c == OKV and OKV not in ps.get("okd", ()) and v is not ps["res"]:
            # the result is not the reader's: it must have been found to be OK
            X.badfn(st, fn, "%s: reports OK whatever the record reader found" % X.root)

    def abort(X, st, e):
        st.ps["ab"] = 1
    for r in ops.POINTS + ("read_key_from_scan", "read_value_from_scan"):
        K.run("C04.pushed", pushed.__doc__, r, minimum=4, stop=ops.STOP, call={PUSH: push, SK + "short_tx::abort": abort}, after={SK + "read_record": rr}, branch=W.branch, exit=ex, root=r,
              merge_block=200, merge_exits=100)


def seen(K):
    """a deleted record that a scan of a short transaction passes over enters its validation set with the stamp that showed the deletion"""
    W = ops.Watch(K)

    def br(X, st, e):
        W.branch(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o not in ("t", "==") or o == "==" and (b is None or b.kind != "c"):
            return
        yes = t if o == "t" else t == bool(b.args[0])
        f, s = bit(a)
        if f in ("absent_", "latest_") and tidloc(s) is not None:
            if ps.get("st") is not s:
                ps["st"] = s
                ps["absent"] = ps["latest"] = None
            ps[f[:-1]] = yes
            gone = ps.get("absent") and (ps.get("latest") is False or X.root in ops.WRITES)
            if gone and ps.get("own") is not True:
                X.ob()
                ps["del"] = s

    def push(X, st, e):
        en = entry(X, st, e)
        ps = st.ps
        if en is None or ps.get("del") is None:
            return
        X.ob()
        s = ps["del"]
        if en[1] is not s:
            X.bad(st, e, "%s: another stamp than the one that showed the deletion enters the validation set" % X.root)
        loc = tidloc(s)
        if not mentions(loc, lambda x: x is en[0]):
            X.bad(st, e, "%s: another record than the deleted one enters the validation set" % X.root)
        ps["del"] = None

    def left(X, st, where):
        ps = st.ps
        if ps.get("del") is not None and W.SHORT in W.types(st) and "early" not in ps:
            X.bad(st, where, "%s: passes over a deleted record without entering it in the validation set of a short transaction" % X.root)
        ps["del"] = None

    def at(X, st, e):
        if e.kind == "aload" and loc_is(e.loc, "tidw_"):
            left(X, st, e)

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("del") is not None and W.SHORT in W.types(st) and "early" not in st.ps:
            X.badfn(st, fn, "%s: passes over a deleted record without entering it in the validation set of a short transaction" % X.root)

    for r in ("next", "open_scan", "update", "delete_record"):
        K.run("C04.seen", seen.__doc__, r, minimum=6, stop=ops.STOP, call={PUSH: push, SK + "local_write_set::search": left}, atomic=at, branch=br, exit=ex, root=r,
              merge_block=200, merge_exits=100)


def existing(K):
    """an insert refused because the key exists enters the existing record in the validation set with the stamp that showed it"""
    W = ops.Watch(K)
    AE = K.S("WARN_ALREADY_EXISTS")

    def conv(X, st, e):
        X.ob()
        st.ps["rec"] = X.arg(st, e, 2)
        st.ps["loc"] = e.args[3][1]
        st.ps["conv"] = None
        st.ps["ok"] = False
        st.ps["called"] = 1

    def push(X, st, e):
        en = entry(X, st, e)
        ps = st.ps
        if en is None or not ps.get("called"):
            return
        X.ob()
        tid = X.V(st, (None, ps["loc"]))
        ps["ok"] = (ps["rec"] is None or en[0] is ps["rec"]) and (tid is None or en[1] is tid)
        if ps.get("conv") == AE and not ps["ok"]:
            X.bad(st, e, "insert: another record or stamp than the existing one enters the validation set")

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if X.const(st, v) == AE and ps.get("called") and ps.get("own") is not True and W.SHORT in W.types(st) and not ps.get("ok"):
            X.badfn(st, fn, "insert: tells a short transaction that the key exists without entering the record in the validation set")
    K.run("C04.existing", existing.__doc__, "insert", minimum=4, stop=ops.STOP, call={PUSH: push},
          after={SK + "try_deleted_to_inserting": conv}, branch=W.branch, exit=ex, root="insert", merge_block=200, merge_exits=100)

    # the stamp handed out shows a record that exists
    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "t" or o == "==" and b is not None and b.kind == "c":
            yes = t if o == "t" else t == bool(b.args[0])
            if bit(a)[0] == "absent_":
                st.ps["absent"] = yes

    def wr(X, st, e):
        if str(e.loc).startswith("*found_tid") or e.loc is not None and e.loc.kind == "deref":
            st.ps["out"] = e.val

    def ex2(X, st, v, fn):
        X.ob()
        ps = st.ps
        if X.const(st, v) != AE:
            return
        if ps.get("absent") is not False:
            X.badfn(st, fn, "try_deleted_to_inserting: reports an existing record although it may be absent")
        if ps.get("out") is None:
            X.badfn(st, fn, "try_deleted_to_inserting: reports an existing record without handing out the stamp")
    K.run("C04.existing", existing.__doc__, "try_deleted_to_inserting", minimum=3, stop=q("tid_word::lock tid_word::unlock get"),
          branch=br, anywrite=wr, exit=ex2)
