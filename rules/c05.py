"""C05: long and read-only transactions read exactly their snapshot."""
from rulekit import *
import ops

NOTE = ("every path of the point reads, cursor reads and cursor movements of long and read-only transactions: which version is taken, "
        "stepped over or skipped is compared with what the path learned about its epoch and absence, and about the record's stamp "
        "staying the same around the read")

VALUE = SK + "version::get_value"
SEARCH = SK + "local_write_set::search"
VER = q("long_tx::version_function_with_optimistic_check long_tx::version_function_without_optimistic_check long_tx::version_traverse_and_read")
STOP = ops.STOP - VER


def check(K):
    for f in (read, skip):
        K.part("C05." + f.__name__, f)


def tidloc(s):
    if is_aload(s):
        return s.args[3] if loc_is(s.args[3], "tidw_") else None
    return s.args[0] if s.kind == "ld" and ld_is(s, "tidw_") else None


def what(base):
    """Whose stamp is it: the record's, a version's, or one the engine lost track of."""
    if tidloc(base) is not None:
        return "rec"
    if ld_is(base, "tid_") or is_aload(base) and loc_is(base.args[3], "tid_"):
        return "ver"
    return "u" if base.kind == "u" else None


def snap(t):
    return t is not None and mentions(t, lambda x: ld_is(x, "valid_epoch_") or is_aload(x) and loc_is(x.args[3], "valid_epoch_"))


class Walk:
    """What a path knows about the version it looks at."""

    def __init__(self, K, mode):
        self.K = K
        self.mode = mode

    def start(self, X, st):
        st.ps["alive"] = 1

    def branch(self, X, st, e):
        """Returns (bit, whose, truth) for a condition on a stamp."""
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==" and a.kind == "c":
            a, b = b, a
        if ld_is(a, "tx_type_") and o == "==" and b.kind == "c" and t != (b.args[0] == self.mode):
            ps.pop("alive", None)
        if "alive" not in ps:
            return None
        if is_result(a, SEARCH):
            yes = t if o == "t" else not t if b is ZERO else None
            if yes is not None:
                ps["own"] = yes
        elif ld_is(a, "op_") and o == "==" and b.kind == "c":
            if b.args[0] == self.K.OP("DELETE"):
                ps["del"] = t
            elif t:
                ps["del"] = False
        elif is_result(a, SK + "get") and o == "==" and b.kind == "c":
            ps["got"] = t if b.args[0] == self.K.S("OK") else False if t else ps.get("got")
        if o == "<":
            for x, y, strict in ((a, b, True), (b, a, False)):
                base = field_of(x, "epoch_")
                if base is not None and what(base) and snap(y):
                    X.ob()
                    if not strict:
                        X.bad(st, e, "%s: takes a version of the epoch of the snapshot itself as part of it" % X.root)
                    return "epoch", base, t if strict else not t
        if o == "==" and b is not None and b is not ZERO:
            x, y = tidloc(a), tidloc(b)
            if x is not None and y is not None and canon(x) is canon(y) and (a is ps.get("stamp") or b is ps.get("stamp")):
                return "same", ps.get("stamp"), t
        if o == "t" or o == "==" and b.kind == "c":
            yes = t if o == "t" else t == bool(b.args[0])
            for f in ("lock_", "absent_", "latest_", "epoch_"):
                base = field_of(a, f)
                if base is not None and what(base):
                    if f == "epoch_":
                        return ("zero", base, not yes) if o == "t" or b is ZERO else None
                    return f[:-1], base, yes
        if o in ("t", "==") and (b is None or b is ZERO) and (is_aload(a) and loc_is(a.args[3], "next_") or a.kind == "u"):
            return "null", a, (not t) if o == "t" else t
        return None


def read(K):
    """a long or read-only transaction returns the newest version before its snapshot epoch, from a stamp that stayed the same, or says there is none"""
    OKV, NF = K.S("OK"), K.S("WARN_NOT_FOUND")
    ty = SK + "transaction_options::transaction_type"

    def br(X, st, e):
        r = X.W.branch(X, st, e)
        ps = st.ps
        if r is None:
            return
        k, base, t = r
        w = what(base) if k != "null" else None
        if k == "epoch":
            if w == "rec":
                if ps.get("unl") is not base:
                    X.bad(st, e, "%s: judges a record by a stamp that may be locked by a writer" % X.root)
                ps.update(stamp=base, vis=t, at="rec", ab=None, same=None, null=None, val=None)
            else:
                ps.update(vis=t, at="ver", ab=None)
        elif k == "lock" and w == "rec":
            ps["unl"] = None if t else base
        elif k == "absent":
            if w == "ver" and ps.get("at") == "ver" or w == "rec" and ps.get("stamp") is base and ps.get("at") == "rec" or w == "u":
                if ps.get("ab") is (not t):
                    # the version was found to be the other way on this path
                    ps.pop("alive")
                ps["ab"] = t
        elif k == "same":
            ps["same"] = t
        elif k == "null":
            if t:
                ps["null"] = 1

    def at(X, st, e):
        ps = st.ps
        if "alive" not in ps or e.kind != "aload":
            return
        if loc_is(e.loc, "next_"):
            X.ob()
            if ps.get("vis") is not False:
                X.bad(st, e, "%s: steps to an older version without having found the newer one outside the snapshot" % X.root)
            ps.update(vis=None, at="ver", ab=None, null=None)
        elif loc_is(e.loc, "tidw_"):
            ps["lp"] = None
        elif loc_is(e.loc, "latest_"):
            ps["lp"] = e.val

    def val(X, st, e):
        ps = st.ps
        if "alive" not in ps:
            return
        X.ob()
        if ps.get("vis") is not True:
            X.bad(st, e, "%s: reads the value of a version that is not known to be before the snapshot epoch" % X.root)
        if ps.get("ab") is not False:
            X.bad(st, e, "%s: reads the value of a version that is not known to exist" % X.root)
        r = X.recv(st, e) or e.recv[1]
        if ps.get("at") == "rec":
            p = ps.get("lp")
            if p is None:
                X.bad(st, e, "%s: the version read was taken from the record before its stamp" % X.root)
            elif r is not None and e.recv[1] is not None and e.recv[1].kind != "u" and not mentions(e.recv[1], lambda x: x is p):
                X.bad(st, e, "%s: reads the value of another version than the record's newest" % X.root)
        elif e.recv[1] is not None and e.recv[1].kind != "u" and not mentions(e.recv[1], lambda x: x.kind == "u" or is_aload(x) and loc_is(x.args[3], "next_")):
            X.bad(st, e, "%s: reads the value of another version than the one found" % X.root)
        ps["val"] = 1
        ps["same"] = None

    def ex(X, st, v, fn):
        ps = st.ps
        if "alive" not in ps or ps.get("own") is True or "vis" not in ps:
            return
        ok, nf = X.outcome(st, v, OKV), X.outcome(st, v, NF)
        if ok == "ok":
            X.ob()
            if ps.get("vis") is not True:
                X.badfn(st, fn, "%s: succeeds without a version known to be before the snapshot epoch" % X.root)
            if ps.get("ab") is not False:
                X.badfn(st, fn, "%s: succeeds though the version of the snapshot may be a deletion" % X.root)
            if X.value and not ps.get("val"):
                X.badfn(st, fn, "%s: succeeds without reading the value of the version" % X.root)
        elif nf == "ok":
            X.ob()
            if not (ps.get("null") or ps.get("vis") is True and ps.get("ab") is True):
                X.badfn(st, fn, "%s: answers that nothing is there though the snapshot may hold a version" % X.root)
        if (ok == "ok" or nf == "ok" and not ps.get("null")) and ps.get("at") == "rec" and ps.get("same") is not True:
            X.badfn(st, fn, "%s: answers from the record's newest version without its stamp being the same after the read" % X.root)
    for m in ("LONG", "READ_ONLY"):
        W = Walk(K, K.eng.enum(ty, m))
        for r in ("search_key", "exist_key", "read_value_from_scan", "read_key_from_scan"):
            K.run("C05.read", read.__doc__, r, minimum=10, stop=STOP, start=W.start, branch=br, atomic=at, call={VALUE: val}, exit=ex, root="%s (%s)" % (r, m), W=W,
                  value=r in ("search_key", "read_value_from_scan"), merge_block=300, merge_exits=100)


def skip(K):
    """a cursor of a long or read-only transaction passes over a record only when its snapshot holds no version of it"""
    LIMIT, NF = K.S("WARN_SCAN_LIMIT"), K.S("WARN_NOT_FOUND")
    ty = SK + "transaction_options::transaction_type"
    KEYS = ("stamp", "vis", "at", "ab", "lat", "zero", "null", "own", "del", "vab")

    def done(X, st, where, fn=None):
        """The record looked at so far is left behind."""
        ps = st.ps
        if "alive" not in ps or ps.get("stamp") is None:
            return
        X.ob()
        why = None
        if ps.get("own") is True and ps.get("del") is not False:
            pass
        elif ps.get("null") or ps.get("zero"):
            pass
        elif ps.get("at") == "ver":
            if not (ps.get("vis") is True and ps.get("ab") is True):
                why = "an older version may be part of the snapshot"
        elif not (ps.get("vis") is True and ps.get("ab") is True):
            why = "its versions were not looked at"
        if why:
            m = "%s: passes over a record though %s" % (X.root, why)
            X.badfn(st, fn, m) if fn is not None else X.bad(st, where, m)

    def fresh(ps):
        for k in KEYS:
            ps.pop(k, None)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        for x in (a, b):
            for f in ("absent_", "epoch_", "latest_"):
                s = field_of(x, f) if x is not None else None
                if s is not None and what(s) == "rec" and s is not ps.get("stamp"):
                    if ps.get("stamp") is not None and canon(tidloc(s)) is not canon(tidloc(ps["stamp"])):
                        done(X, st, e)
                        fresh(ps)
                    ps["stamp"] = s
                    ps["at"] = "rec"
                    ps["pend"] = 0
        r = X.W.branch(X, st, e)
        if is_result(a, SEARCH):
            ps["pend"] = 0
        if r is None:
            return
        k, base, t = r
        w = what(base) if k != "null" else None
        if k == "epoch":
            ps.update(vis=t, at="rec" if w == "rec" else "ver")
            if w != "rec":
                ps["ab"] = None
        elif k == "absent":
            if w == "rec" and ps.get("at") == "rec":
                ps["ab"] = t
            elif w != "rec" and ps.get("at") == "ver":
                ps["ab"] = t
        elif k == "zero":
            if t:
                ps["zero"] = 1
        elif k == "null":
            if t:
                ps["null"] = 1

    def at(X, st, e):
        ps = st.ps
        if "alive" not in ps or e.kind != "aload" or not loc_is(e.loc, "next_"):
            return
        X.ob()
        if ps.get("at") == "ver" and ps.get("vis") is not False:
            X.bad(st, e, "%s: steps over a version without having found it outside the snapshot" % X.root)
        if ps.get("at") == "rec" and ps.get("vis") is not False and ps.get("ab") is not True:
            X.bad(st, e, "%s: steps over the newest version without having found it outside the snapshot" % X.root)
        ps.update(vis=None, at="ver", ab=None)

    def wr(X, st, e):
        if e.loc is not None and loc_is(e.loc, "scan_index_") and "alive" in st.ps and e.val is not None and e.val.kind == "op" and X.root.startswith("next"):
            if st.ps.get("pend") == 1:
                X.ob()
                X.bad(st, e, "%s: passes over a record without looking at it" % X.root)
            done(X, st, e)
            fresh(st.ps)
            st.ps["pend"] = 1

    def ex(X, st, v, fn):
        if any(X.outcome(st, v, s) == "ok" for s in (LIMIT, NF)):
            done(X, st, None, fn)
    for m in ("LONG", "READ_ONLY"):
        W = Walk(K, K.eng.enum(ty, m))
        for r in ("next", "open_scan"):
            K.run("C05.skip", skip.__doc__, r, minimum=10, stop=STOP, start=W.start, branch=br, atomic=at, anywrite=wr, exit=ex, root="%s (%s)" % (r, m), W=W,
                  merge_block=400, merge_exits=200)
