"""C30: new versions are published completely and stamped with their commit order."""
from rulekit import *
from publish import *

NOTE = ("per write-set entry: value and link complete before the record is stamped, previous version keeps its stamp, in-place "
        "overwrite only inside one epoch, stamp derived from the maximum of everything read, overwritten and issued before")


def check(K):
    short_rules(K)
    long_rules(K)
    stores(K)


is_rec_tid = rec_tid


def stampish(t):
    """A whole stamp rather than a part of one."""
    return t is not None and (t.kind == "rec" or is_rec_tid(whole(t), None) or ld_is(whole(t), "mrc_tid_"))


def whole(t):
    """The stamp whose raw word is t."""
    f = field_of(t, "obj_")
    return t if f is None else f


def unknown(t):
    return t is not None and t.kind == "u"


class Publish:
    def __init__(self, K, long):
        self.K = K
        self.long = long
        self.DEL = K.OP("DELETE")

    def op(self, X, st, rec):
        """'del', 'put' or None for the operation of the entry of this record."""
        w = wso_of(rec)
        if w is None:
            return None
        for t, c in st.eq.items():
            if ld_is(t, "op_") and t.args[0].args[0] is w:
                return "del" if c == self.DEL else "put"
        for t, cs in st.ne.items():
            if ld_is(t, "op_") and t.args[0].args[0] is w and self.DEL in cs:
                return "put"
        return None

    # -- facts
    def lock(self, X, st, e):
        for k in ("e0", "t0", "abs", "same", "newer", "older"):
            st.ps.pop(k, None)
        st.ps["stale"] = st.ps.get("seen", ())

    def branch(self, X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps

        def rec_tid(x, rec):
            """A stamp of a record to be written, read after its lock was taken."""
            if not is_rec_tid(x, rec) or in_container(x, "read_set_for_stx_") or x in ps.get("stale", ()):
                return False
            if x not in ps.get("seen", ()):
                ps["seen"] = ps.get("seen", ()) + (x,)
            return True

        def epoch_of_rec(x):
            f = field_of(x, "epoch_")
            return f is not None and rec_tid(f, None)
        if o == "<":
            if stampish(a) or stampish(b):
                ps["ge"] = ps.get("ge", ()) + (((b, a) if t else (a, b)),)
            if epoch_of_rec(a) and not epoch_of_rec(b):
                ps["older" if t else "notolder"] = 1
                if not t:
                    ps["same"] = ps.get("same") or ("ge" if self.long else 1)
                else:
                    ps.pop("same", None)
            elif epoch_of_rec(b) and not epoch_of_rec(a):
                if t:
                    ps["newer"] = 1
                    ps.pop("same", None)
            f = field_of(a, "tid_")
            if f is not None and ld_is(b, "long_tx_id_"):
                ps["lid" if rec_tid(f, None) else "mlid"] = 1 if t else 0
            # position in the version list
            f = field_of(a, "epoch_")
            if t and f is not None and not rec_tid(f, None):
                ps["pos"] = 1
            for x in (a, b):
                if x is not None and (rec_tid(x, None) or (field_of(x, "obj_") is not None)):
                    ps["max_w"] = 1
        elif o == "==":
            for x, y in ((a, b), (b, a)):
                if epoch_of_rec(x):
                    if y is ZERO:
                        ps["e0"] = 1 if t else 0
                    elif t:
                        ps["same"] = 1
                    elif not self.long:
                        ps["older"] = 1
                    elif ps.get("same") == "ge":
                        ps["newer"] = 1
                        ps.pop("same", None)
                f = field_of(x, "tid_")
                if f is not None and rec_tid(f, None) and y is ZERO:
                    ps["t0"] = 1 if t else 0
                if t and y is ZERO and (is_aload(x) and loc_is(x.args[3], "next_") or unknown(x) and ps.get("newer")):
                    ps["pos"] = 1
        else:
            if not t and (is_aload(a) and loc_is(a.args[3], "next_") or unknown(a) and ps.get("newer")):
                ps["pos"] = 1
            f = field_of(a, "absent_")
            if f is not None and rec_tid(f, None):
                ps["abs"] = 1 if t else 0
            f = field_of(a, "by_short_")
            if f is not None:
                ps["bys" if rec_tid(f, None) else "mbys"] = 1 if t else 0
            if ld_is(a, "is_forwarding_") or (is_aload(a) and loc_is(a.args[3], "is_forwarding_")):
                ps["fwd"] = 1 if t else 0

    # -- events
    def built(self, X, st, e):
        st.ps["built"] = tuple(X.arg(st, e, i) for i in range(len(e.args)))

    def vset_value(self, X, st, e):
        v = X.arg(st, e, 0)
        r = X.recv(st, e)
        if r is not None and r.kind == "d" and r.args[0].kind == "new":
            st.ps["built"] = st.ps.get("built", ()) + (v,)
            return
        if r is not None and r.kind == "d" and is_aload(r.args[0]) and loc_is(r.args[0].args[3], "latest_"):
            self.inplace(X, st, e, r.args[0].args[3].args[0], v)
        else:
            ps = st.ps
            X.ob()
            if not (ps.get("fwd") == 0 and ps.get("mbys") == 0 and ps.get("mlid") == 1):
                X.bad(st, e, "replaces a version of the same epoch without being ordered after it")
            ps["mid_val"] = 1

    def set_value(self, X, st, e):
        self.inplace(X, st, e, X.recv(st, e), X.arg(st, e, 0))

    def inplace(self, X, st, e, rec, v):
        ps = st.ps
        X.ob()
        if ps.get("done"):
            X.bad(st, e, "changes the value of a record after its stamp was published and its lock released")
        if not is_wval(v) and self.op(X, st, rec) == "put":
            X.bad(st, e, "stores something other than the value of the write")
        fresh = ps.get("e0") and ps.get("t0") and ps.get("abs")
        if not fresh and ps.get("same") != 1:
            X.bad(st, e, "overwrites the newest version in place although it may belong to an earlier epoch")
        ps["pub"] = "inplace"

    def old_tid(self, X, st, e):
        r = X.recv(st, e)
        v = X.arg(st, e, 0)
        if r is not None and r.kind == "d" and r.args[0].kind == "new":
            return
        if r is None or not (r.kind == "d" and is_aload(r.args[0]) and loc_is(r.args[0].args[3], "latest_")):
            if st.ps.get("mid_val") and not st.ps.get("done"):
                self.mid_stamp(X, st, e, v)
            return
        rec = r.args[0].args[3].args[0]
        X.ob()
        base, over = split(v)
        if not rec_tid(base, rec):
            X.bad(st, e, "the previous version does not keep the stamp of its record")
            return
        for f, x in over.items():
            if f in ("latest_", "lock_", "lock_by_gc_"):
                continue
            if field_of(x, f) is not None and rec_tid(field_of(x, f), rec):
                continue
            X.bad(st, e, "the previous version loses its %s" % {"absent_": "deleted or alive mark"}.get(f, f.rstrip("_")))
        st.ps["old"] = 1

    def mid_stamp(self, X, st, e, v):
        base, over = split(v)
        if "tid_" in over and not ld_is(over["tid_"], "long_tx_id_") and not unknown(over["tid_"]):
            X.bad(st, e, "a version in the middle of the list is stamped with another transaction's id")

    def link(self, X, st, e):
        ps = st.ps
        rec = X.recv(st, e)
        X.ob()
        if ps.get("done"):
            X.bad(st, e, "links a new version after the record's stamp was published and its lock released")
        b = ps.get("built")
        if b is None:
            X.bad(st, e, "links a version that was not built before")
            return
        if not any(x is not None and is_aload(x) and loc_is(x.args[3], "latest_") and x.args[3].args[0] is rec for x in b):
            X.bad(st, e, "the new version does not continue with the previous versions of its record")
        if self.op(X, st, rec) == "put" and not any(x is not None and is_wval(x) for x in b):
            X.bad(st, e, "the new version is linked without the value of the write")
        if not ps.get("older"):
            X.bad(st, e, "puts a new version in front of a state that may not be older")
        if not ps.get("old"):
            X.bad(st, e, "links a new version before the previous one got its stamp")
        ps["pub"] = "linked"

    def set_next(self, X, st, e):
        ps = st.ps
        r = X.recv(st, e)
        v = X.arg(st, e, 0)
        if r is not None and r.kind == "d" and r.args[0].kind == "new":
            ps["built"] = ps.get("built", ()) + (v,)
            return
        X.ob()
        b = ps.get("built")
        if b is None:
            X.bad(st, e, "links a version that was not built before")
            return
        nexts = [x for x in b if x is not None and (is_aload(x) and loc_is(x.args[3], "next_") or unknown(x) or x is ZERO)]
        ok = any(unknown(x) or x is ZERO or canon(x.args[3].args[0]) is canon(r) or mentions(x, unknown) for x in nexts)
        if not ok and not any(x is not None and x.kind == "c" for x in b):
            X.bad(st, e, "a version placed in the middle of the list does not continue with the versions after it")
        ops = [c for t, c in st.eq.items() if ld_is(t, "op_")]
        if ops and self.DEL not in ops and not any(x is not None and is_wval(x) for x in b):
            X.bad(st, e, "a version placed in the middle of the list does not hold the value of the write")
        if not ps.get("pos"):
            X.bad(st, e, "a version is placed in the list before a version that is not older")
        ps["pub"] = "middle"

    def unlock(self, X, st, e):
        if st.ps.get("newer"):
            st.ps["done"] = "middle"

    def stamp_flags(self, over, base):
        def g(f):
            x = over.get(f)
            if x is not None:
                return x
            if ld_is(base, "mrc_tid_"):
                return {"lock_": ZERO, "absent_": ZERO, "latest_": ONE, "by_short_": ONE}.get(f)
            if base is ZERO:
                return ZERO
            return None
        return g

    def stamp(self, X, st, e):
        ps = st.ps
        rec = X.recv(st, e)
        v = X.arg(st, e, 0)
        base, over = split(v)
        w = wso_of(rec)
        if w is None:
            return
        if rec_tid(base, rec) and not self.long:
            return  # placeholder marks while locking
        X.ob()
        if unknown(v) or unknown(base):
            ps["done"] = 1
            return
        g = self.stamp_flags(over, base)
        op = self.op(X, st, rec)
        if ps.get("done"):
            X.bad(st, e, "stamps a record again after its lock was released")
        lk = g("lock_")
        if lk is None or lk is not ZERO:
            X.bad(st, e, "the published stamp does not release the record's lock")
        invisible = False
        if self.long:
            t = g("tid_")
            invisible = t is not None and field_of(t, "tid_") is not None and rec_tid(field_of(t, "tid_"), rec)
            ep = g("epoch_")
            if not (ld_is(ep, "valid_epoch_") or unknown(ep)):
                X.bad(st, e, "the stamp of a long transaction's write does not carry its epoch")
            if invisible:
                for f in ("by_short_", "latest_", "absent_"):
                    x = g(f)
                    if not (x is not None and field_of(x, f) is not None and rec_tid(field_of(x, f), rec)):
                        X.bad(st, e, "a write ordered before the present state changes its %s" % f.rstrip("_"))
                if ps.get("pub"):
                    X.bad(st, e, "a write ordered before the present state replaces its value")
                if ps.get("same") == 1 and ps.get("fwd") == 0 and ps.get("bys") == 0 and ps.get("lid") == 1:
                    X.bad(st, e, "a write ordered after the present state is dropped")
            else:
                if not (ld_is(t, "long_tx_id_") or unknown(t)):
                    X.bad(st, e, "the stamp of a long transaction's write does not carry its id")
                if g("by_short_") is not ZERO:
                    X.bad(st, e, "the stamp of a long transaction's write is marked as a short transaction's")
                if ps.get("same") == 1 and not (ps.get("fwd") == 0 and ps.get("bys") == 0 and ps.get("lid") == 1):
                    X.bad(st, e, "replaces a state of the same epoch without being ordered after it")
        else:
            if not ld_is(base, "mrc_tid_") and not self.is_max(base):
                X.bad(st, e, "the record is not stamped with the commit stamp")
            for f in ("epoch_", "tid_", "by_short_"):
                if f in over and ld_is(base, "mrc_tid_"):
                    X.bad(st, e, "the record's stamp differs from the commit stamp in its %s" % f.rstrip("_"))
        if not invisible:
            ab = g("absent_")
            if op == "del" and ab is not ONE:
                X.bad(st, e, "a deletion is not marked as deleted")
            if op == "put":
                if ab is not ZERO:
                    X.bad(st, e, "a write that is not a deletion is marked as deleted")
                if g("latest_") is not ONE:
                    X.bad(st, e, "a write is not marked as the newest state")
                if not ps.get("pub"):
                    X.bad(st, e, "a record is stamped before its value is in place")
            if op == "del" and not ps.get("pub") and ps.get("same") != 1:
                X.bad(st, e, "a deletion overwrites a version of an earlier epoch")
        ps["done"] = 1

    def is_max(self, t):
        return mentions(t, lambda x: x.kind == "op" and x.args[0] == "max")

    def exit(self, X, st, v, fn):
        if X.const(st, v) == self.K.S("OK"):
            X.ob()
            if not st.ps.get("done"):
                X.badfn(st, fn, "reports success without publishing a write")

    # -- the commit stamp of short transactions
    def anywrite(self, X, st, e):
        v = e.val
        if v is None or v.kind != "op" or v.args[0] != "max":
            return
        if any(rec_tid(x, None) and in_container(x, "read_set_for_stx_") for x in v.args[1:]):
            st.ps["max_r"] = 1
        if any(rec_tid(x, None) and not in_container(x, "read_set_for_stx_") for x in v.args[1:]):
            st.ps["max_w"] = 1

    def mrc(self, X, st, e):
        X.ob()
        v = X.arg(st, e, 0)
        base, over = split(v)
        for f, want, txt in (("lock_", ZERO, "locked"), ("absent_", ZERO, "deleted")):
            if over.get(f) is not want:
                X.bad(st, e, "the commit stamp may be marked as " + txt)
        for f, txt in (("latest_", "the newest state"), ("by_short_", "a short transaction's")):
            if over.get(f) is not ONE:
                X.bad(st, e, "the commit stamp is not marked as " + txt)
        leaves = []  # (stamp, changed parts, counted up) the new stamp is not below

        def walk(t, inc):
            b, o = split(t)
            bump = inc or ("tid_" in o and mentions(o["tid_"], lambda x: x.kind == "op" and x.args[0] == "+"))
            if b.kind == "op" and b.args[0] == "max":
                for x in b.args[1:]:
                    walk(x, bump)
            else:
                leaves.append((b, o, bump))
        walk(v, False)
        # stamps known not to exceed the one chosen by comparing
        def core(t):
            b, o = split(whole(t))
            return (b, o.get("tid_"), o.get("epoch_"))
        top, grown = [core(v)], True
        while grown:
            grown = False
            for hi, lo in st.ps.get("ge", ()):
                if core(hi) in top and core(lo) not in top:
                    top.append(core(lo))
                    walk(whole(lo), False)
                    grown = True
        if unknown(base) or any(unknown(x[0]) for x in top):
            return
        if not any(ld_is(b, "mrc_tid_") and i for b, o, i in leaves):
            X.bad(st, e, "the commit stamp is not newer than the session's previous one")
        if not any("epoch_" in o and is_result(o["epoch_"], SK + "epoch::get_global_epoch") for b, o, i in leaves):
            X.bad(st, e, "the commit stamp does not carry the commit epoch")
        acc = [x for x in leaves if not ld_is(x[0], "mrc_tid_") and "epoch_" not in x[1]]
        if not any(i for b, o, i in acc):
            X.bad(st, e, "the commit stamp is not newer than what the transaction read or overwrites")
        if not st.ps.get("max_w"):
            X.bad(st, e, "the stamp of a record to be overwritten does not enter the commit stamp")
        if not st.ps.get("max_r"):
            X.bad(st, e, "the stamp of a record that was read does not enter the commit stamp")


def short_rules(K):
    P = Publish(K, False)
    K.run("C30.short", "a short commit builds, links and stamps every written record in order", "short_tx::commit",
          minimum=100, stop=SSTOP, nonempty=True, once=True, merge_block=600,
          call={SK + "version::version": P.built, SK + "version::set_value": P.vset_value, SK + "Record::set_value": P.set_value,
                SK + "version::set_tid": P.old_tid, SK + "Record::set_latest": P.link, SK + "Record::set_tid": P.stamp,
                SK + "version::set_next": P.set_next, SK + "session::set_mrc_tid": P.mrc},
          branch=P.branch, exit=P.exit, anywrite=P.anywrite)


def long_rules(K):
    P = Publish(K, True)
    K.run("C30.long", "a long commit builds, links and stamps every written record in order", "long_tx::commit",
          minimum=100, stop=LSTOP, nonempty=True, once=True, merge_block=60,
          call={SK + "version::version": P.built, SK + "version::set_value": P.vset_value, SK + "Record::set_value": P.set_value,
                SK + "version::set_tid": P.old_tid, SK + "Record::set_latest": P.link, SK + "Record::set_tid": P.stamp,
                SK + "version::set_next": P.set_next, SK + "tid_word::unlock": P.unlock, SK + "tid_word::lock": P.lock},
          branch=P.branch, exit=P.exit)


def stores(K):
    K.part("C30.stores", store_rules)


def store_rules(K):
    """the setters of records and versions store what they are given, and stamps compare by epoch first"""
    stored(K, "C30.store", "Record::set_latest", "latest_")
    stored(K, "C30.store", "version::set_next", "next_")
    stored(K, "C30.store", "version::set_tid", "tid_")
    stored(K, "C30.store", "session::set_mrc_tid", "mrc_tid_")
    stored(K, "C30.store", "Record::set_tid", "tidw_")
    stored(K, "C30.store", "version::set_value", "value_")
    for fid in K.fns("version::version"):
        fn = K.eng.fns[fid]
        for i, p in enumerate(fn["params"]):
            f = "tid_" if "tid_word" in p["t"] else "next_" if "*" in p["t"] else "value_"
            stored(K, "C30.store", fid, f, i)
    order(K)


def order(K):
    """stamps compare by epoch, then kind of transaction, then number"""
    low = ["lock_", "lock_by_gc_", "latest_", "absent_"]
    n = 0
    for c in K.eng.F["classes"].values():
        fs = [short(f["n"]) for f in c["fields"] if f.get("bits")]
        if "tid_" in fs and "epoch_" in fs and c["n"].startswith(SK + "tid_word"):
            n += 1
            at = {f: fs.index(f) for f in low + ["tid_", "by_short_", "epoch_"] if f in fs}
            seq = [max(at[f] for f in low if f in at), at["tid_"], at["by_short_"], at["epoch_"]]
            if seq != sorted(seq):
                K.violation("C30.order", {"file": c["file"], "n": c["n"]}, c["l"], "the parts of a stamp are not laid out in order of weight")
    for name in ("operator<", "operator>", "operator=="):
        for fid in K.fns("tid_word::" + name, need=False):
            n += 1

            def ex(X, st, v, fn, name=name):
                X.ob()
                if v is None or v.kind != "op":
                    return
                a, b = v.args[1], v.args[2] if len(v.args) > 2 else None
                if b is None:
                    return
                parts = [f for f in low + ["tid_", "by_short_", "epoch_"]
                         if mentions(v, lambda x: x.kind in ("f", "fv") and short(x.args[1]) == f)]
                if parts:
                    if "epoch_" not in parts:
                        X.badfn(st, fn, "stamps are compared without their epoch")
                    return
                if v.args[0] == "<" and is_param(a, 0) != (name == "operator>"):
                    X.badfn(st, fn, "stamps are compared the wrong way round")
            K.run("C30.order", order.__doc__, [fid], exit=ex)
    K.record("C30.order", order.__doc__, n, 3)
