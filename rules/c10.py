"""C10: an aborted transaction leaves no trace."""
from rulekit import *
from ends import Drop, WHAT
from publish import split, rec_tid
import ops

NOTE = ("the three ways to abort, followed to the end: what is dropped, which placeholders are taken back and under which lock and condition, how write "
        "preserves end; which abort each kind of transaction takes; that an operation touches nothing after it aborted its transaction")
ASSUMPTIONS = ["a placeholder is recognised by its stamp: newest and absent"]
LOCK, UNLOCK = SK + "tid_word::lock", SK + "tid_word::unlock"
REG = SK + "wp::wp_meta::register_wp_result_and_remove_wp"
RMID = SK + "ongoing_tx::remove_id"
PSM = SK + "wp::find_page_set_meta"
STOP = q("""garbage::set_dirty tid_word::lock tid_word::unlock wp::find_page_set_meta wp::wp_meta::register_wp_result_and_remove_wp
ongoing_tx::remove_id read_plan::remove_elem Record::get_key_view""")
ROOTS = {"short_tx::abort": "SHORT", "long_tx::abort": "LONG", "read_only_tx::abort": "READ_ONLY"}
EXPOSE = q("""lpwal::handler::push_log lpwal::flush_log session::commit_sequence Record::set_latest Record::set_value version::set_value
session::push_to_write_set local_write_set::push sequence::sequence_map_update""")


def check(K):
    for f in (drops, placeholders, preserves, dispatch, after):
        K.part("C10." + f.__name__, f)


def drops(K):
    """aborting drops everything the transaction has buffered, deregisters it, and exposes nothing"""
    D = Drop(K)
    for root, kind in ROOTS.items():
        def anyc(X, st, e):
            D.anycall(X, st, e)
            if e.name in EXPOSE:
                X.bad(st, e, "an aborting transaction exposes or logs what it wrote")

        def rid(X, st, e):
            X.ob()
            v = X.arg(st, e, 0)
            if v is not None and ld_is(v, "long_tx_id_"):
                st.ps["gone"] = 1
            elif v is not None and v.kind != "u":
                X.bad(st, e, "another transaction is deregistered")

        def plan(X, st, e):
            v = X.arg(st, e, 0)
            if v is not None and (ld_is(v, "long_tx_id_") or v.kind == "u"):
                st.ps["plan"] = 1

        def ex(X, st, v, fn, kind=kind):
            X.ob()
            for f in D.missing(st, kind):
                X.badfn(st, fn, "an aborted transaction keeps %s" % WHAT[f])
            if kind != "SHORT" and not st.ps.get("gone"):
                X.badfn(st, fn, "an aborted transaction stays registered as running")
            if kind == "LONG" and not st.ps.get("plan"):
                X.badfn(st, fn, "the announced reads of an aborted transaction stay")
        K.run("C10.drops", drops.__doc__, root, stop=STOP, anycall=anyc, anywrite=D.write, branch=D.branch, exit=ex,
              call={RMID: rid, SK + "read_plan::remove_elem": plan}, once=True, merge_exits=60)


def placeholders(K):
    """a placeholder of the aborted transaction becomes a deleted record again, decided under its lock, unless it is shared"""
    INS, UPS = K.OP("INSERT"), K.OP("UPSERT")
    for root in ("short_tx::abort", "long_tx::abort"):
        def lock(X, st, e):
            st.ps["lk"] = 1
            for k in ("lat", "abs", "cnt", "t"):
                st.ps.pop(k, None)

        def unlock(X, st, e):
            st.ps.pop("lk", None)

        def at(X, st, e):
            ps = st.ps
            if e.kind == "aload" and loc_is(e.loc, "tidw_") and ps.get("lk"):
                ps["t"] = e.val
                ps.pop("lat", None)
                ps.pop("abs", None)
                ps["fresh"] = 1
            if e.kind in ("armw", "astore") and loc_is(e.loc, "shared_tombstone_count_"):
                X.ob()
                if not ps.get("lk"):
                    X.bad(st, e, "the number of sharers of a placeholder is changed without the lock of the record")
                if ps.get("inc") is not True:
                    X.bad(st, e, "a share of a placeholder is given back that was not taken")
                ps["dec"] = 1
            if e.kind == "astore" and loc_is(e.loc, "tidw_"):
                X.ob()
                if not ps.get("lk"):
                    X.bad(st, e, "a placeholder is taken back without the lock of the record")
                    return
                if ps.get("op") is False:
                    X.bad(st, e, "a record that the transaction did not create is marked as deleted")
                if ps.get("lat") is not True or ps.get("abs") is not True:
                    X.bad(st, e, "a record is marked as deleted although, seen under its lock, it may not be a placeholder")
                elif ps.get("cnt") is not False:
                    X.bad(st, e, "a placeholder is taken back although another transaction shares it")
                base, over = split(e.val)

                def c(f):
                    v = over.get(f)
                    if v is None:
                        return 0 if X.const(st, base) == 0 or base.kind == "init" else None
                    return X.const(st, v)
                if e.val.kind != "u":
                    if c("absent_") != 1:
                        X.bad(st, e, "a placeholder taken back is not marked as deleted")
                    if c("latest_") not in (0, None) or ("latest_" not in over and rec_tid(base, None)):
                        X.bad(st, e, "a placeholder taken back stays marked as being inserted")
                    ep = over.get("epoch_")
                    if ep is None and not rec_tid(base, None) or ep is not None and ep.kind != "u" and not (
                            field_of(ep, "epoch_") is not None and (rec_tid(field_of(ep, "epoch_"), None))):
                        if ep is None or X.const(st, ep) is not None:
                            X.bad(st, e, "a placeholder taken back loses the epoch of its last version")
                ps["done"] = 1
                ps.pop("lk", None)

        def cur(ps, a, f):
            base = field_of(a, f)
            if base is None or not rec_tid(base, None):
                return False
            if not ps.get("lk"):
                ps["old"] = base
                return True
            return base is ps.get("t") or not is_aload(base) and base is not ps.get("old")

        def br(X, st, e):
            ps = st.ps
            o, a, b, t = atom(e.val, e.extra)
            z = t != (o == "==" and X.const(st, b) == 0)
            if ld_is(a, "op_") and o == "==":
                c = X.const(st, b)
                if t:
                    ps["op"] = c in (INS, UPS)
                else:
                    ps["n%s" % c] = 1
                    if ps.get("n%s" % INS) and ps.get("n%s" % UPS):
                        ps["op"] = False
            elif ld_is(a, "inc_tombstone_"):
                ps["inc"] = z
            elif cur(ps, a, "latest_"):
                ps["lat"] = z
                if not z:
                    ps["why"] = 1
            elif cur(ps, a, "absent_"):
                ps["abs"] = z
                if not z:
                    ps["why"] = 1
            elif any(x is not None and "shared_tombstone_count_" in pretty(x) for x in (a, b)):
                if o == "<" and X.const(st, a) == 0:
                    pos = t
                elif o == "t" or o == "==" and X.const(st, b) == 0:
                    pos = z
                elif o == "<" and X.const(st, b) == 1:
                    pos = not t
                else:
                    return
                if ps.get("lk"):
                    ps["cnt"] = pos
                if pos is False:
                    if ps.get("inc") and not ps.get("dec"):
                        ps["dz"] = 1
                elif ps.get("inc") is not True or ps.get("dec") or ps.get("dz"):
                    ps["why"] = 1

        def drop(X, st, e):
            if short(e.name) != "clear" or not e.recv or e.recv[1] is None or not any(loc_is(e.recv[1], f) for f in ("cont_for_occ_", "cont_for_bt_")):
                return
            X.ob()
            ps = st.ps
            if ps.get("seen"):
                return
            ps["seen"] = 1
            if ps.get("op") is False:
                return
            if ps.get("inc") and not ps.get("dec") and not ps.get("dz"):
                X.bad(st, e, "the write set is dropped although the transaction still counts as a sharer of a placeholder")
            if not ps.get("done") and not ps.get("why"):
                X.bad(st, e, "the write set is dropped although a placeholder of the transaction is left behind")
        K.run("C10.placeholders", placeholders.__doc__, root, minimum=3, stop=STOP, call={LOCK: lock, UNLOCK: unlock}, atomic=at, branch=br, anycall=drop,
              nonempty=True, once=True, merge_block=200, merge_exits=100)


def preserves(K):
    """every write preserve of an aborted long transaction is removed and remembered as not committed"""
    OK = K.S("OK")

    def reg(X, st, e):
        X.ob()
        v = X.arg(st, e, 0)
        st.ps["reg"] = 1
        if v is None or v.kind != "tup":
            return
        a = v.args[0] if isinstance(v.args[0], tuple) else v.args
        if len(a) >= 3 and X.const(st, a[2]) not in (0, None):
            X.bad(st, e, "an aborted transaction is remembered as committed")
        if len(a) >= 2 and a[1].kind != "u" and not ld_is(a[1], "long_tx_id_"):
            X.bad(st, e, "a write preserve is removed under another transaction's identifier")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if is_result(a, PSM) and o == "==" and X.const(st, b) == OK and not t:
            st.ps["why"] = 1
        elif o == "==" and not t and any("wp_set_" in pretty(x) for x in (a, b) if x is not None) and a.kind != "it":
            st.ps["why"] = 1

    def anyc(X, st, e):
        if short(e.name) == "clear" and e.recv and e.recv[1] is not None and loc_is(e.recv[1], "wp_set_"):
            X.ob()
            if not st.ps.get("reg") and not st.ps.get("why"):
                X.bad(st, e, "the transaction forgets a write preserve that is still in force")
    K.run("C10.preserves", preserves.__doc__, "long_tx::abort", minimum=2, stop=STOP, call={REG: reg}, branch=br, anycall=anyc, nonempty=True, once=True)


def dispatch(K):
    """the user's abort reaches the abort of the transaction's own kind"""
    D = Drop(K)
    NB, ILL = K.S("WARN_NOT_BEGIN"), K.S("WARN_ILLEGAL_OPERATION")
    kinds = {SK + r: D.ty[k] for r, k in ROOTS.items()}

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        z = t != (o == "==" and X.const(st, b) == 0)
        if ld_is(a, "tx_began_"):
            st.ps["began"] = z
        elif ld_is(a, "requested_commit_"):
            st.ps["req"] = z

    def types(st):
        have = set(D.ty.values())
        for t, c in st.eq.items():
            if ld_is(t, "tx_type_"):
                have &= {c}
        for t, cs in st.ne.items():
            if ld_is(t, "tx_type_"):
                have -= set(cs)
        return have

    def ab(X, st, e):
        X.ob()
        if kinds[e.name] not in types(st):
            X.bad(st, e, "a transaction is aborted as one of another kind")
        elif len(types(st)) > 1:
            X.bad(st, e, "a transaction is aborted without looking at its kind")
        if st.ps.get("began") is not True:
            X.bad(st, e, "a transaction that has not begun is aborted")
        st.ps["ab"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("ab") or not types(st):
            return
        if st.ps.get("began") is False:
            if X.const(st, v) not in (NB, None):
                X.badfn(st, fn, "an abort without a transaction is not refused as such")
        elif st.ps.get("req") and types(st) == {D.ty["LONG"]}:
            return
        else:
            X.badfn(st, fn, "an abort returns without having ended the transaction")
    K.run("C10.dispatch", dispatch.__doc__, K.fns("abort", need=True), minimum=4, stop=ops.ABORTS, call={n: ab for n in kinds}, branch=br, exit=ex)


def after(K):
    """an operation that aborted its transaction adds nothing to it and touches none of its entries any more"""
    EFF = ops.EFFECTS

    def ab(X, st, e):
        X.ob()
        st.ps["ab"] = 1

    def anyc(X, st, e):
        if not st.ps.get("ab"):
            return
        if e.name in EFF:
            X.bad(st, e, "goes on with a transaction it has just aborted")
    K.run("C10.after", after.__doc__, " ".join(ops.WRITES + ops.READS + ops.CURSORS), minimum=5, stop=ops.STOP, call={n: ab for n in ops.ABORTS}, anycall=anyc)
