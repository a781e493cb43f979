"""C01: a short transaction commits only after full validation under its write locks."""
from rulekit import *

STOP = q("""short_tx::abort session::clean_up garbage::set_dirty lpwal::flush_log session::commit_sequence get
session::set_result session::call_commit_callback tid_word::lock tid_word::unlock Record::set_tid Record::set_latest
Record::set_value Record::get_value Record::unlock epoch::get_global_epoch wp::find_wp_meta wp::wp_meta::find_min_ep
wp::wp_meta::get_wped local_write_set::search node_set::node_verify local_write_set::sort_if_ol
session::lock_short_expose_ongoing session::unlock_short_expose_ongoing_and_refresh_epoch lpwal::handler::push_log
write_set_obj::get_value Record::get_key read_record result_info::set_key_storage_name session::set_mrc_tid""")

OKFLAGS = [("locked", "locking every record it writes"), ("tid", "comparing the tid of what it read"),
           ("epo", "comparing the epoch of what it read"), ("lck", "checking that what it read is not locked by another"),
           ("absent", "re-looking up a record it read as absent"), ("node", "validating the index nodes it observed"),
           ("wp", "checking the write preserves of the storages it read")]


def check(K):
    commit(K)
    K.part("C01.node", node_verify)
    K.part("C01.cmp", comp_ver)


def commit(K, rid="C01.commit", text=None, only=None, why=""):
    """only: the validation step looked at (all when None); why: the failures that step finds."""
    mark = why
    flags = [f for f in OKFLAGS if only is None or f[0] in only]
    ST_OK = K.S("OK")
    CONC_INS = K.S("WARN_CONCURRENT_INSERT")

    def lock(X, st, e):
        if st.ps.get("epoch") and only is None:
            X.ob()
            X.bad(st, e, "locks a record after the commit epoch was fixed")
        st.ps["locked"] = 1

    def epoch(X, st, e):
        # the first read of the global epoch fixes the commit epoch
        if not st.ps.get("epoch"):
            st.ps["epoch"] = 1
            st.ps["ce"] = e.val
            for k in ("tid", "epo", "lck", "absent", "node", "wp", "fail"):
                st.ps.pop(k, None)
            X.note(st, e, "commit epoch fixed")

    def fresh_tid(t):
        return mentions(t, lambda x: is_aload(x) and loc_is(x.args[3], "tidw_"))

    def branch(X, st, e):
        if not st.ps.get("epoch"):
            return
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==":
            for x, y in ((a, b), (b, a)):
                for f, k in (("tid_", "tid"), ("epoch_", "epo")):
                    fx, fy = field_of(x, f), field_of(y, f)
                    if fx is not None and fy is not None and in_container(fx, "read_set_for_stx_") and is_aload(fy) \
                            and not is_aload(fx):
                        X.ob()
                        if t:
                            ps[k] = 1
                        else:
                            fail(X, st, e, "a record it read changed (%s)" % f)
                if in_container(x, "read_set_for_stx_") and ld_is(x, "tid_") and is_aload(y):
                    X.ob()
                    if t:
                        ps["tid"] = ps["epo"] = ps["lck"] = 1
                    else:
                        fail(X, st, e, "a record it read changed")
            if is_result(a, SK + "local_write_set::search") and b is ZERO and ps.get("waslocked"):
                X.ob()
                if t:
                    fail(X, st, e, "a record it read is locked by another transaction")
                else:
                    ps["lck"] = 1
            if is_result(a, SK + "node_set::node_verify") and b.kind == "c" and b.args[0] == ST_OK:
                X.ob()
                if t:
                    ps["node"] = 1
                else:
                    fail(X, st, e, "an index node it observed changed")
            if is_result(a, SK + "wp::wp_meta::find_min_ep") and b is ZERO:
                X.ob()
                if t:
                    ps["wp"] = 1
                else:
                    ps["wpne"] = 1
            if is_result(a, SK + "read_record") and b.kind == "c" and b.args[0] == CONC_INS and ps.get("other"):
                X.ob()
                if t:
                    ps["absent"] = 1
                else:
                    fail(X, st, e, "an absent record it read was re-created")
            if a.kind == "o" and a.args[0] == SK + "get" or b.kind == "o" and b.args[0] == SK + "get":
                rec = b if a.kind == "o" else a
                if in_container(rec, "read_set_for_stx_") and ps.get("reget"):
                    X.ob()
                    if t:
                        ps["absent"] = 1
                    else:
                        ps["other"] = 1
            if is_result(a, SK + "get") and b.kind == "c" and b.args[0] == ST_OK and ps.get("reget"):
                if not t:
                    ps["absent"] = 1
        elif o == "<":
            if is_result(b, SK + "wp::wp_meta::find_min_ep") and a is ps.get("ce"):
                X.ob()
                if t:
                    ps["wp"] = 1
                else:
                    ps["wplt"] = 1
            if ps.get("wpne") and ps.get("wplt"):
                fail(X, st, e, "a storage it read carries a write preserve in effect")
        else:
            fb = field_of(a, "lock_")
            if fb is not None and is_aload(fb):
                if t:
                    ps["waslocked"] = 1
                else:
                    ps["lck"] = 1
            fb = field_of(a, "absent_")
            if fb is not None and is_aload(fb) and in_container(fb.args[3], "read_set_for_stx_"):
                if t:
                    ps["isabsent"] = 1
                else:
                    ps["absent"] = 1
            if is_result(a, SK + "node_set::node_verify"):
                X.ob()
                if t:
                    fail(X, st, e, "an index node it observed changed")
                else:
                    ps["node"] = 1
        if ps.get("wpne") and ps.get("wplt"):
            fail(X, st, e, "a storage it read carries a write preserve in effect")

    def fail(X, st, e, why):
        if not st.ps.get("fail") and mark in why:
            st.ps["fail"] = why
            X.note(st, e, "validation failure: " + why)

    def reget(X, st, e):
        if st.ps.get("isabsent"):
            st.ps["reget"] = 1

    def storages(X, st, e):
        # the storages whose preserves are examined are those of the read set
        if st.ps.get("epoch"):
            for a in e.args:
                v = X.V(st, a)
                if in_container(v, "read_set_for_stx_") and mentions(v, lambda x: x.kind == "f" and short(x.args[1]) == "storage_"):
                    st.ps["stor"] = 1

    def anycall(X, st, e):
        if e.name.startswith("std::") and short(e.name) in ("emplace_back", "push_back", "insert", "emplace"):
            storages(X, st, e)
        if e.name == SK + "wp::find_wp_meta":
            storages(X, st, e)

    def expose(X, st, e):
        ps = st.ps
        X.ob()
        what = short(e.name)
        if not ps.get("epoch"):
            if what == "set_tid" or only is not None:
                return  # placeholder state while locking, see C30
            X.bad(st, e, "changes a record (%s) before the commit epoch is fixed" % what)
            return
        if ps.get("fail"):
            X.bad(st, e, "makes a write visible although " + ps["fail"])
            return
        for k, txt in flags:
            if not ps.get(k):
                X.bad(st, e, "makes a write visible on a path without " + txt)
        if "wp" in dict(flags) and not ps.get("stor"):
            X.bad(st, e, "makes a write visible without examining the storages of its reads for write preserves")
        ps["exposed"] = 1

    def abort(X, st, e):
        st.ps["aborted"] = 1
        if st.ps.get("exposed") and only is None:
            X.bad(st, e, "aborts after a write was made visible")

    def ex(X, st, v, fn):
        ps = st.ps
        c = X.const(st, v)
        X.ob()
        if c == ST_OK:
            if ps.get("fail"):
                X.badfn(st, fn, "reports success although " + ps["fail"])
            for k, txt in flags:
                if not ps.get(k):
                    X.badfn(st, fn, "reports success on a path without " + txt)
            if only is not None:
                return
            if ps.get("aborted"):
                X.badfn(st, fn, "reports success after aborting")
            if not ps.get("exposed"):
                X.badfn(st, fn, "reports success without exposing its writes")
        elif only is not None:
            if ps.get("fail") and not ps.get("aborted"):
                X.badfn(st, fn, "does not abort although " + ps["fail"])
        elif X.outcome(st, v, ST_OK) is None:
            X.badfn(st, fn, "returns a status that does not reflect the outcome of validation")
        elif c != K.S("ERR_FATAL"):
            if not ps.get("aborted"):
                X.badfn(st, fn, "returns %s without aborting the transaction" % (K.status_name(c) if c is not None else 'an error'))
            if ps.get("exposed"):
                X.badfn(st, fn, "returns %s after a write was made visible" % (K.status_name(c) if c is not None else 'an error'))

    K.run(rid, text or "every path of a short commit to an exposed write or a success passes locks, epoch, read, index and "
          "write-preserve validation in order, and a failed validation leads to an abort",
          "short_tx::commit", minimum=20, stop=STOP, nonempty=True,
          call={SK + "tid_word::lock": lock, SK + "Record::set_tid": expose, SK + "Record::set_latest": expose,
                SK + "Record::set_value": expose, SK + "short_tx::abort": abort, SK + "get": reget},
          after={SK + "epoch::get_global_epoch": epoch}, branch=branch, anycall=anycall, exit=ex)


def node_verify(K, rid="C01.node_verify"):
    """node_verify answers OK only if every remembered node compares equal to its current version."""
    ST_OK = K.S("OK")

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        for x in (a, b):
            if x is not None and is_result(x, SK + "comp_ver_for_node_verify"):
                same = t if o == "t" else (t == (b.kind == "c" and b.args[0] == 1))
                X.ob()
                if same:
                    st.ps["same"] = 1
                else:
                    st.ps["diff"] = 1

    def cmpc(X, st, e):
        vs = [X.V(st, a) for a in e.args]
        cur = any(is_result(v, "yakushima::node_version64::get_stable_version") for v in vs)
        mem = any(in_container(v, "set_") for v in vs)
        X.ob()
        if not cur or not mem:
            X.bad(st, e, "does not compare the remembered node version with the node's current stable version")

    def ex(X, st, v, fn):
        c = X.const(st, v)
        X.ob()
        if c == ST_OK:
            if st.ps.get("diff"):
                X.badfn(st, fn, "accepts although a node differs from its remembered version")
            if not st.ps.get("same"):
                X.badfn(st, fn, "accepts without comparing the remembered nodes")
        elif c is None:
            X.badfn(st, fn, "answer does not depend on the comparison")
        elif not st.ps.get("diff"):
            X.badfn(st, fn, "rejects although no node differs")

    K.run(rid, node_verify.__doc__, "node_set::node_verify", minimum=4, nonempty=True,
          stop=q("comp_ver_for_node_verify"), branch=branch, call={SK + "comp_ver_for_node_verify": cmpc}, exit=ex)


def comp_ver(K, rid="C01.comp_ver"):
    """two node versions are the same only if both the insert/delete and the split counters agree."""
    fid = K.eng.one(SK + "comp_ver_for_node_verify")

    def sem(t, a):
        if t.kind == "op" and t.args[0] == "==":
            s = pretty(t)
            if "get_vinsert_delete" in s and "get_vsplit" not in s:
                return a["vinsert_delete_equal"]
            if "get_vsplit" in s and "get_vinsert_delete" not in s:
                return a["vsplit_equal"]
        return None
    K.table(rid, "node versions compare equal exactly when both counters agree", fid,
            {"vinsert_delete_equal": (0, 1), "vsplit_equal": (0, 1)}, sem,
            lambda a: int(a["vinsert_delete_equal"] and a["vsplit_equal"]), minimum=4)
