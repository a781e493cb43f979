"""C12: a serialization error always means the transaction was aborted, with its reason."""
from rulekit import *
import ops

NOTE = ("every path of every data operation, of validation and of commit: a serialization error is returned exactly on paths that "
        "aborted the transaction once and left a matching reason, all other results leave the transaction running")

RES = q("result_info::set_reason_code")


def check(K):
    for f in (data, commits, validation, user):
        K.part("C12." + f.__name__, f)


class Errs:
    def __init__(self, K):
        self.ERRS = {K.S(n): n for n in ("ERR_CC", "ERR_KVS", "ERR_READ_AREA_VIOLATION")}
        self.FATAL = K.S("ERR_FATAL")


def base(K):
    UNK, USER = K.RC("UNKNOWN"), K.RC("USER_ABORT")
    E = Errs(K)

    def abort(X, st, e):
        X.ob()
        if st.ps.get("ab") and X.root != "commit":
            X.bad(st, e, "%s: aborts the transaction twice" % X.root)
        st.ps["ab"] = 1

    def res(X, st, e):
        X.ob()
        c = X.const(st, X.arg(st, e, 0))
        st.ps["why"] = c if c is not None else "?"
        st.ps["set"] = "reset" if c == UNK else "vague" if c == USER else "good"

    def reason(X, st, fn, c):
        have = st.ps.get("set")
        if have is None and not st.ps.get("doomed"):
            X.badfn(st, fn, "%s: returns %s without having set a reason" % (X.root, K.status_name(c)))
        elif have in ("reset", "vague"):
            X.badfn(st, fn, "%s: returns %s with a reason that tells nothing" % (X.root, K.status_name(c)))
    return E, abort, res, reason


def data(K):
    """a data operation returns a serialization error exactly when it aborted the transaction and left a matching reason"""
    W = ops.Watch(K)
    E, abort, res, reason = base(K)
    PH, WP, AR = (K.RC(n) for n in ("CC_OCC_PHANTOM_AVOIDANCE", "CC_OCC_WP_VERIFY", "CC_LTX_READ_AREA_VIOLATION"))

    def err(X, st, e, o, a, b, t):
        # an index error remembered by an iterator, or reported by it
        if o == "==" and b.kind == "c" and ld_is(a, "error_") and b.args[0] == K.S("ERR_CC"):
            st.ps["node"] = not t
        if o == "==" and b.kind == "c" and a.kind == "r" and t and W.SHORT not in W.types(st):
            n = short(a.args[0])
            if n == "iscan_open" and b.args[0] == K.S("ERR_CC") or n == "iscan_next":
                # the index reports concurrent changes only to callers that asked for it
                st.ps["imp"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        err = c in E.ERRS
        if err and ps.get("imp"):
            return
        if err:
            if not ps.get("ab"):
                X.badfn(st, fn, "%s: returns %s without aborting the transaction" % (X.root, K.status_name(c)))
            reason(X, st, fn, c)
            why = ps.get("why")
            if isinstance(why, int):
                if (c == W.AREA) != (why == AR):
                    X.badfn(st, fn, "%s: the reason set does not match %s" % (X.root, K.status_name(c)))
                if ps.get("node") is False and why != PH:
                    X.badfn(st, fn, "%s: the reason set does not tell that an index node changed" % X.root)
                if W.conflict(ps) and ps.get("node") is None and why != WP and W.types(st) == {W.SHORT}:
                    X.badfn(st, fn, "%s: the reason set does not tell about the write preserve" % X.root)
        elif ps.get("ab") and c is not None and c != E.FATAL:
            X.badfn(st, fn, "%s: returns %s although the transaction was aborted" % (X.root, K.status_name(c)))
        elif ps.get("ab") and c is None:
            X.badfn(st, fn, "%s: aborts but returns a status that may not be an error" % X.root)
        if not err and c != E.FATAL and not ps.get("ab") and ps.get("set"):
            X.badfn(st, fn, "%s: sets a failure reason although the transaction goes on" % X.root)
        if ps.get("node") is False and not ps.get("ab") and c is not None and c != E.FATAL and not err and not X.defer:
            X.badfn(st, fn, "%s: a changed index node does not abort the transaction" % X.root)
    calls = {n: abort for n in ops.ABORTS}
    calls.update({n: res for n in RES})
    for r in ops.READS + ops.WRITES + ops.CURSORS:
        K.run("C12.data", data.__doc__, r, minimum=1, stop=ops.STOP | RES, call=calls, after=W.after(), branch=W.branch, exit=ex,
              root=r, more={"err": err}, defer=r == "next", merge_block=200, merge_exits=60)


def commits(K):
    """a commit that fails for serialization aborted the transaction and set its reason; success resets the reason"""
    E, abort, res, reason = base(K)
    UNK, OK = K.RC("UNKNOWN"), K.S("OK")
    WAIT = {K.S(n) for n in ("WARN_PREMATURE", "WARN_WAITING_FOR_OTHER_TX")}

    def sub(X, st, e):
        # these leave a reason whenever they fail, see C12.validation
        if st.ps.get("set") != "good":
            st.ps["set"] = "good"

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if a.kind == "r" and short(a.args[0]) in ("verify", "check_wait_for_preceding_bt") and o == "==" and b.kind == "c":
            if b.args[0] == K.S("ERR_CC"):
                st.ps["bad"] = t
            elif b.args[0] == OK and t:
                st.ps["bad"] = False
        if o == "==" and b.kind == "c" and ld_is(a, "op_"):
            # an element known to be an update or a deletion is one of the two
            two = {K.OP("UPDATE"), K.OP("DELETE")}
            ps = st.ps
            if t:
                ps["uo"] = b.args[0] in two
            elif ps.get("uo") and b.args[0] in two and two <= set(st.ne.get(a, ())):
                ps["imp"] = 1
        if is_result(a, SK + "get") and o == "==" and b.kind == "c" and b.args[0] == OK and not t and not st.ps.get("epoch"):
            # a record with a pending write of its own cannot leave the index
            st.ps["imp"] = 1

    def epoch(X, st, e):
        st.ps["epoch"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if ps.get("imp"):
            return
        if c in E.ERRS:
            if not ps.get("ab"):
                X.badfn(st, fn, "%s: returns %s without aborting the transaction" % (X.root, K.status_name(c)))
            reason(X, st, fn, c)
        elif c == OK:
            if ps.get("ab"):
                X.badfn(st, fn, "%s: reports success although the transaction was aborted" % X.root)
            if ps.get("set") != "reset":
                X.badfn(st, fn, "%s: reports success without resetting the reason" % X.root)
        elif X.strict and c is None and X.outcome(st, v, OK) == "no":
            if not ps.get("ab"):
                X.badfn(st, fn, "%s: fails without aborting the transaction" % X.root)
            elif ps.get("set") != "good":
                X.badfn(st, fn, "%s: fails without having set a reason" % X.root)
        elif c in WAIT:
            if ps.get("ab"):
                X.badfn(st, fn, "%s: returns %s although the transaction was aborted" % (X.root, K.status_name(c)))
        if ps.get("bad") and c is not None and c not in E.ERRS:
            X.badfn(st, fn, "%s: returns %s although validation failed" % (X.root, K.status_name(c)))
    calls = {n: abort for n in ops.ABORTS}
    calls.update({n: res for n in RES})
    CS = ops.ABORTS | RES | q("""session::clean_up session::call_commit_callback lpwal::flush_log session::commit_sequence
session::process_before_finish_step garbage::set_dirty tid_word::lock tid_word::unlock Record::set_tid Record::set_latest
Record::set_value Record::get_value Record::unlock epoch::get_global_epoch wp::find_wp_meta wp::wp_meta::find_min_ep
wp::wp_meta::get_wped local_write_set::search node_set::node_verify local_write_set::sort_if_ol get read_record
session::lock_short_expose_ongoing session::unlock_short_expose_ongoing_and_refresh_epoch lpwal::handler::push_log
write_set_obj::get_value Record::get_key bg_work::bg_commit::register_tx ongoing_tx::exist_wait_for ongoing_tx::waiting_bypass
ongoing_tx::remove_id session::set_mrc_tid""")
    K.run("C12.commits", commits.__doc__, "short_tx::commit", minimum=10, stop=CS, strict=True, call=calls, exit=ex, root="commit", branch=br, after={SK + "epoch::get_global_epoch": epoch})
    K.run("C12.commits", commits.__doc__, "read_only_tx::commit", minimum=1, stop=CS, strict=True, call=calls, exit=ex, root="commit", branch=br, after={SK + "epoch::get_global_epoch": epoch})
    long = q("long_tx::verify long_tx::check_wait_for_preceding_bt ongoing_tx::waiting_bypass ongoing_tx::exist_wait_for")
    subs = {n: sub for n in long if K.eng.find(n, need=False)}
    subs.update(calls)
    K.run("C12.commits", commits.__doc__, "long_tx::commit", minimum=4, stop=CS | long | q("""long_tx::expose_local_write
long_tx::register_read_by long_tx::cleanup_process long_tx::update_read_area"""), strict=False, call=subs, exit=ex, root="commit", branch=br, after={SK + "epoch::get_global_epoch": epoch})


def validation(K):
    """validation of a long transaction that fails has set the reason that fits the check that failed, and one that succeeds has set none"""
    E, abort, res, reason = base(K)
    OK = K.S("OK")

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if c in E.ERRS:
            reason(X, st, fn, c)
        elif c == OK and st.ps.get("set"):
            X.badfn(st, fn, "%s: succeeds although a failure reason was set" % X.root)
    calls = {n: res for n in RES}
    VS = RES | q("""wp::find_page_set_meta wp::find_wp_meta point_read_by_long::is_exist range_read_by_long::is_exist
point_read_by_short::get_max_epoch range_read_by_short::get_max_epoch result_info::set_key_storage_name Record::get_key""")
    K.run("C12.validation", validation.__doc__, "long_tx::verify", minimum=6, stop=VS, call=calls, exit=ex, root="verify", merge_block=200)
    K.run("C12.validation", validation.__doc__, "ongoing_tx::waiting_bypass", minimum=2, stop=VS, call=calls, exit=ex, root="waiting_bypass",
          merge_block=100)


def user(K):
    """an abort asked for by the user says so, and the same sets no other reason"""
    USER = K.RC("USER_ABORT")
    OK = K.S("OK")

    def res(X, st, e):
        X.ob()
        st.ps["why"] = X.const(st, X.arg(st, e, 0))

    def abort(X, st, e):
        st.ps["ab"] = 1

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if st.ps.get("ab") and st.ps.get("why") != USER:
            X.badfn(st, fn, "abort: the reason does not tell that the user aborted")
        if not st.ps.get("ab") and st.ps.get("why") is not None:
            X.badfn(st, fn, "abort: sets a reason although the transaction is not aborted")
    K.run("C12.user", user.__doc__, "abort", minimum=3, stop=ops.STOP | RES | ops.ABORTS,
          call=dict([(n, res) for n in RES] + [(n, abort) for n in ops.ABORTS]), exit=ex)
