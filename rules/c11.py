"""C11: the commit callback fires exactly once with the final outcome."""
from rulekit import *

NOTE = ("every path of the commits of all transaction kinds: number, arguments and place of the callback invocations; the dispatch that "
        "registers the callback; the invocation itself; the background worker that finishes waiting commits")
ASSUMPTIONS = ["a commit that ends with ERR_FATAL met an internal error and owes no callback"]
CCB = SK + "session::call_commit_callback"
SETCB = SK + "session::set_commit_callback"
CLEAN = SK + "session::clean_up"
ENDS = q("short_tx::commit long_tx::commit read_only_tx::commit")
ABORTS = q("short_tx::abort long_tx::abort read_only_tx::abort")
STOP = ABORTS | q("""session::call_commit_callback session::clean_up lpwal::flush_log session::commit_sequence session::set_result
garbage::set_dirty tid_word::lock tid_word::unlock Record::set_tid Record::set_latest
Record::set_value Record::get_value Record::unlock wp::find_wp_meta wp::wp_meta::find_min_ep
wp::wp_meta::get_wped local_write_set::search node_set::node_verify local_write_set::sort_if_ol get read_record
session::lock_short_expose_ongoing session::unlock_short_expose_ongoing_and_refresh_epoch lpwal::handler::push_log
write_set_obj::get_value Record::get_key bg_work::bg_commit::register_tx ongoing_tx::exist_wait_for ongoing_tx::waiting_bypass
ongoing_tx::remove_id session::set_mrc_tid epoch::get_global_epoch
long_tx::verify long_tx::check_wait_for_preceding_bt long_tx::expose_local_write long_tx::register_read_by long_tx::update_read_area
wp::wp_meta::register_wp_result_and_remove_wp read_plan::remove_elem get_tx_id
session::process_before_finish_step session::process_before_start_step""")


def check(K):
    for f in (commits, dispatch, result, invoke, worker):
        K.part("C11." + f.__name__, f)


def commits(K):
    """a commit calls back exactly once with the status it returns, unless it waits; the outcome is settled before the call"""
    OK, WAIT, FATAL = K.S("OK"), K.S("WARN_WAITING_FOR_OTHER_TX"), K.S("ERR_FATAL")
    PRE, CC = K.S("WARN_PREMATURE"), K.S("ERR_CC")
    UNK = K.RC("UNKNOWN")

    def cb(X, st, e):
        X.ob()
        ps = st.ps
        if ps.get("imp"):
            return
        if ps.get("n"):
            X.bad(st, e, "the callback is invoked a second time")
        ps["n"] = 1
        s = X.arg(st, e, 0)
        r, dm = X.arg(st, e, 1), X.arg(st, e, 2)
        c = X.const(st, s)
        ps["s"] = s
        ps["ln"] = e.line
        if c == WAIT:
            X.bad(st, e, "the callback is invoked although the outcome is still waiting")
        d = X.const(st, dm)
        err = c is not None and c != OK and c != PRE or c is None and X.outcome(st, s, OK) == "no"
        if c == OK:
            if d == 0:
                X.bad(st, e, "success is reported without a durability marker")
            if ps.get("ab"):
                X.bad(st, e, "success is reported for an aborted transaction")
            if ps.get("ns") and X.const(st, r) not in (None, UNK):
                X.bad(st, e, "success is reported with a failure reason")
            if X.long and not ps.get("clean"):
                X.bad(st, e, "the callback is invoked before the committed transaction is cleaned up")
        elif err:
            if not ps.get("ab"):
                X.bad(st, e, "failure is reported before the transaction is aborted")
            if X.const(st, r) in (0, UNK):
                X.bad(st, e, "failure is reported without its reason")
        elif c == PRE:
            if ps.get("ab") or ps.get("clean"):
                X.bad(st, e, "a premature commit ends the transaction")

    def abort(X, st, e):
        st.ps["ab"] = 1
        if st.ps.get("n") and not st.ps.get("imp"):
            X.bad(st, e, "the transaction is aborted after its outcome was reported")

    def clean(X, st, e):
        st.ps["clean"] = 1
        if st.ps.get("n") and X.long:
            X.bad(st, e, "the session is cleaned up after its outcome was reported")

    def reg(X, st, e):
        st.ps["reg"] = 1

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if is_result(a, SK + "get") and o == "==" and b.kind == "c" and b.args[0] == OK and not t:
            # a record with a pending write of its own cannot leave the index
            st.ps["imp"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if ps.get("imp"):
            return
        c = X.const(st, v)
        if c == FATAL or c is None and v is not None and v.kind == "r" and {CC, OK} <= set(st.ne.get(v, ())) and not ps.get("n"):
            # a part of the commit failed in a way it cannot
            return
        if c == WAIT:
            if ps.get("n"):
                X.badfn(st, fn, "%s: the callback was invoked although the commit waits" % X.root)
            if ps.get("ab") or ps.get("clean"):
                X.badfn(st, fn, "%s: waits although the transaction has ended" % X.root)
            return
        if not ps.get("n"):
            X.badfn(st, fn, "%s: ends with %s without invoking the callback" % (
                X.root, K.status_name(c) if c is not None else "its outcome"))
            return
        s = ps.get("s")
        if isinstance(s, Term) and v is not None and s is not v:
            d = X.const(st, s)
            if c is not None and d is not None and c != d:
                X.badfn(st, fn, "%s: the callback was told %s but the commit returns %s" % (
                    X.root, K.status_name(d), K.status_name(c)), ps.get("ln"))
    calls = {n: abort for n in ABORTS}
    calls.update({CCB: cb, CLEAN: clean, SK + "bg_work::bg_commit::register_tx": reg})
    for r, n, long in (("short_tx::commit", 6, False), ("long_tx::commit", 4, True), ("read_only_tx::commit", 1, False)):
        K.run("C11.commits", commits.__doc__, r, minimum=n, stop=STOP, call=calls, branch=br, exit=ex, root=r, long=long)


def dispatch(K):
    """a request hands its callback to the commit of its transaction, and is told at once when there is none"""
    NB, WAIT, OK = K.S("WARN_NOT_BEGIN"), K.S("WARN_WAITING_FOR_OTHER_TX"), K.S("OK")

    def put(X, st, e):
        if st.ps.get("end"):
            X.bad(st, e, "the callback is stored after the commit")
        st.ps["put"] = 1
        v = X.arg(st, e, 0)
        if X.cb and v is not None and v.kind == "c":
            X.bad(st, e, "the callback of the request is not stored")

    def call(X, st, e):
        X.ob()
        ps = st.ps
        if not ps.get("put"):
            X.bad(st, e, "commits before the callback of the request is stored")
        if ps.get("end"):
            X.bad(st, e, "commits a second time")
        ps["end"] = 1

    def direct(X, st, e):
        X.ob()
        ps = st.ps
        v = [X.arg(st, e, i) for i in range(3)]
        if ps.get("end") or ps.get("put"):
            X.bad(st, e, "the callback is invoked by the request as well as by the commit")
        if ps.get("d"):
            X.bad(st, e, "the callback is invoked a second time")
        ps["d"] = X.const(st, v[0])
        if ps["d"] == OK:
            X.bad(st, e, "a request without transaction is reported as committed")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "tx_began_") or is_aload(a) and loc_is(a.args[3], "tx_began_"):
            st.ps["began"] = t != (o == "==" and X.const(st, b) == 0)
        elif is_param(a, 1) and not ld_is(a, "commit_callback_"):
            st.ps["has"] = t != (o == "==" and X.const(st, b) == 0)

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if ps.get("began") is False:
            if X.cb and ps.get("d") is None and ps.get("has") is not False:
                X.badfn(st, fn, "commit: the callback is not told that there is no transaction")
            if ps.get("end"):
                X.badfn(st, fn, "commit: commits although there is no transaction")
    FO = "std::function::operator()"
    K.run("C11.dispatch", dispatch.__doc__, K.fns("commit", 2), minimum=4, stop=ENDS | {SETCB} | STOP, cb=True,
          call=dict([(n, call) for n in ENDS] + [(SETCB, put), (FO, direct)]), branch=br, exit=ex)


def result(K):
    """the request answers false exactly when the outcome is still waiting"""
    WAIT = K.S("WARN_WAITING_FOR_OTHER_TX")
    roots = [f for f in K.fns("commit", 2) if K.eng.fns[f]["ret"] == "bool"]

    def after(X, st, e):
        st.ps["rc"] = e.val

    def ex(X, st, v, fn):
        X.ob()
        rc = st.ps.get("rc")
        if not isinstance(rc, Term):
            return
        o = X.outcome(st, rc, WAIT)
        c = X.const(st, v)
        if c is not None:
            if o == "ok" and c or o == "no" and not c:
                X.badfn(st, fn, "commit: the answer does not tell whether the outcome is waiting")
            elif o is None:
                X.badfn(st, fn, "commit: answers without looking at the outcome")
            return
        for w in (WAIT, K.S("OK"), K.S("ERR_CC"), K.S("WARN_PREMATURE"), K.S("WARN_NOT_BEGIN")):
            r = evalterm(v, {rc: w}, lambda t, a: a.get(t))
            if r is not None and compatible(st, {rc: w}, lambda t, a: a.get(t)) and bool(r) == (w == WAIT):
                X.badfn(st, fn, "commit: answers %s when the commit ends with %s" % (bool(r), K.status_name(w)))
    K.run("C11.result", result.__doc__, roots, minimum=1, stop=ENDS | STOP | {SETCB}, after={n: after for n in ENDS}, exit=ex)


def invoke(K):
    """invoking the callback passes the outcome on unchanged, at most once, and forgets it before anything else can be stored"""
    def op(X, st, e):
        X.ob()
        ps = st.ps
        if ps.get("n"):
            X.bad(st, e, "the stored callback is invoked twice")
        ps["n"] = 1
        if not ps.get("cl"):
            X.bad(st, e, "the callback is still stored while it is invoked: what the next request stores is lost")
        for i in range(3):
            v = X.arg(st, e, i)
            if v is None or not is_param(v, i):
                X.bad(st, e, "argument %d of the callback is not what the commit reported" % (i + 1))

    def clear(X, st, e):
        v = e.val
        if v is not None and X.const(st, v) == 0 or v is None:
            if st.ps.get("n"):
                X.bad(st, e, "the stored callback is cleared after the call")
            st.ps["cl"] = 1

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "commit_callback_") or "commit_callback_" in pretty(a):
            st.ps["set"] = t != (o == "==" and X.const(st, b) == 0)

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if not ps.get("n") and ps.get("set") is not False:
            X.badfn(st, fn, "call_commit_callback: the stored callback is not invoked")
        if not ps.get("cl") and ps.get("set") is not False:
            X.badfn(st, fn, "call_commit_callback: the callback stays stored")
    K.run("C11.invoke", invoke.__doc__, "session::call_commit_callback", minimum=3, call={"std::function::operator()": op},
          write={"commit_callback_": clear}, branch=br, exit=ex)
    stored(K, "C11.invoke", "session::set_commit_callback", "commit_callback_")


def worker(K):
    """the background worker commits a waiting transaction under a claim nobody else holds, and drops it once it is finished"""
    WAIT = K.S("WARN_WAITING_FOR_OTHER_TX")
    COMMIT = SK + "long_tx::commit"
    B = "bg_work::bg_commit::"

    def cont(X, st, e):
        l = X.recv(st, e)
        if l is None and e.recv is not None and e.recv[0] is not None:
            l = e.recv[0]
        s = pretty(l) if l is not None else ""
        return "used" if "used_ids" in s else "wait" if "cont_wait_tx" in s else None

    def anyc(X, st, e):
        n = short(e.name)
        ps = st.ps
        if n in ("empty", "size") and cont(X, st, e):
            ps["asked"] = cont(X, st, e)
        elif n in ("insert", "emplace", "emplace_hint", "erase", "clear"):
            c = cont(X, st, e)
            if c is None:
                return
            X.ob()
            m = {"used": "used_ids", "wait": "cont_wait_tx"}[c]
            if not X.eng.held(st, X.mtx[c], None if c == "used" else "X"):
                X.bad(st, e, "changes %s without its lock" % m)
            if c == "used":
                if n in ("insert", "emplace", "emplace_hint"):
                    ps["claim"] = 1
                elif n == "erase":
                    if ps.get("done"):
                        X.bad(st, e, "gives up the claim on a finished transaction: another worker can commit it again")
                    ps.pop("claim", None)
                    ps.pop("kept", None)
                elif n == "clear":
                    if not ps.get("empty"):
                        X.bad(st, e, "drops all claims while transactions wait")
            elif n == "erase":
                if ps.get("waits"):
                    X.bad(st, e, "forgets a transaction that still waits")
                ps["gone"] = 1

    def call(X, st, e):
        ps = st.ps
        if ps.get("imp"):
            st.dead = True
            return
        X.ob()
        if ps.get("done") and not ps.get("gone"):
            X.bad(st, e, "goes on to the next transaction without removing the finished one")
        if ps.get("kept"):
            X.bad(st, e, "keeps the claim on a transaction that waits: no worker tries it again")
            ps.pop("kept")
        if not ps.get("claim"):
            X.bad(st, e, "commits a waiting transaction it has not claimed")
        if not ps.get("free"):
            X.bad(st, e, "commits a waiting transaction although another worker may be committing it")
        for k in ("gone", "done", "waits", "told", "claim", "free"):
            ps.pop(k, None)

    def after(X, st, e):
        st.ps["rc"] = e.val

    def told(X, st, e):
        X.ob()
        st.ps["told"] = 1
        rc = st.ps.get("rc")
        if st.ps.get("waits"):
            X.bad(st, e, "reports an outcome although the transaction still waits")
        v = X.arg(st, e, 0)
        if isinstance(rc, Term) and v is not None and v is not rc and v.kind in ("c", "r"):
            X.bad(st, e, "records another outcome than the one of the commit")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if a is ps.get("rc") and o == "==" and b.kind == "c" and b.args[0] == WAIT:
            ps["waits" if t else "done"] = 1
            if t:
                ps["kept"] = 1
        elif o == "==" and a.kind == "it" and b.kind == "it":
            for x, y in ((a, b), (b, a)):
                if isinstance(x.args[1], tuple) and x.args[1][0] == "find" and y.args[1] == "end" and "used_ids" in pretty(x.args[0]):
                    ps["free"] = t
                    if not X.eng.held(st, X.mtx["used"]):
                        ps["free"] = False
                if y.args[1] == "end" and "cont_wait_tx" in pretty(x.args[0]):
                    if not t and ps.get("end"):
                        ps["imp"] = 1
                    ps["end"] = t
        elif a.kind == "pc" and short(a.args[0]) in ("empty", "size") and ps.get("asked") == "wait":
            ps["empty"] = t if short(a.args[0]) == "empty" else o == "==" and t and X.const(st, b) == 0

    def lock(X, st, e):
        if e.kind == "acquire" and "cont_wait_tx" in pretty(e.loc):
            st.ps.pop("end", None)
        # what was seen under the lock of the claims holds until it is released
        if e.kind == "release" and lockname(e.loc) and "used_ids" in pretty(e.loc):
            if not st.ps.get("claim"):
                st.ps.pop("free", None)

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("done") and not st.ps.get("gone"):
            X.badfn(st, fn, "worker: leaves a finished transaction registered")
        if st.ps.get("done") and not st.ps.get("told"):
            X.badfn(st, fn, "worker: the outcome of a finished transaction is not recorded")
        if st.ps.get("kept"):
            X.badfn(st, fn, "worker: keeps the claim on a transaction that waits")
    K.run("C11.worker", worker.__doc__, B + "worker", minimum=5, stop={COMMIT, SK + "session::set_result_requested_commit"}, anycall=anyc,
          call={COMMIT: call, SK + "session::set_result_requested_commit": told}, after={COMMIT: after}, branch=br, exit=ex, lock=lock,
          mtx={"used": "mtx_used_ids_", "wait": "mtx_cont_wait_tx_"}, merge_block=100)
