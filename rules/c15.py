"""C15: durability is reported only after the log really covers the transaction."""
from rulekit import *
from publish import SSTOP, LSTOP

NOTE = ("paths of the state query that report a transaction durable; where the marker of each kind of commit comes from and when it is read; "
        "how a log session fixes its epoch; order and arguments of the durability notifications")
GE = SK + "epoch::get_global_epoch"
DE = SK + "epoch::get_datastore_durable_epoch"


def check(K):
    for f in (promote, marker, session, notify, register):
        K.part("C15." + f.__name__, f)


def logging(K):
    return bool(K.eng.find(SK + "lpwal::flush_log", need=False))


def kinds(K, *names):
    return [K.eng.enum("shirakami::TxState::StateKind", n) for n in names]


def promote(K):
    """a transaction is reported durable only when it waits for that and the log reached its marker"""
    WD, D = kinds(K, "WAITING_DURABLE", "DURABLE")
    pw = logging(K)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==" and ld_is(a, "kind_") and X.const(st, b) == WD:
            ps["wait"] = t
        if o == "<":
            def durable(z):
                return is_result(z, DE) or is_aload(z) and "datastore_durable_epoch" in pretty(z)

            def mark(z):
                return ld_is(z, "durable_epoch_")
            if durable(a) and mark(b):
                ps["cov"] = not t
            elif mark(a) and durable(b):
                ps["cov"] = t

    def put(X, st, e):
        c = X.const(st, e.val)
        if c != D:
            return
        X.ob()
        if not st.ps.get("cov"):
            X.bad(st, e, "reports a transaction durable although the log may not have reached its marker")
        if not st.ps.get("wait"):
            X.bad(st, e, "reports a transaction durable that may not be committed")

    def ex(X, st, v, fn):
        X.ob()
    K.run("C15.promote", promote.__doc__, "check_tx_state", minimum=2 if pw else 1, write={"kind_": put}, branch=br, exit=ex,
          stop={DE, SK + "session::find_high_priority_short"})


def marker(K):
    """the marker of a commit is an epoch read after its last log entry, or the one of the log session the entries are in; state and callback get the same"""
    OK = K.S("OK")
    WD, D = kinds(K, "WAITING_DURABLE", "DURABLE")
    pw = logging(K)
    CCB = SK + "session::call_commit_callback"
    LOGS = q("lpwal::handler::push_log session::commit_sequence lpwal::handler::begin_session long_tx::expose_local_write")

    def logs(X, st, e):
        for k in ("ge", "begun", "dep"):
            st.ps.pop(k, None)

    def ge(X, st, e):
        st.ps["ge"] = e.val

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "begun_session_"):
            if o == "==":
                t = t != (X.const(st, b) == 0)
            if X.eng.held(st, "mtx_logs_"):
                st.ps["begun"] = t

    def lock(X, st, e):
        if e.kind == "release" and "mtx_logs_" in pretty(e.loc):
            st.ps["rel"] = 1

    def good(X, st, v):
        ps = st.ps
        if v is None or v.kind == "u":
            return None
        if v is ps.get("ge"):
            if X.logs and ps.get("begun") is not False:
                return "the marker is the current epoch although the entries may belong to an open log session" if ps.get("begun") else None
            return None
        if ld_is(v, "durable_epoch_"):
            if not ps.get("begun"):
                return "the marker is taken from the log session although there may be none open"
            return None
        if v.kind == "c":
            return "the marker is a constant"
        if is_result(v, GE):
            return "the marker is an epoch read before the last log entry of the commit"
        return "the marker is not an epoch at which the entries of the commit are logged"

    def dep(X, st, e):
        if "durable_epoch_" not in pretty(e.loc) or e.loc.kind != "f" or "TxState" not in e.loc.args[1]:
            return
        X.ob()
        m = good(X, st, e.val)
        if m:
            X.bad(st, e, "state object: " + m)
        st.ps["dm"] = e.val

    def kind(X, st, e):
        c = X.const(st, e.val)
        if c not in (WD, D):
            return
        X.ob()
        if pw and c == D:
            X.bad(st, e, "a commit is reported durable at once although it is logged")
        if not pw and c == WD:
            X.bad(st, e, "a commit waits for durability although nothing is logged")
        if pw and not isinstance(st.ps.get("dm"), Term):
            X.bad(st, e, "the state object waits for durability before its marker is set")
        st.ps["k"] = 1

    def cb(X, st, e):
        if X.const(st, X.arg(st, e, 0)) != OK:
            return
        X.ob()
        v = X.arg(st, e, 2)
        m = good(X, st, v)
        if m:
            X.bad(st, e, "commit callback: " + m)
        d = st.ps.get("dm")
        if isinstance(d, Term) and v is not None and v.kind != "u" and d is not v:
            X.bad(st, e, "the callback gets another marker than the state object")
    STOP = (LSTOP | q("long_tx::expose_local_write get_tx_id")) - q("session::clean_up")
    STOP |= q("""session::clear_local_set session::clear_about_long_tx_metadata session::clear_tx_property session::clear_about_scan
session::clear_about_tx_state""")
    for r, lg in (("short_tx::commit", True), ("long_tx::commit", True), ("read_only_tx::commit", False)):
        K.run("C15.marker", marker.__doc__, r, minimum=2 if pw else 1, stop=STOP | LOGS | {CCB, GE}, call=dict([(n, logs) for n in LOGS] + [(CCB, cb)]),
              after={GE: ge}, branch=br, write={"durable_epoch_": dep, "kind_": kind}, lock=lock, logs=lg and pw, merge_block=120)


def session(K):
    """a log session takes as its epoch one read after it was begun, and is open from then on"""
    if not logging(K):
        return
    B = "limestone::api::log_channel::begin_session"

    def chan(X, st, e):
        X.ob()
        st.ps["b"] = 1
        st.ps.pop("ge", None)

    def ge(X, st, e):
        st.ps["ge"] = e.val

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "log_channel_ptr_") and t == (o == "=="):
            st.ps["b"] = st.ps["null"] = 1

    def dep(X, st, e):
        X.ob()
        if not st.ps.get("b"):
            X.bad(st, e, "the epoch of the log session is fixed before the session is begun")
        v = e.val
        if v is not st.ps.get("ge"):
            X.bad(st, e, "the epoch of the log session is not the one current after it was begun" +
                  (": it may be older than the one the log uses"))
        st.ps["d"] = 1

    def begun(X, st, e):
        if X.const(st, e.val) == 1:
            if not st.ps.get("d"):
                X.bad(st, e, "the log session counts as begun before its epoch is fixed")
            st.ps["on"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("on"):
            X.badfn(st, fn, "begin_session: the log session does not count as begun")
        if not st.ps.get("b"):
            X.badfn(st, fn, "begin_session: the log channel is not told")
    K.run("C15.session", session.__doc__, "lpwal::handler::begin_session", minimum=2, stop={GE}, call={B: chan}, after={GE: ge},
          write={"durable_epoch_": dep, "begun_session_": begun}, exit=ex, branch=br)

    def over(X, st, e):
        X.ob()
        if X.const(st, e.val) != 0:
            X.bad(st, e, "an ended log session still counts as open")
        st.ps["off"] = 1

    def ex2(X, st, v, fn):
        X.ob()
        if not st.ps.get("off"):
            X.badfn(st, fn, "end_session: the session still counts as open, so later commits take its epoch as marker")
    K.run("C15.session", session.__doc__, "lpwal::handler::end_session", minimum=1, write={"begun_session_": over}, exit=ex2)


def notify(K):
    """a newly durable epoch is recorded before it is passed, unchanged, to every registered callback"""
    CALL = SK + "call_durability_callbacks"

    def at(X, st, e):
        if e.kind != "astore" or "datastore_durable_epoch" not in pretty(e.loc):
            return
        X.ob()
        st.ps["st"] = 1
        if not is_param(e.val, 0) or e.val.kind == "op":
            X.bad(st, e, "the durable epoch recorded is not the one the log reported")

    def call(X, st, e):
        X.ob()
        v = X.arg(st, e, 0)
        if not st.ps.get("st"):
            X.bad(st, e, "the callbacks are invoked before the durable epoch is recorded")
        if v is None or not is_param(v, 0) or v.kind == "op":
            X.bad(st, e, "the callbacks get another epoch than the log reported")
        st.ps["c"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("st"):
            X.badfn(st, fn, "set_datastore_durable_epoch: the durable epoch is not recorded")
        if not st.ps.get("c"):
            X.badfn(st, fn, "set_datastore_durable_epoch: the callbacks are not invoked")
    K.run("C15.notify", notify.__doc__, "epoch::set_datastore_durable_epoch", minimum=2, stop={CALL}, call={CALL: call}, atomic=at, exit=ex)

    # every element that can be called is called once
    FO = "std::function::operator()"

    def one(X, st, e):
        X.ob()
        if not X.eng.held(st, "mtx_durability_callbacks"):
            X.bad(st, e, "calls a callback without the lock that guards them")
        v = X.arg(st, e, 0)
        if v is None or not is_param(v, 0) or v.kind == "op":
            X.bad(st, e, "a callback gets another epoch than the one that became durable")
        r = X.recv(st, e)
        if st.ps.get("n") and st.ps.get("last") is r and r is not None and "begin" in pretty(r):
            X.bad(st, e, "a callback is invoked twice")
        st.ps["n"] = 1
        st.ps["last"] = r

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and a.kind == "it" and b.kind == "it":
            if st.ps.get("in") and not st.ps.get("n") and not st.ps.get("skip"):
                X.bad(st, e, "a registered callback is not invoked")
            for k in ("n", "skip", "in"):
                st.ps.pop(k, None)
            if not t:
                st.ps["in"] = 1
            else:
                st.ps["end"] = 1
        elif a.kind in ("ld", "e") and "it(" in pretty(a):
            if o == "==" and X.const(st, b) == 0:
                t = not t
            if not t:
                st.ps["skip"] = 1

    def ex2(X, st, v, fn):
        X.ob()
        if st.ps.get("in"):
            X.badfn(st, fn, "call_durability_callbacks: stops before the last callback")
    K.run("C15.notify", notify.__doc__, "call_durability_callbacks", minimum=2, call={FO: one}, branch=br, exit=ex2)


def register(K):
    """a newly registered callback learns the durable epoch it missed and every later one: both under the lock that guards the callbacks"""
    FO = "std::function::operator()"
    pw = logging(K)

    def tell(X, st, e):
        X.ob()
        v = X.arg(st, e, 0)
        if v is not None and not is_result(v, DE) and v.kind != "u" and not (is_aload(v) and "datastore_durable_epoch" in pretty(v)):
            X.bad(st, e, "a new callback gets an epoch that is not the durable one")
        if v is not None and is_result(v, DE) and not st.ps.get("read"):
            X.bad(st, e, "the durable epoch passed to a new callback was read without the lock: one reported in between is lost")
        if not X.eng.held(st, "mtx_durability_callbacks"):
            X.bad(st, e, "tells a new callback without the lock that guards them: an epoch reported in between is lost")
        st.ps["t"] = 1

    def read(X, st, e):
        st.ps["read"] = bool(X.eng.held(st, "mtx_durability_callbacks"))

    def add(X, st, e):
        if short(e.name) in ("emplace_back", "push_back", "insert", "emplace") and e.recv is not None and \
                "durability_callbacks" in pretty(X.recv(st, e) or e.recv[0]):
            X.ob()
            if not X.eng.held(st, "mtx_durability_callbacks"):
                X.bad(st, e, "registers a callback without the lock that guards them")
            st.ps["a"] = st.ps.get("a", 0) + 1
            if pw and st.ps.get("rel"):
                X.bad(st, e, "the lock is given up between telling a new callback and registering it: an epoch reported in between is lost")

    def lock(X, st, e):
        if e.kind == "release" and "mtx_durability_callbacks" in pretty(e.loc) and (st.ps.get("t")):
            st.ps["rel"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("a") != 1:
            X.badfn(st, fn, "register_durability_callback: the callback is not registered exactly once")
        if pw and not st.ps.get("t"):
            X.badfn(st, fn, "register_durability_callback: the callback does not learn the current durable epoch")
    K.run("C15.register", register.__doc__, "register_durability_callback", minimum=2, stop={DE}, call={FO: tell}, after={DE: read},
          anycall=add, lock=lock, exit=ex)
