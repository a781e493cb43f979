"""C32: transaction state handles follow the transaction's life and are never confused."""
from rulekit import *
from publish import LSTOP

NOTE = ("acquiring, querying and releasing a handle: every path with the table, the session and the state it leaves behind; which state each "
        "way to end a transaction leaves in the handle, before the session forgets it")
ASSUMPTIONS = ["a handle is not released by one thread while another ends the transaction it belongs to"]
GE = SK + "epoch::get_global_epoch"
HIGH = SK + "session::find_high_priority_short"
CLEAR = SK + "session::clear_about_tx_state"
T = "shirakami::TxState::StateKind"


def check(K):
    for f in (acquire, query, release, numbers, session, ends):
        K.part("C32." + f.__name__, f)


def kind(K, n):
    return K.eng.enum(T, n)


def truth(X, st, o, b, t):
    return t != (o == "==" and X.const(st, b) == 0)


def cont_of(loc):
    return loc is not None and "handle_container_" in pretty(loc)


def acquire(K):
    """a handle is given out for a running transaction only, once, in a fresh entry that names its session and its state"""
    NB, AE, OK = K.S("WARN_NOT_BEGIN"), K.S("WARN_ALREADY_EXISTS"), K.S("OK")
    PRE = K.S("WARN_PREMATURE")
    WS, STD = kind(K, "WAITING_START"), kind(K, "STARTED")
    NEW = SK + "TxState::get_new_handle_ctr"
    TY = {n: K.eng.enum("shirakami::transaction_options::transaction_type", n) for n in ("SHORT", "LONG", "READ_ONLY")}

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if ld_is(a, "tx_began_"):
            ps["began"] = truth(X, st, o, b, t)
        elif ld_is(a, "has_current_tx_state_handle_"):
            ps["has"] = truth(X, st, o, b, t)
        elif o == "<" and is_result(a, GE) and ld_is(b, "valid_epoch_"):
            ps["early"] = t
        elif o == "<" and is_result(b, GE) and ld_is(a, "valid_epoch_"):
            ps["late?"] = t
        elif is_result(a, HIGH) and o == "==" and X.const(st, b) == PRE:
            ps["pre"] = t
        if o == "==" and ld_is(a, "tx_type_"):
            c = X.const(st, b)
            if t:
                ps["ty"] = c
            else:
                ps["nt"] = ps.get("nt", ()) + (c,)

    def new(X, st, e):
        X.ob()
        ps = st.ps
        if ps.get("began") is not True:
            X.bad(st, e, "a handle is made without a running transaction")
        if ps.get("has") is not False:
            X.bad(st, e, "a second handle may be made for the same transaction")

    def fresh(X, st, e):
        st.ps["hd"] = e.val

    def put(X, st, e):
        ps = st.ps
        if e.loc.kind == "f":
            n = short(e.loc.args[1])
            hd = ps.get("hd")
            if n == "has_current_tx_state_handle_":
                ps["W has"] = X.const(st, e.val)
            elif n == "current_tx_state_handle_":
                ps["W hd"] = e.val is hd
            elif n == "current_tx_state_ptr_":
                ps["W ptr"] = isinstance(hd, Term) and mentions(e.val, lambda z: z is hd)
            elif n == "token_" and cont_of(e.loc):
                ps["W tok"] = is_param(e.val, 0)
            elif n == "serial_epoch_" and cont_of(e.loc):
                ps["W ser"] = "0" if X.const(st, e.val) == 0 else "valid" if ld_is(e.val, "valid_epoch_") else "?"
            elif n == "kind_" and cont_of(e.loc):
                c = ps["W kind"] = X.const(st, e.val)
                X.ob()
                if c == STD and ps.get("ty") != TY["SHORT"]:
                    if ps.get("early") is not False and not ps.get("late?"):
                        X.bad(st, e, "a transaction counts as started although its epoch may not have come")
                    if ps.get("pre") is not False:
                        X.bad(st, e, "a transaction counts as started although a short transaction before it may be exposing its writes")
                if c not in (STD, WS):
                    X.bad(st, e, "a new handle starts in a state a running transaction is not in")
                if c == WS and ps.get("ty") == TY["SHORT"]:
                    X.bad(st, e, "a short transaction is reported as waiting to start, which it never leaves")
        elif mentions(e.loc, lambda z: z.kind == "p") and e.loc.kind == "d" and not ps.get("W out"):
            ps["W out"] = "new" if e.val is ps.get("hd") else "cur" if ld_is(e.val, "current_tx_state_handle_") else "?"

    def ins(X, st, e):
        ps = st.ps
        if short(e.name) in ("insert", "emplace", "insert_or_assign", "try_emplace") and cont_of(X.recv(st, e)):
            X.ob()
            hd = ps.get("hd")
            if not X.eng.held(st, "mtx_hc_", "X"):
                X.bad(st, e, "adds a handle without the lock of the table")
            v = [X.arg(st, e, i) for i in range(len(e.args))]
            ps["W ins"] = isinstance(hd, Term) and any(x is not None and mentions(x, lambda z: z is hd) for x in v)
        if short(e.name) == "operator[]" and cont_of(X.recv(st, e)):
            ps["W ins"] = X.arg(st, e, 0) is ps.get("hd")

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if ps.get("began") is False and c != NB:
            X.badfn(st, fn, "acquire_tx_state_handle: answers %s although there is no transaction" % K.status_name(c))
        if ps.get("has") and ps.get("began"):
            if c != AE:
                X.badfn(st, fn, "acquire_tx_state_handle: answers %s although there is a handle already" % K.status_name(c))
            if ps.get("W out") != "cur":
                X.badfn(st, fn, "acquire_tx_state_handle: does not return the handle the transaction has")
        if c != OK:
            if any(k in ps for k in ("W has", "W hd", "W ptr")) and (ps.get("has") or not ps.get("began")):
                X.badfn(st, fn, "acquire_tx_state_handle: changes the session although it gives out no new handle")
            return
        for k, m in (("W has", "the session does not remember that it has a handle"), ("W hd", "the session does not remember the handle"),
                     ("W ptr", "the session does not reach the state of the handle"), ("W tok", "the state does not know its session"),
                     ("W ins", "the handle is not in the table")):
            if not ps.get(k):
                X.badfn(st, fn, "acquire_tx_state_handle: " + m)
        if ps.get("W out") != "new":
            X.badfn(st, fn, "acquire_tx_state_handle: the handle returned is not the new one")
        if ps.get("W kind") is None:
            X.badfn(st, fn, "acquire_tx_state_handle: the new handle has no state")
        s = ps.get("W ser")
        if ps.get("ty") == TY["SHORT"] and s not in ("0", None):
            X.badfn(st, fn, "acquire_tx_state_handle: a short transaction gets an epoch to wait for")
        if ps.get("ty") in (TY["LONG"], TY["READ_ONLY"]) and s != "valid":
            X.badfn(st, fn, "acquire_tx_state_handle: the state does not get the epoch the transaction starts at")
    K.run("C32.acquire", acquire.__doc__, "acquire_tx_state_handle", minimum=5, stop={GE, HIGH, NEW}, call={NEW: new}, after={NEW: fresh},
          anycall=ins, anywrite=put, branch=br, exit=ex)


def query(K):
    """a query refuses unknown handles, moves a state forward only, and answers with the state it leaves"""
    INV, OK, PRE = K.S("WARN_INVALID_HANDLE"), K.S("OK"), K.S("WARN_PREMATURE")
    WS, STD, WD, D = (kind(K, n) for n in ("WAITING_START", "STARTED", "WAITING_DURABLE", "DURABLE"))
    NEXT = {WS: STD, WD: D}

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==" and ld_is(a, "kind_"):
            if t:
                ps["k"] = X.const(st, b)
        elif is_result(a, HIGH) and o == "==" and X.const(st, b) == PRE:
            ps["pre"] = t
        elif o == "<" and ld_is(b, "serial_epoch_") and is_result(a, GE):
            ps["early"] = t
        elif o == "<" and ld_is(a, "serial_epoch_") and is_result(b, GE):
            ps["early"] = not t if t else None
        elif o == "==" and a.kind == "it" and b.kind == "it" and "handle_container_" in pretty(a):
            ps["there"] = not t
            if not X.eng.held(st, "mtx_hc_"):
                X.bad(st, e, "looks a handle up without the lock of the table")
        elif o == "==" and is_param(a, 0) and a.kind != "op" and X.const(st, b) == 0 and t:
            ps["undef"] = 1

    def put(X, st, e):
        ps = st.ps
        c = X.const(st, e.val)
        if cont_of(e.loc):
            X.ob()
            k = ps.get("k")
            if k is None:
                X.bad(st, e, "a query overwrites the state of a transaction whatever it is")
            elif NEXT.get(k) != c and c != k:
                X.bad(st, e, "a query moves the state of a transaction where it cannot go")
            if c == STD:
                if ps.get("early") is not False:
                    X.bad(st, e, "a query reports a transaction started although its epoch may not have come")
                if ps.get("pre") is not False:
                    X.bad(st, e, "a query reports a transaction started although a short transaction before it may be exposing its writes")
            ps["in"] = c
        else:
            ps["out"] = c

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if (ps.get("there") is False or ps.get("undef")) and c != INV:
            X.badfn(st, fn, "check_tx_state: answers %s for a handle that is not in use" % K.status_name(c))
        if ps.get("there") and c == INV:
            X.badfn(st, fn, "check_tx_state: refuses a handle that is in use")
        if c == OK:
            if ps.get("there") is None:
                X.badfn(st, fn, "check_tx_state: answers without looking the handle up")
            i, o = ps.get("in"), ps.get("out")
            if i is not None and i != o:
                X.badfn(st, fn, "check_tx_state: moves the state without reporting it")
            if o is not None and i is None and o != ps.get("k"):
                X.badfn(st, fn, "check_tx_state: reports a state the transaction is not in")
    K.run("C32.query", query.__doc__, "check_tx_state", minimum=4, stop={HIGH, GE}, write={"kind_": put}, branch=br, exit=ex)

    def same(X, st, e):
        X.ob()
        if not X.eng.held(st, "mtx_hc_"):
            X.bad(st, e, "copies a state without the lock of the table")
        st.ps["cp"] = cont_of(X.arg(st, e, 0))

    def ex2(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if c == OK and not st.ps.get("cp"):
            X.badfn(st, fn, "find_and_get_tx_state: answers without the state of the handle")
        if c != OK and st.ps.get("cp"):
            X.badfn(st, fn, "find_and_get_tx_state: refuses a handle that is in use")
    K.run("C32.query", query.__doc__, "TxState::find_and_get_tx_state", minimum=2, call={SK + "TxState::operator=": same}, exit=ex2)


def release(K):
    """releasing drops the entry and frees the number once, and the session forgets the handle if it is its current one"""
    INV, OK = K.S("WARN_INVALID_HANDLE"), K.S("OK")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o == "==" and a.kind == "it" and b.kind == "it" and "handle_container_" in pretty(a):
            ps["there"] = not t
        elif o == "==" and any(ld_is(x, "current_tx_state_handle_") for x in (a, b)):
            if any(is_param(x, 0) and x.kind != "op" and not ld_is(x, "current_tx_state_handle_") for x in (a, b)):
                ps["cur"] = t
        elif o == "==" and is_param(a, 0) and a.kind != "op" and X.const(st, b) == 0 and t:
            ps["undef"] = 1

    def anyc(X, st, e):
        n, ps = short(e.name), st.ps
        r = X.recv(st, e)
        if n == "erase" and cont_of(r):
            X.ob()
            if not X.eng.held(st, "mtx_hc_", "X"):
                X.bad(st, e, "drops a handle without the lock of the table")
            ps["er"] = 1
        elif n in ("clear",) and cont_of(r):
            X.bad(st, e, "drops all handles")
        elif n in ("emplace_back", "push_back") and r is not None and "reuse_ctr_container_" in pretty(r):
            X.ob()
            if not X.eng.held(st, "mtx_reuse_ctr_container_"):
                X.bad(st, e, "frees a number without the lock of the free numbers")
            if ps.get("fr"):
                X.bad(st, e, "frees the number of a handle twice: it is then given out twice")
            if not ps.get("er"):
                X.bad(st, e, "frees the number of a handle that is still in use")
            ps["fr"] = 1
            if not is_param(X.arg(st, e, 0), 0):
                X.bad(st, e, "frees another number than the one of the handle")

    def forget(X, st, e):
        X.ob()
        if st.ps.get("cur") is not True:
            X.bad(st, e, "a session forgets a handle although another one was released")
        st.ps["fg"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if c == OK:
            if not ps.get("er"):
                X.badfn(st, fn, "release_tx_state_handle: the handle stays in use")
            if ps.get("cur") is not False and not ps.get("fg"):
                X.badfn(st, fn, "release_tx_state_handle: the session still reaches the released state")
        if (ps.get("there") is False or ps.get("undef")) and c != INV:
            X.badfn(st, fn, "release_tx_state_handle: answers %s for a handle that is not in use" % K.status_name(c))
        if ps.get("er") and c != OK:
            X.badfn(st, fn, "release_tx_state_handle: refuses a handle it has released")
    K.run("C32.release", release.__doc__, "release_tx_state_handle", minimum=4, stop={CLEAR}, anycall=anyc, call={CLEAR: forget}, branch=br, exit=ex)


def numbers(K):
    """a number is given out either by advancing the counter or by taking it out of the free numbers"""
    def anyc(X, st, e):
        r = X.recv(st, e)
        if r is not None and "reuse_ctr_container_" in pretty(r) and short(e.name) in ("pop_back", "erase", "pop_front"):
            X.ob()
            if not X.eng.held(st, "mtx_reuse_ctr_container_"):
                X.bad(st, e, "takes a free number without the lock of the free numbers")
            st.ps["pop"] = short(e.name)

    def at(X, st, e):
        if "handle_ctr_" in pretty(e.loc):
            st.ps["rmw" if e.kind in ("armw", "acas") else e.kind] = 1

    def ex(X, st, v, fn):
        X.ob()
        s = pretty(v) if v is not None else ""
        if "reuse_ctr_container_" in s:
            if not st.ps.get("pop"):
                X.badfn(st, fn, "get_new_handle_ctr: a free number is given out but stays free")
            elif ("back" if st.ps["pop"] == "pop_back" else "front" if st.ps["pop"] == "pop_front" else "") not in s:
                X.badfn(st, fn, "get_new_handle_ctr: another free number is taken than given out")
        else:
            if st.ps.get("pop"):
                X.badfn(st, fn, "get_new_handle_ctr: a free number is taken but another one given out")
            if not st.ps.get("rmw"):
                X.badfn(st, fn, "get_new_handle_ctr: the counter is not advanced in one step: two transactions get the same number")
    K.run("C32.numbers", numbers.__doc__, "TxState::get_new_handle_ctr", minimum=2, anycall=anyc, atomic=at, exit=ex)


def session(K):
    """a session forgets its handle completely, and reaches the state only while it has one"""
    def put(n):
        def h(X, st, e):
            X.ob()
            if X.const(st, e.val) == 0:
                st.ps[n] = 1
        return h
    FIELDS = ("has_current_tx_state_handle_", "current_tx_state_handle_", "current_tx_state_ptr_")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "has_current_tx_state_handle_"):
            st.ps["had"] = truth(X, st, o, b, t)

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("had") is False:
            return
        for f in FIELDS[:2]:
            if not st.ps.get(f):
                X.badfn(st, fn, "clear_about_tx_state: %s is kept" % f)
    K.run("C32.session", session.__doc__, "session::clear_about_tx_state", minimum=1, write={f: put(f) for f in FIELDS}, branch=br, exit=ex)

    def use(X, st, e):
        if e.loc.kind == "f" and e.loc.args[0].kind == "d" and "current_tx_state_ptr_" in pretty(e.loc.args[0]):
            X.ob()
            if st.ps.get("had") is not True:
                X.bad(st, e, "reaches the state of a handle although the session may have none")
            if not is_param(e.val, 0):
                X.bad(st, e, "sets another state than asked for")
            st.ps["w"] = 1

    def ex2(X, st, v, fn):
        X.ob()
        if st.ps.get("had") and not st.ps.get("w") and not any(ld_is(t, "kind_") for t in st.eq) and not \
                any(t.kind == "op" and mentions(t, lambda z: ld_is(z, "kind_")) for t in st.eq):
            X.badfn(st, fn, "set_tx_state_if_valid: the state is not set")
    K.run("C32.session", session.__doc__, "session::set_tx_state_if_valid", minimum=2, write={"kind_": use}, branch=br, exit=ex2)


def ends(K):
    """a transaction with a handle leaves its outcome in it before the session forgets the handle"""
    OK, WAIT = K.S("OK"), K.S("WARN_WAITING_FOR_OTHER_TX")
    pw = bool(K.eng.find(SK + "lpwal::flush_log", need=False))
    GOOD = kind(K, "WAITING_DURABLE") if pw else kind(K, "DURABLE")
    AB, CW = kind(K, "ABORTED"), kind(K, "WAITING_CC_COMMIT")
    SET = SK + "session::set_tx_state_if_valid"
    ABORTS = q("short_tx::abort long_tx::abort read_only_tx::abort")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "has_current_tx_state_handle_"):
            st.ps["had"] = truth(X, st, o, b, t)

    def put(X, st, e):
        if e.loc.kind == "f" and "current_tx_state_ptr_" in pretty(e.loc.args[0]):
            X.ob()
            if st.ps.get("had") is not True:
                X.bad(st, e, "reaches the state of a handle although the session may have none")
            mark(X, st, e, X.const(st, e.val))

    def mark(X, st, e, c):
        ps = st.ps
        if ps.get("cl"):
            X.bad(st, e, "the state is set after the session forgot the handle")
        ps["k"] = c

    def seti(X, st, e):
        X.ob()
        mark(X, st, e, X.const(st, X.arg(st, e, 0)))
        st.ps["cov"] = 1

    def clear(X, st, e):
        ps = st.ps
        X.ob()
        ps["cl"] = 1
        if ps.get("had") is False and not ps.get("cov"):
            return
        if ps.get("k") != X.want:
            X.bad(st, e, "the session forgets its handle before the outcome of the transaction is in it" if ps.get("k") is None else
                  "the handle is left in a state that is not the outcome of the transaction")

    def abort(X, st, e):
        st.ps["ab"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if c == WAIT and X.long:
            if ps.get("k") != CW and ps.get("had") is not False:
                X.badfn(st, fn, "commit: a waiting commit does not show in the state of the handle")
            return
        if X.want == AB or c == OK and not ps.get("ab"):
            if not ps.get("cl"):
                X.badfn(st, fn, "%s: the session keeps the handle of a finished transaction" % X.root)
    STOP = (LSTOP | q("long_tx::expose_local_write get_tx_id get_tx_id long_tx::cancel_flag_inserted_records session::call_commit_callback")) - q("session::clean_up")
    STOP |= q("""session::clear_local_set session::clear_about_long_tx_metadata session::clear_tx_property session::clear_about_scan""") | {CLEAR, SET}
    for r, want in (("short_tx::commit", GOOD), ("long_tx::commit", GOOD), ("read_only_tx::commit", GOOD), ("short_tx::abort", AB),
                    ("long_tx::abort", AB), ("read_only_tx::abort", AB)):
        K.run("C32.ends", ends.__doc__, r, minimum=2, stop=(STOP | ABORTS) - (q(r) if want == AB else frozenset()), call=dict(
            [(n, abort) for n in ABORTS] + [(SET, seti), (CLEAR, clear)]), branch=br, write={"kind_": put}, exit=ex, want=want, root=r,
            long=r == "long_tx::commit", merge_block=120)
