"""C21: a session serves one owner at a time and starts every transaction clean."""
from rulekit import *
from ends import Drop, WHAT
from publish import SSTOP, LSTOP
import ops

NOTE = ("entering and leaving: who gets a slot and what must have happened before it is free again; every commit that ends a transaction, with what of "
        "its state is dropped; how beginning sets up the kind-dependent state before the session counts as running")
ASSUMPTIONS = ["a token is used by one client at a time until it is left"]
CLEAN = SK + "session::clean_up"


def check(K):
    for f in (enter, leave, reset, begin, table):
        K.part("C21." + f.__name__, f)


def enter(K):
    """a slot is handed out only by the one that turned it from free to taken; otherwise entering is refused and no slot is kept"""
    OK = K.S("OK")

    def at(X, st, e):
        if e.kind == "acas" and loc_is(e.loc, "visible_"):
            X.ob()
            st.ps["slot"] = e.loc.args[0]
            st.ps["cas"] = 1
            old = e.args[0] if e.args else None
            if X.const(st, e.val) not in (1, None) or old is not None and X.const(st, old) not in (0, None):
                X.bad(st, e, "a slot is taken that was not free, or is not marked as taken")

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        z = t != (o == "==" and X.const(st, b) == 0)
        if is_result(a, "acas"):
            ps["own"] = z
        elif o == "==":
            its = [x for x in (a, b) if x.kind == "it" and "session_table_" in pretty(x)]
            if len(its) == 1 and not t and isinstance(its[0].args[1], tuple) and its[0].args[1][0] == "-":
                ps["more"] = 1
            elif len(its) == 2 and t and ps.get("more"):
                # there was a next slot
                ps["imp"] = 1

    def wr(X, st, e):
        if e.loc.kind == "f" and short(e.loc.args[1]) == "visible_" and not st.ps.get("cas"):
            X.bad(st, e, "a slot is taken without deciding against others who want it")
        if e.loc.kind == "d" and is_param(e.loc.args[0], 0):
            sl = st.ps.get("slot")
            if isinstance(sl, Term) and st.ps.get("own") and "session_table_" in pretty(e.val) and pretty(e.val).lstrip("&") != pretty(sl):
                X.bad(st, e, "the slot handed out is not the one taken")
            st.ps["tok"] = 1

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if c is None or st.ps.get("imp"):
            return
        if c == OK:
            if not st.ps.get("own"):
                X.badfn(st, fn, "entering succeeds without having got a slot of its own")
            elif not st.ps.get("tok"):
                X.badfn(st, fn, "entering succeeds without telling the caller the slot")
            elif not st.ps.get("idx"):
                X.badfn(st, fn, "a session is handed out without an index session")
        elif st.ps.get("own"):
            X.badfn(st, fn, "entering is refused but keeps the slot")

    def anyc(X, st, e):
        if e.name == "yakushima::enter":
            st.ps["idx"] = 1
    K.run("C21.enter", enter.__doc__, "enter", minimum=2, anycall=anyc, atomic=at, branch=br, anywrite=wr, exit=ex, nonempty=True, once=True,
          stop={"yakushima::enter"})


def leave(K):
    """a slot becomes free only for its own token, when it was taken, after the running transaction has ended and the index session was returned"""
    OK, WAIT, ILL = K.S("OK"), K.S("WARN_WAITING_FOR_OTHER_TX"), K.S("WARN_ILLEGAL_OPERATION")
    AB, CC = SK + "abort", SK + "check_commit"

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        z = t != (o == "==" and X.const(st, b) == 0)
        if ld_is(a, "visible_"):
            ps["vis"] = z
        elif ld_is(a, "tx_began_"):
            if not ps.get("ab") and ps.get("began") is not False:
                ps["began"] = z
        elif is_result(a, AB) and o == "==" and X.const(st, b) == ILL:
            ps["sub"] = t
        elif is_result(a, CC) and o == "==" and X.const(st, b) == WAIT:
            ps["dec"] = not t
        elif o == "==" and "session_table_" in pretty(a) + pretty(b) and any(is_param(x, 0) for x in (a, b)):
            ps["mine"] = t

    def ab(X, st, e):
        st.ps["ab"] = 1
        st.ps.pop("sub", None)

    def idx(X, st, e):
        if e.name == "yakushima::leave":
            X.ob()
            st.ps["idx"] = st.ps.get("idx", 0) + 1
            if st.ps["idx"] > 1:
                X.bad(st, e, "the index session is returned twice")
            if st.ps.get("free"):
                X.bad(st, e, "the index session is returned after the slot may belong to someone else")

    def at(X, st, e):
        ps = st.ps
        if e.kind != "astore" or not loc_is(e.loc, "visible_"):
            return
        X.ob()
        if X.const(st, e.val) != 0:
            X.bad(st, e, "leaving takes the slot again")
            return
        if ps.get("vis") is not True:
            X.bad(st, e, "a slot is freed that was not in use")
        if ps.get("began") is not False:
            if not ps.get("ab"):
                X.bad(st, e, "a slot is freed while its transaction is running")
            elif ps.get("sub") is not False and ps.get("dec") is not True:
                X.bad(st, e, "a slot is freed while the commit of its transaction is still being decided")
        if not ps.get("idx"):
            X.bad(st, e, "a slot is freed before its index session was returned")
        ps["free"] = 1

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if c == OK and not st.ps.get("free"):
            X.badfn(st, fn, "leaving succeeds but the slot stays taken")
        elif c not in (OK, None) and st.ps.get("free"):
            X.badfn(st, fn, "leaving is refused but the slot is free")
    K.run("C21.leave", leave.__doc__, "leave", minimum=3, stop={AB, CC, "yakushima::leave"}, branch=br, call={AB: ab, "yakushima::leave": idx}, atomic=at, exit=ex,
          nonempty=True, once=True)


def reset(K):
    """a commit that ends its transaction drops everything the next transaction could trip over"""
    D = Drop(K)
    OK = K.S("OK")
    for root, kind, stop in (("short_tx::commit", "SHORT", SSTOP), ("long_tx::commit", "LONG", LSTOP), ("read_only_tx::commit", "READ_ONLY", LSTOP)):
        def ex(X, st, v, fn, kind=kind):
            if st.ps.get("ab"):
                return
            if X.const(st, v) != OK and not st.ps.get("d tx_began_"):
                return
            X.ob()
            for f in D.missing(st, kind):
                X.badfn(st, fn, "a transaction ends but leaves %s to the next one" % WHAT[f])

        def ab(X, st, e):
            st.ps["ab"] = 1
        K.run("C21.reset", reset.__doc__, root, stop=(stop - {CLEAN}) | q("long_tx::expose_local_write short_tx::write_phase"), anycall=D.anycall, anywrite=D.write,
              branch=D.branch, exit=ex, call={n: ab for n in ops.ABORTS}, once=True, merge_exits=60)


def begin(K):
    """a session counts as running only after the kind of its transaction and everything depending on it are set up"""
    OK, AB = K.S("OK"), K.S("WARN_ALREADY_BEGIN")
    D = Drop(K)
    S, L, R = D.ty["SHORT"], D.ty["LONG"], D.ty["READ_ONLY"]
    GE = SK + "epoch::get_global_epoch"

    def wr(X, st, e):
        ps = st.ps
        if e.loc.kind != "f":
            return
        f = short(e.loc.args[1])
        if f == "tx_type_":
            ps["ty"] = X.const(st, e.val)
            if ps["ty"] is None:
                ps["ty"] = "any"
        elif f == "for_batch_":
            ps["bt"] = X.const(st, e.val)
        elif f == "requested_commit_":
            ps["rq"] = X.const(st, e.val)
        elif f == "begin_epoch_":
            ps["be"] = 1
        elif f == "tx_began_":
            X.ob()
            if X.const(st, e.val) != 1:
                return
            ps["began"] = 1
            if ps.get("was") is not False:
                X.bad(st, e, "a transaction begins although one is running in the session")
            t = ps.get("ty")
            want = kinds(X, st)
            if t is None:
                X.bad(st, e, "a transaction begins with the kind of the one before")
            elif t != "any" and want and t not in want:
                X.bad(st, e, "a transaction begins as one of another kind than asked for")
            elif t == S and ps.get("bt") != 0 or t == L and ps.get("bt") != 1:
                X.bad(st, e, "a transaction begins with the write set set up for another kind")
            if t == L and ps.get("rq") != 0:
                X.bad(st, e, "a long transaction begins with the commit request of the one before")
            if not ps.get("be"):
                X.bad(st, e, "a transaction counts as running before its epoch is known")
            if not ps.get("res"):
                X.bad(st, e, "a transaction begins with the result of the one before")

    def kinds(X, st):
        have = {S, L, R}
        for t, c in st.eq.items():
            if "transaction_type_" in pretty(t) or "get_transaction_type" in pretty(t):
                have &= {c}
        for t, cs in st.ne.items():
            if "transaction_type_" in pretty(t) or "get_transaction_type" in pretty(t):
                have -= set(cs)
        return have

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "tx_began_") and not st.ps.get("began"):
            st.ps["was"] = t != (o == "==" and X.const(st, b) == 0)

    def anyc(X, st, e):
        if short(e.name) == "clear" and "result_info" in e.name:
            st.ps["res"] = 1

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if c == OK and not st.ps.get("began"):
            X.badfn(st, fn, "beginning succeeds but the session does not count as running")
        elif c not in (OK, None) and st.ps.get("began"):
            X.badfn(st, fn, "beginning fails but the session counts as running")
    K.run(
        "C21.begin", begin.__doc__, K.fns("tx_begin", nparams=1), minimum=4, stop=q("long_tx::tx_begin read_only_tx::tx_begin epoch::get_global_epoch"), anywrite=wr,
        branch=br, anycall=anyc, exit=ex)


def table(K):
    """starting up frees and cleans every slot"""
    D = Drop(K)

    def wr(X, st, e):
        D.write(X, st, e)
        if e.loc.kind == "f":
            f = short(e.loc.args[1])
            if f == "session_id_":
                st.ps["id"] = 1
            if f == "visible_" and X.const(st, e.val) == 0:
                st.ps["vis"] = 1
            if f == "requested_commit_" and X.const(st, e.val) == 0:
                st.ps["rq"] = 1
            if f == "mrc_tid_":
                st.ps["mrc"] = 1

    def anyc(X, st, e):
        D.anycall(X, st, e)
        if short(e.name) == "set_mrc_tid":
            st.ps["mrc"] = 1

    def ex(X, st, v, fn):
        X.ob()
        for k, m in (("id", "its own number"), ("vis", "being free"), ("rq", "no commit request"), ("mrc", "a fresh last commit stamp")):
            if not st.ps.get(k):
                X.badfn(st, fn, "a slot starts without %s" % m)
        for kind in ("SHORT", "LONG"):
            for f in set(D.missing(st, kind)) - {"read_area_"}:
                X.badfn(st, fn, "a slot starts with %s of an earlier run" % WHAT[f])
    K.run("C21.table", table.__doc__, "session_table::init_session_table", anywrite=wr, anycall=anyc, branch=D.branch, exit=ex, nonempty=True, once=True)
