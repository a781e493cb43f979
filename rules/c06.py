"""C06: beginning a long or read-only transaction is atomic with the epoch."""
from rulekit import *

NOTE = ("every path of tx_begin: the reads of counter and epoch, the registrations and the mark as begun, with the locks held at each; "
        "and the check for older short commits, decided over all orders of the epochs involved")

WP, PUSH, PUSHL, PLAN = SK + "wp::write_preserve", SK + "ongoing_tx::push", SK + "ongoing_tx::push_bringing_lock", SK + "read_plan::add_elem"
EDGE = q("session::process_before_start_step session::process_before_finish_step")


def check(K):
    for f in (begin, push, short_):
        K.part("C06." + f.__name__.rstrip("_"), f)


def glob(loc, name):
    return loc is not None and loc.kind == "g" and short(loc.args[0]) == name


def begin(K):
    """a begin fixes identity, start epoch, write preserves and registration in one step that excludes the epoch worker, before it counts as begun"""
    OKV = K.S("OK")
    ty = SK + "transaction_options::transaction_type"
    LONG, RO, SHORT = (K.eng.enum(ty, n) for n in ("LONG", "READ_ONLY", "SHORT"))

    def kind(st):
        for t, c in st.eq.items():
            if ld_is(t, "transaction_type_"):
                return c
        return st.ps.get("ty")

    def locked(X, st, e, what):
        X.ob()
        if not X.eng.held(st, "wp_mutex"):
            X.bad(st, e, "tx_begin: %s while the epoch worker may run" % what)
        elif st.ps.get("cut"):
            X.bad(st, e, "tx_begin: %s after the epoch worker could run in between" % what)

    def lock(X, st, e):
        if e.kind == "release" and not X.eng.held(st, "wp_mutex") and (st.ps.get("ep") is not None or st.ps.get("id") is not None):
            st.ps["cut"] = 1

    def at(X, st, e):
        ps = st.ps
        if e.kind == "aload" and glob(e.loc, "global_epoch") and X.eng.held(st, "wp_mutex"):
            ps["g"] = e.val
        elif e.kind == "aload" and glob(e.loc, "cc_safe_ss_epoch") and X.eng.held(st, "wp_mutex"):
            ps["cs"] = e.val
        elif e.kind == "astore" and loc_is(e.loc, "valid_epoch_"):
            epoch(X, st, e)
        elif e.kind == "astore" and loc_is(e.loc, "tx_began_") and X.const(st, e.val) == 1:
            began(X, st, e)
        elif e.kind == "astore" and loc_is(e.loc, "tx_type_"):
            ps["ty"] = X.const(st, e.val)

    def epoch(X, st, e):
        ps = st.ps
        locked(X, st, e, "the start epoch is set")
        ps["ep"] = e.val
        nxt = e.val.kind == "op" and e.val.args[0] == "+" and e.val.args[1] is ps.get("g") and X.const(st, e.val.args[2]) == 1
        if kind(st) == LONG and not nxt:
            X.bad(st, e, "tx_begin: a long transaction does not start in the epoch after the current one")
        if kind(st) == RO:
            if not X.eng.held(st, "mtx_"):
                X.bad(st, e, "tx_begin: a snapshot is chosen while long transactions may register or end")
            if nxt:
                if ps.get("none") is not True:
                    X.bad(st, e, "tx_begin: a snapshot as new as the next epoch though long transactions may be running")
            elif e.val is not ps.get("cs"):
                X.bad(st, e, "tx_begin: a snapshot newer than running long transactions allow")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if a.kind == "pc" and "tx_info_" in pretty(a) and X.eng.held(st, "mtx_"):
            n = a.args[0] if isinstance(a.args[0], str) else ""
            if short(n) == "empty":
                st.ps["none"] = t
            elif short(n) == "size":
                st.ps["none"] = (not t) if o == "t" else t if o == "==" and b is ZERO else None
        if a.kind == "pc" and "write_preserve" in pretty(a) and short(a.args[0]) == "empty" and o == "t" and t:
            st.ps["nowp"] = 1
        if is_result(a, WP) and o == "==" and b is not None and b.kind == "c":
            st.ps["wpok"] = t if b.args[0] == OKV else None

    def wr(X, st, e):
        ps = st.ps
        if e.loc is None:
            return
        if loc_is(e.loc, "long_tx_id_"):
            locked(X, st, e, "the identity is set")
            if not glob_ld(e.val, "counter"):
                X.bad(st, e, "tx_begin: the identity is not the counter's value")
            ps["id"] = e.val
        elif glob(e.loc, "counter"):
            locked(X, st, e, "the identity counter moves")
            if not (e.val is not None and e.val.kind == "op" and e.val.args[0] == "+" and glob_ld(e.val.args[1], "counter") and X.const(st, e.val.args[2]) == 1):
                X.bad(st, e, "tx_begin: the identity counter does not move by one")
            ps["inc"] = 1

    def glob_ld(t, name):
        return t is not None and t.kind == "ld" and glob(t.args[0], name)

    def preserve(X, st, e):
        ps = st.ps
        locked(X, st, e, "the write preserves are set")
        ps["wp"] = 1
        i, ep = X.arg(st, e, 2), X.arg(st, e, 3)
        if i is not None and not glob_ld(i, "counter") and i.kind != "u":
            X.bad(st, e, "tx_begin: write preserves under another identity")
        if not (ep is not None and ep.kind == "op" and ep.args[1] is ps.get("g") and X.const(st, ep.args[2]) == 1) and ep is not ps.get("ep"):
            X.bad(st, e, "tx_begin: write preserves with another epoch than the start epoch")

    def reg(X, st, e):
        ps = st.ps
        locked(X, st, e, "the transaction is registered as running")
        if e.name == PUSHL and not X.eng.held(st, "mtx_", "X") and not X.eng.held(st, "mtx_", "x"):
            X.bad(st, e, "tx_begin: registers without the lock of the running transactions")
        v = X.arg(st, e, 0)
        p = list(v.args[0]) if v is not None and v.kind == "tup" and isinstance(v.args[0], tuple) else list(v.args) if v is not None and v.kind == "tup" else None
        if p and len(p) == 3:
            ep = ps.get("ep")
            if p[0] is not ep and not (ep is None and p[0].kind == "op") and p[0].kind != "u":
                X.bad(st, e, "tx_begin: registered with another epoch than the start epoch")
            if not glob_ld(p[1], "counter") and p[1].kind != "u":
                X.bad(st, e, "tx_begin: registered under another identity")
        if ps.get("wp") and ps.get("wpok") is not True:
            X.bad(st, e, "tx_begin: registered as running though the write preserves failed")
        ps["reg"] = 1

    def plan(X, st, e):
        X.ob()
        locked(X, st, e, "the read plan is published")
        i = X.arg(st, e, 0)
        if i is not None and not glob_ld(i, "counter") and i.kind != "u" and i is not st.ps.get("id"):
            X.bad(st, e, "tx_begin: read plan under another identity")
        st.ps["plan"] = 1

    def began(X, st, e):
        ps = st.ps
        k = kind(st)
        X.ob()
        ps["began"] = 1
        if k == SHORT or k is None:
            return
        for f, m in (("ep", "its start epoch is set"), ("id", "its identity is set"), ("inc", "the identity counter moved"), ("reg", "it is registered as running")):
            if ps.get(f) is None:
                X.bad(st, e, "tx_begin: counts as begun before %s" % m)
        if k == LONG:
            if ps.get("plan") is None:
                X.bad(st, e, "tx_begin: counts as begun before its read plan is published")
            if not ps.get("wp") and not ps.get("nowp"):
                X.bad(st, e, "tx_begin: counts as begun without its write preserves")

    def ex(X, st, v, fn):
        X.ob()
        if X.outcome(st, v, OKV) == "ok" and not st.ps.get("began"):
            X.badfn(st, fn, "tx_begin: succeeds without the transaction counting as begun")
        elif X.outcome(st, v, OKV) == "no" and st.ps.get("began"):
            X.badfn(st, fn, "tx_begin: fails though the transaction counts as begun")
    K.run("C06.begin", begin.__doc__, "tx_begin", minimum=20, stop=EDGE | {WP, PUSH, PUSHL, PLAN} | q("long_tx::preprocess_read_area"),
          call={WP: preserve, PUSH: reg, PUSHL: reg, PLAN: plan}, atomic=at, branch=br, anywrite=wr, lock=lock, exit=ex, merge_block=200, merge_exits=60)


def push(K):
    """registering a running transaction adds it under the lock of the running transactions"""
    def call(X, st, e):
        n = short(e.name)
        if n in ("push_back", "emplace_back", "insert", "emplace") and e.recv is not None and e.recv[1] is not None and glob(e.recv[1], "tx_info_"):
            X.ob()
            st.ps["add"] = 1
            if X.locks and not X.eng.held(st, "mtx_", "X"):
                X.bad(st, e, "ongoing_tx: adds a transaction without the exclusive lock of the running transactions")
            v = X.arg(st, e, 0)
            if n.endswith("back") and v is not None and v.kind != "u" and not is_param(v, 0) and "ti" not in pretty(v):
                X.bad(st, e, "ongoing_tx: adds something else than the transaction given")

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("add"):
            X.badfn(st, fn, "ongoing_tx: a transaction given is not added")
    K.run("C06.push", push.__doc__, "ongoing_tx::push", minimum=2, anycall=call, exit=ex, locks=True)
    K.run("C06.push", push.__doc__, "ongoing_tx::push_bringing_lock", minimum=2, anycall=call, exit=ex, locks=False)


def short_(K):
    """operations of long and read-only transactions wait for every short commit that may still write before their start epoch"""
    OKV = K.S("OK")

    def val(t):
        return t is not None and (ld_is(t, "valid_epoch_") or is_aload(t) and loc_is(t.args[3], "valid_epoch_"))

    def lim(t):
        return t is not None and is_aload(t) and glob(t.args[3], "min_epoch_occ_potentially_write")

    def status(t):
        return t is not None and mentions(t, lambda x: is_aload(x) and loc_is(x.args[3], "short_expose_ongoing_status_") or ld_is(x, "short_expose_ongoing_status_"))

    def at(X, st, e):
        if e.kind == "aload" and loc_is(e.loc, "short_expose_ongoing_status_"):
            if st.ps.get("open"):
                X.bad(st, e, "find_high_priority_short: a short commit in progress is passed over")
            st.ps["open"] = 1
            st.ps["seen"] = 1

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if o != "<":
            return
        if lim(a) and val(b):
            X.ob()
            if not t:
                ps["past"] = 1
        elif val(a) and lim(b):
            X.ob()
            if not t:
                ps["loose"] = 1
            else:
                ps["past"] = 1
        elif status(a) and val(b):
            X.ob()
            ps["open"] = 0
            if t:
                ps["older"] = 1
        elif status(b) and val(a):
            X.ob()
            X.bad(st, e, "find_high_priority_short: a short commit of the start epoch itself is treated like an older one")

    def mv(X, st, e):
        X.ob()
        v = X.arg(st, e, 0)
        if st.ps.get("older") or st.ps.get("open"):
            X.bad(st, e, "find_high_priority_short: moves the shared limit past a short commit in progress")
        if v is not None and v.kind != "u" and not status(v) and "UINT63_MASK" not in pretty(v) and v.kind != "c":
            X.bad(st, e, "find_high_priority_short: moves the shared limit to something else than the oldest short commit")

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if X.outcome(st, v, OKV) != "ok":
            return
        if not ps.get("past") and not ps.get("seen"):
            X.badfn(st, fn, "find_high_priority_short: lets a transaction proceed without having looked for older short commits")
        if ps.get("older"):
            X.badfn(st, fn, "find_high_priority_short: lets a transaction proceed before an older short commit is exposed")
        elif ps.get("open"):
            X.badfn(st, fn, "find_high_priority_short: lets a transaction proceed past a short commit it did not judge")
    K.run("C06.short", short_.__doc__, "session::find_high_priority_short", minimum=6, nonempty=True, stop=q("epoch::advance_min_epoch_occ_potentially_write get_tx_id"),
          call={SK + "epoch::advance_min_epoch_occ_potentially_write": mv}, atomic=at, branch=br, exit=ex, merge_block=200)
