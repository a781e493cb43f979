"""C13: operations check their preconditions before having any effect."""
from rulekit import *
import ops

NOTE = ("every path of every public data operation: before any effect each precondition was tested, and a failed test leads to its "
        "own status with no effect; begin, commit and abort likewise")


def check(K):
    for f in (data, cursors, ends, begin, predicates):
        K.part("C13." + f.__name__, f)


def refusals(K, W, ps, root):
    """Statuses this path must choose from because a test failed."""
    S = K.S
    out = []
    if ps.get("began") is False:
        out.append("WARN_NOT_BEGIN")
    if any(v is False for k, v in ps.items() if k.startswith("key") and k[3:].isdigit()):
        out.append("WARN_INVALID_KEY_LENGTH")
    if ps.get("ro"):
        out.append("WARN_ILLEGAL_OPERATION")
    if ps.get("storage") is False:
        out.append("WARN_STORAGE_NOT_FOUND")
    if ps.get("early") or ps.get("high"):
        out.append("WARN_PREMATURE")
    if ps.get("wpset") is False:
        out.append("WARN_WRITE_WITHOUT_WP")
    if ps.get("handle") is False:
        out.append("WARN_INVALID_HANDLE")
    return [(n, S(n)) for n in out]


def need(K, W, X, st, e, what, ro_storage=False):
    """Everything that must be known before an effect."""
    ps = st.ps
    root = X.root
    ty = W.types(st)
    X.ob()
    if not ps.get("began"):
        X.bad(st, e, "%s: %s without having found a running transaction" % (root, what))
    for i in ops.KEYS.get(root, (2,)):
        if not ps.get("key%d" % i):
            X.bad(st, e, "%s: %s without having checked the length of the key" % (root, what))
    if root in ops.WRITES:
        if W.RO in ty:
            X.bad(st, e, "%s: %s although the transaction may be read-only" % (root, what))
        if not ps.get("storage"):
            X.bad(st, e, "%s: %s without having found the storage" % (root, what))
        if W.LONG in ty:
            if ps.get("early") is not False:
                X.bad(st, e, "%s: %s by a long transaction that may not have started" % (root, what))
            if not ps.get("wpset"):
                X.bad(st, e, "%s: %s by a long transaction that may not have preserved the storage" % (root, what))
    else:
        if not ps.get("storage") and not (ty == {W.RO} and ps.get("got")):
            X.bad(st, e, "%s: %s without having found the storage" % (root, what))
        if ty & {W.LONG, W.RO}:
            if ps.get("early") is not False:
                X.bad(st, e, "%s: %s by a transaction whose start epoch may not have come" % (root, what))
            if ps.get("high") is not False:
                X.bad(st, e, "%s: %s while an older short transaction may still be exposing" % (root, what))


def exits(K, W):
    OK = K.S("OK")
    ONLY = {K.S("WARN_NOT_BEGIN"): "WARN_NOT_BEGIN", K.S("WARN_INVALID_KEY_LENGTH"): "WARN_INVALID_KEY_LENGTH",
            K.S("WARN_ILLEGAL_OPERATION"): "WARN_ILLEGAL_OPERATION", K.S("WARN_PREMATURE"): "WARN_PREMATURE",
            K.S("WARN_WRITE_WITHOUT_WP"): "WARN_WRITE_WITHOUT_WP"}

    def ex(X, st, v, fn):
        ps = st.ps
        c = X.const(st, v)
        X.ob()
        ps["ro"] = W.types(st) == {W.RO} and X.root in ops.WRITES and ps.get("began") is not False and not ps.get("eff")
        want = refusals(K, W, ps, X.root)
        if ps["ro"] and any(n != "WARN_ILLEGAL_OPERATION" for n, _ in want):
            want = [w for w in want if w[0] != "WARN_ILLEGAL_OPERATION"]
        if want and ps.get("doomed") and c == K.S("ERR_CC"):
            return
        if want and c is not None and c not in [x for _, x in want]:
            X.badfn(st, fn, "%s: returns %s where it has to be %s" % (X.root, K.status_name(c), " or ".join(n for n, _ in want)))
        if want and ps.get("eff"):
            X.badfn(st, fn, "%s: is refused with %s after it already had an effect" % (X.root, want[0][0]))
        if c in ONLY and ONLY[c] not in [n for n, _ in want]:
            X.badfn(st, fn, "%s: returns %s although nothing of the kind was found" % (X.root, ONLY[c]))
    return ex


def data(K):
    """point and scan operations test key, transaction, storage, start epoch and preserve before any effect"""
    W = ops.Watch(K)

    def eff(X, st, e):
        need(K, W, X, st, e, short(e.name))
        st.ps["eff"] = 1
    for r in ops.WRITES + ops.READS:
        calls = {n: eff for n in ops.EFFECTS}
        if r in ops.READS:
            # these are part of refusing for another reason
            pass
        K.run("C13.data", data.__doc__, r, minimum=8, stop=ops.STOP, call=calls, after=W.after(), branch=W.branch, exit=exits(K, W),
              root=r, merge_block=200)


def cursors(K):
    """cursor operations find a running transaction and a valid handle before looking behind the handle"""
    W = ops.Watch(K)

    def anyc(X, st, e):
        ps = st.ps
        r = X.recv(st, e)
        behind = r is not None and mentions(r, lambda x: x.kind == "p" and x.args[0] == 1) or e.name in ops.EFFECTS
        if e.name in ops.EFFECTS and short(e.name) in ("delete_scan_cache", "delete_scan_context"):
            # these test the handle themselves
            X.ob()
            if not ps.get("began"):
                X.bad(st, e, "%s: %s without having found a running transaction" % (X.root, short(e.name)))
            return
        if not behind:
            return
        X.ob()
        if not ps.get("began"):
            X.bad(st, e, "%s: uses the handle without having found a running transaction" % X.root)
        if not ps.get("handle"):
            X.bad(st, e, "%s: looks behind a handle that was not found valid" % X.root)
        if e.name in ops.EFFECTS:
            ps["eff"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        c = X.const(st, v)
        X.ob()
        for k, n in (("began", "WARN_NOT_BEGIN"), ("handle", "WARN_INVALID_HANDLE")):
            if ps.get(k) is False and c is not None and c != K.S(n):
                X.badfn(st, fn, "%s: returns %s where it has to be %s" % (X.root, K.status_name(c), n))
            if ps.get(k) and c == K.S(n):
                X.badfn(st, fn, "%s: returns %s although nothing of the kind was found" % (X.root, n))
        if c == K.S("OK") and not ps.get("began"):
            X.badfn(st, fn, "%s: reports success without a running transaction" % X.root)
    for r in ops.CURSORS:
        K.run("C13.cursors", cursors.__doc__, r, minimum=3, stop=ops.STOP, anycall=anyc, after=W.after(), branch=W.branch, exit=ex,
              root=r, merge_block=200)


def ends(K):
    """commit and abort act only on a running transaction whose commit was not requested before"""
    W = ops.Watch(K)
    S = K.S
    ACT = q("short_tx::abort long_tx::abort read_only_tx::abort short_tx::commit long_tx::commit read_only_tx::commit "
            "session::set_result")

    def branch(X, st, e):
        W.branch(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        if W.at_field(a, "requested_commit_"):
            st.ps["req"] = t if o == "t" else (t == bool(b.args[0]) if b.kind == "c" else None)

    def act(X, st, e):
        X.ob()
        ty = W.types(st)
        n = e.name[len(SK):]
        if not st.ps.get("began"):
            X.bad(st, e, "%s: %s without having found a running transaction" % (X.root, n))
        if n.startswith("long_tx") or n.startswith("short_tx") or n.startswith("read_only_tx"):
            want = {"long_tx": W.LONG, "short_tx": W.SHORT, "read_only_tx": W.RO}[n.split(":")[0]]
            if ty != {want}:
                X.bad(st, e, "%s: %s for a transaction of another type" % (X.root, n))
        if W.LONG in ty and st.ps.get("req") is not False:
            X.bad(st, e, "%s: %s although commit of the long transaction may have been requested before" % (X.root, n))
        st.ps["act"] = st.ps.get("act", 0) + (0 if n.endswith("set_result") else 1)

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if fn["ret"] == "bool":
            return
        if ps.get("began") is False and c is not None and c != S("WARN_NOT_BEGIN"):
            X.badfn(st, fn, "%s: returns %s without a running transaction" % (X.root, K.status_name(c)))
        if ps.get("req"):
            w = "WARN_WAITING_FOR_OTHER_TX" if X.root == "commit" else "WARN_ILLEGAL_OPERATION"
            if c is not None and c != S(w):
                X.badfn(st, fn, "%s: returns %s after commit was requested, has to be %s" % (X.root, K.status_name(c), w))
        if c == S("OK") and ps.get("act", 0) != 1:
            X.badfn(st, fn, "%s: reports success without ending the transaction" % X.root)
        if c == S("WARN_NOT_BEGIN") and ps.get("began"):
            X.badfn(st, fn, "%s: refuses although a transaction is running" % X.root)
    for r in ("commit", "abort"):
        K.run("C13.ends", ends.__doc__, r, minimum=6, stop=ops.STOP | ACT, call={n: act for n in ACT}, branch=branch, exit=ex, root=r)


def begin(K):
    """beginning acts only on a session without running transaction, and write preserves only on long transactions"""
    W = ops.Watch(K)
    S = K.S
    ACT = q("long_tx::tx_begin read_only_tx::tx_begin session::set_tx_began session::set_begin_epoch session::clear_local_set "
            "session::init_flags_for_stx_begin session::init_flags_for_ltx_begin session::init_flags_for_rtx_begin "
            "session::set_tx_counter")

    def typ(t):
        return mentions(t, lambda z: z.kind in ("f", "fv") and short(z.args[1]) in ("transaction_type_",))

    def branch(X, st, e):
        W.branch(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and b.kind == "c" and typ(a):
            have = set(st.ps.get("ty", (W.SHORT, W.LONG, W.RO)))
            st.ps["ty"] = tuple(sorted(have & {b.args[0]} if t else have - {b.args[0]}))
        if mentions(e.val, lambda z: z.kind in ("f", "fv") and short(z.args[1]) == "write_preserve_"):
            # emptiness of the write preserve
            if o == "t" or o == "==" and b.kind == "c":
                st.ps["wpe"] = t if (o == "t" or b.args[0] == 0) else not t

    def act(X, st, e):
        X.ob()
        n = short(e.name)
        ps = st.ps
        ty = set(ps.get("ty", (W.SHORT, W.LONG, W.RO)))
        if ps.get("began") is not False:
            X.bad(st, e, "tx_begin: %s although a transaction may be running" % n)
        if ty != {W.LONG} and not ps.get("wpe"):
            X.bad(st, e, "tx_begin: %s of a transaction that is not long but may have write preserves" % n)
        want = {"long_tx::tx_begin": W.LONG, "read_only_tx::tx_begin": W.RO, "session::init_flags_for_stx_begin": W.SHORT,
                "session::init_flags_for_ltx_begin": W.LONG, "session::init_flags_for_rtx_begin": W.RO}.get(e.name[len(SK):])
        if want is not None and ty != {want}:
            X.bad(st, e, "tx_begin: %s for a transaction of another type" % n)
        if n.startswith("init_flags"):
            ps["init"] = want
        if n == "tx_begin":
            ps["called"] = want
            if ps.get("init") != want:
                X.bad(st, e, "tx_begin: the session is not prepared before beginning")
        if n == "set_tx_began":
            if ps.get("rc") is False:
                X.bad(st, e, "tx_begin: marks the transaction as running although beginning it failed")
            if {ps.get("init")} != ty:
                X.bad(st, e, "tx_begin: marks the transaction as running without preparing the session for its type")
            if ty != {W.SHORT} and (ps.get("called") is None or ps.get("rc") is None):
                X.bad(st, e, "tx_begin: marks the transaction as running without having begun it")
            ps["set"] = 1

    def br(X, st, e):
        branch(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        if a.kind == "r" and a.args[0] in (SK + "long_tx::tx_begin", SK + "read_only_tx::tx_begin"):
            r = ops.two(o, b, t, S("OK"))
            if r is not None and b.args[0] == S("OK"):
                st.ps["rc"] = r

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        ps = st.ps
        if ps.get("began") and c is not None and c != S("WARN_ALREADY_BEGIN"):
            X.badfn(st, fn, "tx_begin: returns %s although a transaction is running" % K.status_name(c))
        if c == S("WARN_ALREADY_BEGIN") and ps.get("began") is False:
            X.badfn(st, fn, "tx_begin: refuses although no transaction is running")
        if (c == S("OK")) != bool(ps.get("set")) and c is not None:
            X.badfn(st, fn, "tx_begin: returns %s %s marking the transaction as running" % (
                K.status_name(c), "after" if ps.get("set") else "without"))
    K.run("C13.begin", begin.__doc__, "tx_begin", minimum=8, stop=ops.STOP | ACT, call={n: act for n in ACT}, branch=br, exit=ex)


def predicates(K):
    """keys are too long exactly above 30 KiB; a storage is preserved exactly when listed"""
    S = K.S
    lim = 30 * 1024

    def sem(t, a):
        if t.kind not in ("p", "ld", "c") and t.args[0] not in ("<", "==", "!", "&&", "||") and is_param(t, 0):
            return a["size"]
        return None
    K.table("C13.length", "keys up to 30 KiB are accepted, longer ones refused", lambda: K.fns("check_constraint_key_length")[0],
            {"size": (0, 1, lim - 1, lim, lim + 1, 2 * lim, 1 << 32)}, sem,
            lambda a: S("OK") if a["size"] <= lim else S("WARN_INVALID_KEY_LENGTH"), minimum=6)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and (is_param(a, 0) and in_container(b, "wp_set_") or is_param(b, 0) and in_container(a, "wp_set_")):
            st.ps["eq"] = t

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if c == 1 and not st.ps.get("eq"):
            X.badfn(st, fn, "a storage that is not among the preserved ones is taken for preserved")
        if c == 0 and st.ps.get("eq"):
            X.badfn(st, fn, "a preserved storage is taken for not preserved")
    K.run("C13.listed", predicates.__doc__, "session::check_exist_wp_set", minimum=2, branch=br, exit=ex, nonempty=True, once=True)
