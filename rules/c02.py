"""C02: locks and index sessions are released exactly once on every path."""
from rulekit import *
from publish import split, rec_tid, SSTOP, LSTOP

NOTE = ("every path of every function that takes a record lock, the write-preserve table lock, an index or internal session or the "
        "commit-in-progress mark, up to its return: what was taken was given back once, what is given back was held; the lock primitives")
ASSUMPTIONS = ["a path that ends with a fatal internal error, or on which an internal transaction or the index contradicts itself, is not judged",
               "loops over a write set are followed for one entry: what holds for one holds for each"]
LOCK, UNLOCK = SK + "tid_word::lock", SK + "tid_word::unlock"
TLOCK, TUNLOCK = SK + "wp::wp_lock::lock", SK + "wp::wp_lock::unlock"
MARK, UNMARK = SK + "session::lock_short_expose_ongoing", SK + "session::unlock_short_expose_ongoing_and_refresh_epoch"
WS = frozenset(("cont_for_occ_", "cont_for_bt_"))
PRIM = q("Record::lock Record::unlock tid_word::lock tid_word::unlock")
REM = q("tid_word::lock tid_word::unlock remove get")


def check(K):
    for f in (word, table, sessions, scopes, commit):
        K.part("C02." + f.__name__, f)


def owner(e):
    return e.recv[1] if e.recv is not None else None


class Held:
    """Follows the record lock."""

    def __init__(self, same):
        self.same = same
        self.call = {LOCK: self.lock, UNLOCK: self.unlock}

    def lock(self, X, st, e):
        X.ob()
        loc = owner(e)
        if st.ps.get("held") and not st.ps.get("imp") and (self.same or loc is not None and st.ps.get("loc") is loc):
            X.bad(st, e, "%s: locks a record with the one locked at %s:%d still locked" % ((X.root,) + st.ps.get("at", ("?", 0))))
        if self.same:
            st.ps.pop("imp", None)
        st.ps["held"] = 1
        st.ps["loc"] = loc
        st.ps["at"] = (e.fn["file"], e.line)

    def drop(self, X, st, e, loc, how):
        X.ob()
        was = st.ps.pop("held", None)
        h = st.ps.pop("loc", None)
        st.ps.pop("at", None)
        if not was:
            if not st.ps.get("aborted") and not st.ps.get("imp"):
                X.bad(st, e, "%s: %s a record that it does not hold" % (X.root, how))
        elif self.same and loc is not None and h is not None and loc is not h and not any(mentions(x, lambda y: y.kind == "u") for x in (loc, h)):
            X.bad(st, e, "%s: %s another record than the one it holds" % (X.root, how))

    def unlock(self, X, st, e):
        self.drop(X, st, e, owner(e), "unlocks")

    def atomic(self, X, st, e):
        if e.kind != "astore" or not loc_is(e.loc, "tidw_"):
            return
        if e.val is None or e.val.kind == "u":
            st.ps.pop("held", None)
            return
        base, over = split(e.val)
        v = over.get("lock_")
        c = X.const(st, v) if v is not None else None
        if c == 1 or v is None and (rec_tid(base, None) or is_aload(base)):
            return  # changes the stamp and keeps the lock
        if v is not None and c is None:
            st.ps.pop("held", None)
            return
        self.drop(X, st, e, e.loc, "stores an unlocked stamp in")

    def exit(self, X, st, v, fn):
        X.ob()
        if st.ps.get("held") and not st.ps.get("imp"):
            X.badfn(st, fn, "%s: returns with the record locked at %s:%d still locked" % ((X.root,) + st.ps.get("at", ("?", 0))))


def scopes(K):
    """a record locked outside a short transaction's commit is unlocked, once, by the same function"""
    H = Held(True)
    OK = K.S("OK")

    def rm(X, st, e):
        st.ps["rm"] = e.val

    def br(X, st, e):
        r = st.ps.get("rm")
        if r is not None and X.outcome(st, r, OK) == "no":
            st.ps["imp"] = 1  # the index does not know a record it listed

    def round_(X, st, e):
        H.exit(X, st, None, e.fn)
        for k in ("held", "loc", "at", "imp", "rm"):
            st.ps.pop(k, None)
    stop = LSTOP | SSTOP | q("remove get garbage::set_dirty sleepUs")
    stop = stop - q("Record::set_tid Record::unlock short_tx::abort")
    for root in ("short_tx::abort", "long_tx::abort", "try_deleted_to_inserting", "long_tx::commit", "delete_record", "garbage::work_cleaner"):
        K.run("C02.scopes", scopes.__doc__, root, minimum=1, stop=stop - {SK + root}, call=dict(H.call, **{SK + "sleepUs": round_}),
              after={SK + "remove": rm}, branch=br, root=root, atomic=H.atomic, exit=H.exit, once=True, merge_exits=80, merge_block=150)


def commit(K):
    """when a short commit returns, records and the commit-in-progress mark it took are released once, and it aborts only with nothing locked"""
    H = Held(False)
    OK, FATAL = K.S("OK"), K.S("ERR_FATAL")

    def imp(X, st):
        r = st.ps.get("get")
        if r is not None and X.outcome(st, r, OK) == "no":
            st.ps["imp"] = 1  # a record of the write set is not in the index although the write set keeps it there
        return st.ps.get("imp")

    def got(X, st, e):
        imp(X, st)
        st.ps["get"] = e.val

    def br(X, st, e):
        imp(X, st)
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and not t and b is not None and any(x.kind == "o" and x.args[0] == SK + "get" for x in (a, b)):
            st.ps["imp"] = 1  # neither is another record found under its key

    def unlock(X, st, e):
        if not imp(X, st):
            H.unlock(X, st, e)

    def abort(X, st, e):
        X.ob()
        if imp(X, st):
            return
        if st.ps.get("held"):
            X.bad(st, e, "%s: aborts with the record locked at %s:%d still locked" % ((X.root,) + st.ps.get("at", ("?", 0))))
            st.ps.pop("held")
        st.ps["aborted"] = 1

    def mark(X, st, e):
        X.ob()
        if st.ps.get("mark"):
            X.bad(st, e, "%s: marks the commit as in progress twice" % X.root)
        st.ps["mark"] = 1

    def unmark(X, st, e):
        X.ob()
        if not st.ps.pop("mark", None) and not imp(X, st):
            X.bad(st, e, "%s: takes back the commit-in-progress mark without having set it" % X.root)

    def ex(X, st, v, fn):
        if imp(X, st) or X.outcome(st, v, FATAL) == "ok":
            return
        H.exit(X, st, v, fn)
        if st.ps.get("mark"):
            X.badfn(st, fn, "%s: returns with the commit still marked as in progress" % X.root)
    stop = SSTOP - q("Record::set_tid Record::unlock")
    K.run("C02.commit", commit.__doc__, "short_tx::commit", minimum=20, root="short_tx::commit", stop=stop, call={
        LOCK: H.lock, UNLOCK: unlock, SK + "short_tx::abort": abort, MARK: mark, UNMARK: unmark}, after={SK + "get": got},
        branch=br, atomic=H.atomic, exit=ex, nonempty=WS, once=True, countto=1, merge_exits=200, merge_block=300)


def table(K):
    """the write-preserve table lock is given back, once, by the function that takes it"""
    def lk(X, st, e):
        X.ob()
        take = short(e.name) == "lock"
        h = st.ps.get("t")
        if take and h:
            X.bad(st, e, "%s: locks the table twice" % X.root)
        elif not take and not h:
            X.bad(st, e, "%s: unlocks the table without holding it" % X.root)
        st.ps["t"] = take

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("t"):
            X.badfn(st, fn, "%s: returns with the write-preserve table locked" % X.root)
    for root in ("wp::wp_meta::register_wp", "wp::wp_meta::register_wp_result_and_remove_wp", "wp::wp_meta::remove_wp", "long_tx::update_wp_at_commit"):
        K.run("C02.table", table.__doc__, root, minimum=2, root=root, call={TLOCK: lk, TUNLOCK: lk}, stop=frozenset((TLOCK, TUNLOCK)), exit=ex,
              merge_exits=80, merge_block=100, once=True)


def sessions(K):
    """an index session or internal session opened by an operation is closed, once, before the operation returns"""
    OK, FATAL = K.S("OK"), {K.S("ERR_FATAL"), K.S("ERR_FATAL_INDEX")}
    API = {"yakushima::enter": ("y", 9), SK + "enter": ("s", OK)}
    WHAT = {"y": "index session", "s": "internal session"}
    TX = q("tx_begin upsert commit delete_record search_key")

    def opened(X, st, k):
        r = st.ps.get(k)
        return r is not None and X.outcome(st, r, 9 if k == "y" else OK) != "no"

    def ent(X, st, e):
        X.ob()
        k, _ = API[e.name]
        if opened(X, st, k) and not st.ps.get("imp"):
            X.bad(st, e, "%s: opens a second %s before closing the first" % (X.root, WHAT[k]))
        st.ps[k] = e.val

    def lv(X, st, e):
        X.ob()
        k = "y" if e.name.startswith("yaku") else "s"
        if not opened(X, st, k):
            X.bad(st, e, "%s: closes an %s that is not open" % (X.root, WHAT[k]))
        st.ps.pop(k, None)

    def res(X, st, e):
        st.ps["tx"] = e.val

    def br(X, st, e):
        r = st.ps.get("tx")
        if r is not None and X.outcome(st, r, OK) == "no":
            st.ps["imp"] = 1  # an internal transaction fails although nobody else can be in its way

    def ex(X, st, v, fn):
        X.ob()
        br(X, st, None)
        if st.ps.get("imp") or v is not None and X.const(st, v) in FATAL:
            return
        for k in ("y", "s"):
            if opened(X, st, k):
                X.badfn(st, fn, "%s: returns without closing the %s it opened" % (X.root, WHAT[k]))
    ENT = frozenset(API)
    LV = frozenset(("yakushima::leave", SK + "leave"))
    stop = ENT | LV | TX | q("abort storage::list_storage garbage::set_dirty Record::~Record wp::page_set_meta::page_set_meta "
                             "storage::key_handle_map_get_key remove sleepUs tid_word::lock tid_word::unlock")
    roots = "create_storage delete_storage storage_get_options storage_set_options create_sequence delete_sequence garbage::work_cleaner"
    for root in roots.split():
        K.run("C02.sessions", sessions.__doc__, root, minimum=1, root=root, stop=stop - {SK + root}, after=dict({n: ent for n in ENT}, **{n: res for n in TX}),
              call={n: lv for n in LV}, branch=br, exit=ex, once=True, merge_exits=80, merge_block=100)


def word(K):
    """a record lock is taken by changing an unlocked stamp to the same stamp locked, and given back by unlocking it"""
    def at(X, st, e):
        if e.kind == "acas":
            X.ob()
            st.ps["cas"] = (e.args[0], e.val, e.args[1])
            if st.ps.get("free") is not True:
                X.bad(st, e, "takes the lock although the stamp may be locked")
        elif e.kind == "aload":
            st.ps.pop("free", None)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if field_of(a, "lock_") is not None or ld_is(a, "lock_"):
            st.ps["free"] = (not t) if o != "==" else (t == (X.const(st, b) == 0))

    def ex(X, st, v, fn):
        X.ob()
        c = st.ps.get("cas")
        if c is None:
            X.badfn(st, fn, "returns without having taken the lock")
            return
        exp, des, res = c
        if X.const(st, res) != 1 and X.outcome(st, res, 0) != "no":
            X.badfn(st, fn, "returns although the lock may not have been taken")
        b, over = split(des)
        if des.kind != "u" and X.const(st, over.get("lock_", ZERO)) != 1:
            X.badfn(st, fn, "takes the lock without marking the stamp as locked")
    K.run("C02.word", word.__doc__, "tid_word::lock", minimum=2, atomic=at, branch=br, exit=ex)

    def ua(X, st, e):
        if e.kind == "astore":
            X.ob()
            b, over = split(e.val)
            st.ps["st"] = 1
            if e.val.kind != "u" and (over.get("lock_") is None or X.const(st, over["lock_"]) != 0):
                X.bad(st, e, "gives the lock back without marking the stamp as unlocked")
            for f in over:
                if f not in ("lock_", "lock_by_gc_"):
                    X.bad(st, e, "gives the lock back and changes the stamp")

    def uex(X, st, v, fn):
        X.ob()
        if not st.ps.get("st"):
            X.badfn(st, fn, "returns without giving the lock back")
    K.run("C02.word", word.__doc__, "tid_word::unlock", minimum=2, atomic=ua, exit=uex)
