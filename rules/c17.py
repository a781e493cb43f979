"""C17: garbage collection never removes what a running transaction can still reach."""
from rulekit import *

NOTE = ("every path of the collector up to each removal from the index, each freed record and each freed version, with what is known about lock, "
        "stamp and horizons there; how the horizons are derived from the running transactions; who frees records at all")
ASSUMPTIONS = ["the horizons stay valid after they were read: they only grow (checked) and are derived from all running transactions (checked)",
               "a short transaction that began in the epoch of the horizon holds no version older than the newest one of that epoch"]
GE = SK + "epoch::get_global_epoch"
RM = SK + "remove"
LOCK, UNLOCK = SK + "tid_word::lock", SK + "tid_word::unlock"
HOR = {"min_begin_epoch_": "begin", "min_batch_epoch_": "batch"}
STOP = q("""remove tid_word::lock tid_word::unlock epoch::get_global_epoch storage::list_storage wp::find_page_set_meta storage::exist_storage
storage::key_handle_map_get_key Record::get_key Record::get_value Record::get_key_view garbage::set_dirty sleepUs
Record::get_shared_tombstone_count""")


def check(K):
    for f in (unhook, release, prune, horizons, frees, guard):
        K.part("C17." + f.__name__, f)


def hor(t):
    """Which horizon t is a load of; the smaller of both counts as both."""
    if t.kind == "op" and t.args[0] == "min":
        r = set()
        for x in t.args[1:]:
            r |= hor(x)
        return r
    s = pretty(t)
    if is_aload(t) or t.kind == "ld" or t.kind == "g":
        return {v for k, v in HOR.items() if k in s}
    return set()


def unhook(K):
    """a record leaves the index only with its lock held and, seen under the lock, deleted and older than both horizons; it is kept with an epoch read afterwards"""
    OK = K.S("OK")

    def lock(X, st, e):
        ps = st.ps
        for k in ("ab", "lat", "begin", "batch", "t"):
            ps.pop(k, None)
        ps["lk"] = 1

    def unlock(X, st, e):
        st.ps.pop("lk", None)

    def at(X, st, e):
        if e.kind == "aload" and loc_is(e.loc, "tidw_") and st.ps.get("lk"):
            st.ps["t"] = e.val

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)

        def cur(x, f):
            base = field_of(x, f)
            if base is None:
                return False
            if not ps.get("lk"):
                ps["old"] = base
                return False
            if base is ps.get("t"):
                return True
            return base.kind == "ld" and loc_is(base.args[0], "tidw_") and base is not ps.get("old")
        if o != "<":
            if o == "==" and X.const(st, b) == 0:
                t = not t
            if cur(a, "absent_"):
                ps["ab"] = t
            elif cur(a, "latest_"):
                ps["lat"] = t
            return
        if cur(a, "epoch_"):
            for h in hor(b):
                ps[h] = t

    def rm(X, st, e):
        X.ob()
        ps = st.ps
        if not ps.get("lk"):
            X.bad(st, e, "a record is removed from the index without its lock")
            return
        if ps.get("ab") is not True:
            X.bad(st, e, "a record is removed from the index although it may not be deleted")
        elif ps.get("lat") is not False:
            X.bad(st, e, "a record is removed from the index although it may be being inserted again")
        if ps.get("begin") is not True:
            X.bad(st, e, "a record is removed from the index although a running short transaction may still use it")
        if ps.get("batch") is not True:
            X.bad(st, e, "a record is removed from the index although a long transaction may still read it")
        ps.pop("ge", None)
        ps["rm"] = 1
        ps.pop("kept", None)

    def ge(X, st, e):
        st.ps["ge"] = e.val

    def keep(X, st, e):
        if short(e.name) not in ("emplace_back", "push_back", "insert", "emplace"):
            return
        r = X.recv(st, e)
        if r is None or "container_rec_" not in pretty(r):
            return
        X.ob()
        ps = st.ps
        if not ps.get("rm"):
            X.bad(st, e, "a record is scheduled to be freed although it is still in the index")
        vs = [X.arg(st, e, i) for i in range(len(e.args))]
        if len(vs) == 1 and vs[0] is not None and vs[0].kind == "tup":
            vs = list(vs[0].args)
        ep = vs[-1] if vs else None
        if isinstance(ep, Term) and ep.kind != "u":
            if not isinstance(ps.get("ge"), Term) or ep is not ps["ge"]:
                X.bad(st, e, "a removed record is kept with an epoch that was not current when it was removed: it may be freed under a transaction that reached it")
        ps.pop("rm", None)

    K.run("C17.unhook", unhook.__doc__, "garbage::work_cleaner", minimum=2, stop=STOP, call={LOCK: lock, UNLOCK: unlock, RM: rm, SK + "sleepUs": done},
          after={GE: ge}, atomic=at, branch=br, anycall=keep, once=True, merge_block=150, merge_exits=40)


def done(X, st, e):
    st.dead = True


def release(K):
    """the memory of a removed record is freed only when both horizons have passed the epoch it is kept with, or the collector has ended"""
    seen, last = [], []

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        if "flag_cleaner_end" in pretty(a):
            ps["fin"] = t != (o == "==")
        if o == "<" and "container_rec_" in pretty(a):
            for h in hor(b):
                ps[h] = t
        elif o == "==" and a.kind == "it" and "container_rec_" in pretty(a):
            ps.pop("begin", None)
            ps.pop("batch", None)

    def free(X, st, e):
        v = e.val if e.val is not None else e.loc
        if v is None or "container_rec_" not in pretty(v):
            return
        X.ob()
        ps = st.ps
        if ps.get("fin"):
            return
        if ps.get("begin") is not True:
            X.bad(st, e, "a removed record is freed although a short transaction that reached it may still run")
        if ps.get("batch") is not True:
            X.bad(st, e, "a removed record is freed although a long transaction that reached it may still run")
        if not X.eng.held(st, "mtx_cleaner_"):
            X.bad(st, e, "a removed record is freed without the lock of the collector")
        ps["del"] = 1

    def anyc(X, st, e):
        r = X.recv(st, e)
        if r is not None and "container_rec_" in pretty(r) and short(e.name) in ("erase", "clear", "pop_back", "resize", "swap"):
            st.ps["er"] = 1

    def end(X, st, e):
        if st.ps.get("del"):
            seen.append(st.ps.get("er"))
            if not any(seen):
                last[:] = [(st, e, X)]
        st.dead = True
    K.run("C17.release", release.__doc__, "garbage::work_cleaner", minimum=2, call={SK + "sleepUs": end}, delete=free, branch=br, anycall=anyc,
          stop=(STOP | q("garbage::unhooking_keys_and_pruning_versions_at_the_storage")), nonempty=True, once=True, merge_block=150)
    # the number of freed records is not followed: some path must take them out
    if seen and not any(seen):
        st, e, X = last[0]
        X.bad(st, e, "freed records stay in the list of records to free")


def prune(K):
    """versions are cut off only behind one below the snapshot horizon and one not above the short horizon, are unlinked first, and exclude the one they are cut at"""
    def ver_of(t):
        """version of an epoch term"""
        base = field_of(t, "epoch_")
        if base is None:
            return None
        while base.kind in ("ld",) and base.args[0].kind == "f" and short(base.args[0].args[1]) in ("tid_", "tidw_"):
            return base.args[0].args[0]
        if is_aload(base) and base.args[3].kind == "f":
            return base.args[3].args[0]
        return None

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        if o != "<":
            return
        if vague(a) and t or vague(b) and not t:
            for h in (hor(b) if t else hor(a) & {"begin"}):
                ps.pop("K " + h, None)
                ps["F " + h] = 1
            return
        w = ver_of(a)
        if w is not None and t:
            for h in hor(b):
                ps["K " + h] = w
                ps["F " + h] = 1
        w = ver_of(b)
        if w is not None and not t and "begin" in hor(a):
            ps["K begin"] = w
            ps["F begin"] = 1

    def behind(p, k):
        return p is k or mentions(p, lambda z: z is k)

    def vague(t):
        return t.kind == "u" or mentions(t, lambda z: z.kind == "u")

    def cut(X, st, e):
        if X.const(st, e.val) != 0:
            return
        X.ob()
        ps = st.ps
        p = e.loc.args[0]
        for h, m in (("batch", "the snapshots of long transactions"), ("begin", "running short transactions")):
            k = ps.get("K " + h)
            if not ps.get("F " + h):
                X.bad(st, e, "versions are cut off behind one that is not known to be old enough for %s" % m)
            elif isinstance(k, Term) and not vague(k) and not vague(p) and not behind(p, k):
                X.bad(st, e, "versions are cut off before the one that is old enough for %s" % m)
        ps["cut"] = p
        ps["F cut"] = 1
        for h in ("batch", "begin"):
            ps.pop("F " + h, None)

    def at(X, st, e):
        if e.kind == "astore" and e.loc.kind == "f" and short(e.loc.args[1]) == "next_":
            cut(X, st, e)

    def free(X, st, e):
        v = e.val if e.val is not None else e.loc
        if v is None or "container_rec_" in pretty(v):
            return
        X.ob()
        p = st.ps.get("cut")
        if not st.ps.get("F cut"):
            X.bad(st, e, "a version is freed while it is still linked")
            return
        if not isinstance(p, Term) or vague(v) or vague(p):
            return
        if not behind(v, p) or v is p or v.kind == "d" and v.args[0] is p:
            X.bad(st, e, "a version is freed that is not behind the one the others are cut off from")
            return
        # the freed version is the old successor, not the version itself
        if not mentions(v, lambda z: z.kind == "f" and short(z.args[1]) == "next_" and z.args[0] is p):
            X.bad(st, e, "the version at the cut itself is freed")
    K.run("C17.prune", prune.__doc__, "garbage::work_cleaner", minimum=2, stop=STOP | q("garbage::unhooking_key garbage::release_key_memory"),
          branch=br, atomic=at, delete=free, once=True, call={SK + "sleepUs": done}, merge_block=150, merge_exits=40)


def horizons(K):
    """the horizons take every running transaction into account and the short one never goes back"""
    pw = bool(K.eng.find(SK + "lpwal::flush_log", need=False))

    BIG = (1 << 62)

    def which(t):
        """1 / 2: the first or a later session; None when not known."""
        if t.kind == "u" or mentions(t, lambda z: z.kind == "u"):
            return None
        s = [z for z in subterms(t) if z.kind == "it" and "session_table_" in pretty(z.args[0])]
        if not s:
            return None
        return 1 if s[0].args[1] == "begin" else 2

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        z = t != (o == "==" and X.const(st, b) == 0)
        w = which(a)
        if ld_is(a, "visible_", "tx_began_") and not w:
            ps["imp"] = 1
            return
        if w:
            if ld_is(a, "visible_"):
                ps["vis%d" % w] = z
                for k in ("beg", "ve"):
                    ps.pop("%s%d" % (k, w), None)
            elif ld_is(a, "tx_began_"):
                ps["beg%d" % w] = z
            elif ld_is(a, "valid_epoch_") and o == "==" and X.const(st, b) == 0:
                ps["ve%d" % w] = not t
        if o == "<" and hor(a) == {"begin"} and t:
            ps["up"] = b
        # a running transaction has begun in some epoch
        for x, y, r in ((a, b, False), (b, a, True)):
            if y is not None and isinstance(X.const(st, y), int) and X.const(st, y) > BIG and mentions(x, lambda q: ld_is(q, "begin_epoch_")):
                if o == "==" and t or o == "<" and t == r:
                    ps["imp"] = 1

    def acc(X, st, e):
        X.ob()
        if e.val is not None and any(z.kind == "op" and z.args[0] == "max" and ("begin_epoch_" in pretty(z) or "valid_epoch_" in pretty(z))
                                     for z in subterms(e.val)):
            X.bad(st, e, "a horizon follows the newest running transaction instead of the oldest")

    def ge(X, st, e):
        if not st.ps.get("tab"):
            st.ps["ge"] = e.val

    def tab(X, st, e):
        st.ps["tab"] = 1

    def leaves(v):
        if v.kind == "op" and v.args[0] == "min":
            r = []
            for x in v.args[1:]:
                r += leaves(x)
            return r
        return [v]

    def below(st, v, ok, seen=()):
        """Is v known not to exceed a value satisfying ok?"""
        ls = leaves(v)
        if any(ok(x) for x in ls):
            return True
        for c, k in st.eq.items():
            if c.kind == "op" and c.args[0] == "<":
                x, y = c.args[1], c.args[2]
                if not k:
                    x, y = y, x
                if x in ls and x is not y and y not in seen and below(st, y, ok, seen + (x,)):
                    return True
        return False

    def at(X, st, e):
        ps = st.ps
        if e.kind != "astore" or ps.get("imp"):
            return
        s = pretty(e.loc)
        v = e.val
        if v.kind == "u" or mentions(v, lambda z: z.kind == "u"):
            return
        live = [w for w in (1, 2) if ps.get("vis%d" % w) and ps.get("beg%d" % w, True)]
        if ps.get("vis1") is None and ps.get("beg1") is None:
            live.append(1)
        if "min_begin_epoch_" in s:
            X.ob()
            for w in live:
                if not below(st, v, lambda x: ld_is(x, "begin_epoch_") and which(x) == w):
                    X.bad(st, e, "the horizon of short transactions ignores a running transaction")
            if not live and not below(st, v, lambda x: x is ps.get("ge")):
                X.bad(st, e, "the horizon without running transactions is not an epoch read before looking for them: one that began meanwhile is passed over")
            if ps.get("up") is not v:
                X.bad(st, e, "the horizon of short transactions may go back")
        elif "min_batch_epoch_" in s:
            X.ob()
            if not below(st, v, lambda x: "cc_safe_ss_epoch" in pretty(x)):
                X.bad(st, e, "the horizon of long transactions is not bounded by the newest snapshot they may take")
            for w in live:
                if ps.get("ve%d" % w) is not False and not below(st, v, lambda x: ld_is(x, "valid_epoch_") and which(x) == w):
                    X.bad(st, e, "the horizon of long transactions ignores a running one")

    def bound(X, st, e):
        if st.ps.get("imp"):
            return
        X.ob()
        h = set()
        for i in range(len(e.args)):
            v = X.arg(st, e, i)
            if v is not None:
                for z in subterms(v):
                    h |= hor(z)
        v = X.arg(st, e, 0)
        if not any(z.kind == "op" and z.args[0] == "min" and hor(z) == {"begin", "batch"} for z in (subterms(v) if v is not None else ())) \
                and v is not None and v.kind != "u" and not mentions(v, lambda z: z.kind == "u"):
            X.bad(st, e, "the log may drop versions that a running transaction can still read")
    K.run("C17.horizons", horizons.__doc__, "garbage::work_manager", minimum=0, stop={GE, SK + "sleepUs"}, nonempty=True, anywrite=acc, call={SK + "sleepUs": done})
    K.run("C17.horizons", horizons.__doc__, "garbage::work_manager", minimum=3, stop={GE, SK + "sleepUs"}, nonempty=True, once=True, branch=br, atomic=at,
          after={GE: ge}, call={SK + "session_table::get_session_table": tab, SK + "sleepUs": done,
                                "limestone::api::datastore::switch_available_boundary_version": bound}, merge_block=150)


def frees(K):
    """records are freed by the collector, by their storage's removal, or before anybody could reach them"""
    def free(X, st, e):
        v = e.val if e.val is not None else e.loc
        if v is None:
            return
        s = pretty(v)
        X.ob()
        if any(short(e.fn["n"]) == y for y in ("~Record",)):
            return
        new = st.ps.get("new")
        if v.kind == "u":
            return
        if isinstance(new, Term) and (v is new or mentions(v, lambda z: z is new)):
            if st.ps.get("pub"):
                X.bad(st, e, "a record is freed although it is in the index")
            return
        if "new" in s or v.kind == "n":
            if st.ps.get("pub"):
                X.bad(st, e, "a record is freed although it is in the index")
            return
        X.bad(st, e, "an operation frees a record it did not create")

    def new(X, st, e):
        st.ps["new"] = e.val if e.val is not None else e.loc

    def put(X, st, e):
        st.ps["rc"] = e.val
        st.ps.pop("pub", None)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and a is st.ps.get("rc") and X.const(st, b) == K.S("OK"):
            st.ps["pub"] = t

    def ex(X, st, v, fn):
        X.ob()
    import ops
    K.run("C17.frees", frees.__doc__, "insert upsert update delete_record", minimum=4, stop=(ops.STOP | q("put")), delete=free, new=new,
          after={SK + "put": put}, branch=br, exit=ex)


def guard(K):
    """removing a storage and collecting exclude each other"""
    def rm(X, st, e):
        X.ob()
        if not X.eng.held(st, "mtx_cleaner_"):
            X.bad(st, e, "frees the records of a storage while the collector may be visiting them")

    def free(X, st, e):
        rm(X, st, e)
    K.run("C17.guard", guard.__doc__, "storage::delete_storage", minimum=1, delete=free, once=True, nonempty=True,
          stop=q("storage::key_handle_map_get_key wp::find_page_set_meta"))
