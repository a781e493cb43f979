"""C28: shared state is only touched under its lock or through atomic operations."""
from rulekit import *
import lockset

NOTE = ("locks held at every access of the guarded structures, over every path of every function, with what callers hold "
        "on entry; startup and shutdown steps, which run alone, are left out")
S = SK
# structure: (lock, "rw" = readers hold it in any mode and writers exclusively, "w" = writers only)
GUARD = {
    "TxState::handle_container_": ("TxState::mtx_hc_", "rw"),
    "TxState::reuse_ctr_container_": ("TxState::mtx_reuse_ctr_container_", "rw"),
    "bg_work::bg_commit::cont_wait_tx_": ("bg_work::bg_commit::mtx_cont_wait_tx_", "rw"),
    "bg_work::bg_commit::used_ids_": ("bg_work::bg_commit::mtx_used_ids_", "rw"),
    "durability_callbacks": ("mtx_durability_callbacks", "rw"),
    "read_plan::cont_": ("read_plan::mtx_cont_", "rw"),
    "ongoing_tx::tx_info_": ("ongoing_tx::mtx_", "rw"),
    "wp::wp_meta::wp_result_set_": ("wp::wp_meta::mtx_wp_result_set_", "rw"),
    "wp::wp_meta::write_range_": ("wp::wp_meta::mtx_write_range_", "rw"),
    # readers of the preserve table go through the lock's version word (C25)
    "wp::wp_meta::wped_": ("wp::wp_meta::wp_lock_", "w"),
    "wp::wp_meta::wped_used_": ("wp::wp_meta::wp_lock_", "rw"),
    "wp::long_tx::counter": ("wp::wp_mutex", "rw"),
    "sequence::sequence_map_": ("sequence::sequence_map_smtx_", "rw"),
    "storage::key_handle_map_": ("storage::mtx_key_handle_map_", "rw"),
    "session::overtaken_ltx_set_": ("session::mtx_overtaken_ltx_set_", "rw"),
    "session::read_area_": ("session::mtx_read_area_", "rw"),
    "session::ltx_storage_read_set_": ("session::mtx_ltx_storage_read_set_", "w"),
    "session::range_read_by_short_set_": ("session::mtx_range_read_by_short_set_", "rw"),
    # read back by the transaction's own commit, which excludes data operations
    "session::read_set_for_stx_": ("session::mtx_read_set_for_stx_ session::mtx_state_da_term_", "rw"),
    "node_set::set_": ("node_set::mtx_set_", "rw"),
    "range_read_set_for_ltx::set_": ("range_read_set_for_ltx::mtx_set_", "rw"),
    "local_read_set_for_ltx::set_": ("local_read_set_for_ltx::mtx_set_", "rw"),
    "local_write_set::cont_for_bt_": ("local_write_set::mtx_", "rw"),
    "local_write_set::cont_for_occ_": ("local_write_set::mtx_", "rw"),
    "local_write_set::storage_map_": ("local_write_set::mtx_", "w"),
    "scan_handler::allocated_": ("scan_handler::mtx_allocated_", "rw"),
    "scan_handler::allocated_i_": ("scan_handler::mtx_allocated_", "rw"),
    "version::value_": ("version::mtx_value_", "rw"),
    "point_read_by_long::body_": ("point_read_by_long::mtx_", "rw"),
    "range_read_by_long::body_": ("range_read_by_long::mtx_", "rw"),
    "lpwal::handler::logs_": ("lpwal::handler::mtx_logs_", "rw"),
    "lpwal::handler::begun_session_": ("lpwal::handler::mtx_logs_", "rw"),
    "lpwal::handler::durable_epoch_": ("lpwal::handler::mtx_logs_", "rw"),
}
# emptied by the owner once its transaction has ended
OWNER_CLEARS = {"local_write_set::cont_for_bt_", "local_write_set::cont_for_occ_", "local_write_set::storage_map_"}
# words several threads read and write without a lock
ATOMIC = """point_read_by_short::max_epoch_ range_read_by_short::max_epoch_ version::next_ Record::latest_
    Record::shared_tombstone_count_ garbage::storage_stats::worth_to_gc lpwal::handler::min_log_epoch_ wp::wp_lock::obj
    session::tx_type_ session::visible_ session::tx_began_ session::begin_epoch_ session::short_expose_ongoing_status_
    session::current_tx_state_handle_ session::diag_tx_state_kind_ session::requested_commit_
    session::result_requested_commit_ session::valid_epoch_ session::read_version_max_epoch_ thread_task::completed_
    storage::strg_ctr_ bg_work::bg_commit::joined_waiting_resolver_threads_ epoch::global_epoch epoch::global_epoch_time_us
    epoch::cc_safe_ss_epoch epoch::min_epoch_occ_potentially_write epoch::datastore_durable_epoch epoch::epoch_thread_end
    epoch::perm_to_proc_ garbage::flag_cleaner_end garbage::flag_manager_end garbage::gc_ct_ver_ garbage::min_begin_epoch_
    garbage::min_batch_epoch_ TxState::handle_ctr_ sequence::id_generator_ctr_ lpwal::stopping_ wp::finalizing initialized_
    is_shutdowning_ thread_pool::running_ bg_work::bg_commit::worker_thread_end_""".split()
ALONE = "init fin shutdown init_body fin_body"


def check(K):
    for f in (guarded, atomics):
        K.part("C28." + f.__name__, f)


def alone(K, r):
    """Functions only ever run by startup or shutdown, and accessors nothing in the library calls."""
    eng = K.eng
    a = {fid for fid, f in eng.fns.items() if not f["decl"].startswith("include/")}
    top = set()
    for n in ALONE.split():
        top |= set(eng.find(SK + n, need=False))
    a |= top
    if not top:
        raise AnalysisBroken("startup functions not found")
    changed = True
    while changed:
        changed = False
        for fid in list(a):
            if fid in top or eng.fns[fid]["kind"] == "ctor":
                continue
            cs = r.callers.get(fid)
            if not cs or any(c not in a for c, _ in cs):
                a.discard(fid)
                changed = True
    return a


def covered(r, hs, root, locks, excl):
    """Is one of the locks held, in the mode needed, on every path to the access?"""
    for h in hs:
        h = h | r.entry[root]
        if not any(n in locks and (m == "x" or not excl) for n, m in h):
            return h
    return None


def loose(K, r, fid):
    """What the function is entered with is not known, or nothing in the library runs it."""
    if fid in r.loose:
        return True
    if fid in r.callers or K.eng.fns[fid]["kind"] != "method":
        return False
    if not hasattr(K, "taken"):
        K.taken = {x.get("f") for f in K.eng.fns.values() for x in f["X"].values() if x["k"] in ("fnref", "memfn")}
    return fid not in K.taken


def guarded(K):
    """every access of a guarded structure holds its lock, exclusively when the structure changes"""
    r = lockset.build(K.eng)
    skip = alone(K, r)
    n = {}
    for (f, kind, root, file, line, how), hs in sorted(r.acc.items(), key=str):
        g = GUARD.get(f[len(SK):]) if f.startswith(SK) else None
        if g is None:
            continue
        fn = K.eng.fns[root]
        if root in skip or loose(K, r, root) or fn["kind"] in ("ctor", "dtor"):
            continue
        if kind == "c":
            continue
        w = kind != "r"
        if not w and g[1] == "w":
            continue
        if how == "clear" and f[len(SK):] in OWNER_CLEARS:
            continue
        n[f] = n.get(f, 0) + len(hs)
        locks = {SK + x for x in g[0].split()}
        h = covered(r, hs, root, locks, w)
        if h is not None:
            K.violation("C28.guarded", dict(fn, file=file), line, "%s is %s without %s held%s (held: %s)" % (
                f[len(SK):], "changed" if w else "read", g[0].replace(" ", " or "), " exclusively" if w else "",
                ", ".join(sorted(x[len(SK):] if x.startswith(SK) else x for x, _ in h)) or "nothing"))
    if len(n) < 25:
        raise AnalysisBroken("only %d guarded structures found" % len(n))
    K.record("C28.guarded", guarded.__doc__, sum(n.values()), len(n))


def atomics(K):
    """words shared without a lock are atomic"""
    r = lockset.build(K.eng)
    decl = {}
    for c in K.eng.F["classes"].values():
        for f in c["fields"]:
            decl[f["n"]] = (f["t"], c["file"], f["l"], c["n"])
    for g in K.eng.F["globals"].values():
        decl[g["n"]] = (g["t"], g["file"], g["l"], g["n"])
    n = 0
    skip = alone(K, r)
    for a in ATOMIC:
        d = decl.get(SK + a)
        if d is None:
            continue
        n += 1
        if "atomic" in d[0] or d[0].startswith("const "):
            continue
        common = None
        plain = False
        for (f, kind, root, file, line, how), hs in r.acc.items():
            if f != SK + a or root in skip or loose(K, r, root):
                continue
            if kind != "a":
                plain = True
            for h in hs:
                h = {x for x, m in h | r.entry[root]}
                common = h if common is None else common & h
        if plain and not common:
            K.violation("C28.atomics", {"file": d[1], "n": d[3], "l": d[2]}, d[2],
                        "%s is shared between threads without a lock and is not atomic" % a)
    if n < len(ATOMIC) // 2:
        raise AnalysisBroken("only %d of the shared words found" % n)
    K.record("C28.atomics", atomics.__doc__, n, n)
