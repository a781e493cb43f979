import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":False}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CC="src/concurrency_control/"
IF=CC+"interface/"
INC=CC+"include/"
p("C01","A short transaction commits only after full validation under its write locks",
 "commit() of a short transaction reports success, and makes writes visible, only if after locking every record it writes and fixing its commit epoch it re-checked that every record it read is unchanged and not locked by someone else, that every index region it observed is structurally unchanged, and that no storage it read carries an active write preserve of that epoch or an earlier one. If any of these checks fails the transaction is aborted with an error and none of its writes becomes visible.",
 ["schedules","inputs"],"every interleaving of concurrent committers, every read/write set",
 "Tests run a handful of schedules; a window between two checks needs one precise interleaving. Here only 11 unit tests run and none of them links the commit path.",
 [IF+"short_tx/termination.cpp",INC+"local_set.h","src/index/yakushima/include/tool.h"],
 [("commit phase order","short_tx::commit"),("read and write-preserve validation","short_tx::read_wp_verify / read_verify / wp_verify"),("index validation","node_set::node_verify, comp_ver_for_node_verify")],
 ["Status returned by commit()","records visible to other transactions"])
p("C02","Every lock and index session taken is released exactly once on every path",
 "Whatever outcome an operation has (success, warning, error, retry), every record lock, write-preserve table lock, index session and commit-in-progress mark it takes is released by the time it returns or is handed over to the commit in progress, and nothing is released by a path that does not hold it. In particular a failed commit leaves no record locked.",
 ["schedules","inputs","fault_sequences"],"all control-flow paths of every function that locks",
 "A leaked record lock only shows when an error path is taken at the right moment and another transaction later touches the record; tests do not enumerate error paths.",
 [IF+"short_tx/termination.cpp",IF+"long_tx/termination.cpp",IF+"helper.cpp",CC+"garbage.cpp",CC+"wp_meta.cpp",INC+"tid.h",CC+"wp_lock.cpp",IF+"storage.cpp"],
 [("record lock","tid_word::lock / unlock, Record::set_tid"),("write-preserve table lock","wp_lock::lock/unlock"),("commit-in-progress mark","session::lock_short_expose_ongoing"),("index session","yakushima::enter/leave")],
 ["other transactions blocked forever","Status of later operations on the record"])
p("C03","Phantom protection: absences and ranges a short tx observed are re-validated",
 "Whenever a short transaction learns that a key is absent from the index, or scans a key range, the version of each index region that justified the answer is remembered for commit-time validation, its own inserts advance the remembered version by exactly its own change, and any change made by another transaction makes it abort instead of committing. No point lookup, insert, or scan variant skips this registration.",
 ["schedules","programs"],"all lookups/scans x all concurrent inserts/removes/splits",
 "Phantoms need an insert between a scan and commit in a specific node; tests exercise a few hand-made schedules.",
 [IF+"short_tx/search.cpp",IF+"insert.cpp",IF+"upsert.cpp",IF+"scan/open_scan.cpp",IF+"scan/next.cpp",IF+"scan/read_kv_from_scan.cpp",INC+"local_set.h"],
 [("node set","node_set::emplace_back / update_node_set / node_verify"),("range-read marks","session::push_to_range_read_by_short_set")],
 ["commit Status ERR_CC with phantom reason"])
p("C04","Every record version a short transaction returns is recorded for validation",
 "A value, or the information that a key exists or is deleted, handed to a short transaction from committed data always comes from one stable, unlocked record version, and that same version is entered in the transaction's validation set before the call returns. A read that met a concurrent writer is reported as a warning and returns no data.",
 ["schedules","programs"],"all reads x all concurrent writers",
 "Requires a writer between the two stamp reads or between read and commit; unit tests never interleave at that grain.",
 [IF+"short_tx/search.cpp",IF+"helper.cpp",IF+"scan/read_kv_from_scan.cpp",IF+"insert.cpp",IF+"scan/next.cpp",IF+"scan/open_scan.cpp"],
 [("stable read","read_record"),("validation set","session::push_to_read_set_for_stx")],
 ["value returned by search_key/read_*_from_scan","commit Status"])
p("C05","Long and read-only transactions read exactly their snapshot",
 "A long or read-only transaction only ever sees, besides its own writes, for each record the newest version committed in an epoch strictly before its own snapshot epoch; a version of its own or a later epoch is never returned and an older version is never returned when a newer eligible one exists. If the eligible version is a deletion, or none exists, the record is reported as not found.",
 ["schedules","histories"],"all version histories and snapshot epochs",
 "The wrong version appears only for particular epoch equalities and version list shapes; tests sample few of these.",
 [IF+"long_tx/helper.cpp",IF+"long_tx/search.cpp",IF+"read_only_tx/search.cpp",IF+"scan/open_scan.cpp",IF+"scan/next.cpp",IF+"scan/read_kv_from_scan.cpp"],
 [("version walk","version_function_without_optimistic_check / version_function_with_optimistic_check"),("record read","version_traverse_and_read, read_only_tx search")],
 ["values returned to long and read-only transactions"])
p("C06","Beginning a long or read-only transaction is atomic with the epoch",
 "A long transaction starts in the next epoch, and its identity, write preserves and start epoch are all in place before that epoch can begin and before anyone can observe the transaction as begun; identities are unique and increase in begin order. A read-only transaction's snapshot is never newer than what all unfinished long transactions allow, and a transaction may not operate before its start epoch has arrived or while an older short commit is still being exposed.",
 ["schedules"],"all interleavings of begins, epoch changes and short commits",
 "Races between the epoch thread and begin are invisible to single-thread unit tests.",
 [IF+"tx_begin.cpp",IF+"long_tx/helper.cpp",IF+"read_only_tx/read_only_tx.cpp",CC+"wp.cpp",CC+"epoch.cpp",CC+"session.cpp"],
 [("begin critical section","long_tx::tx_begin, read_only_tx::tx_begin"),("premature checks","check_before_write_ops, check_before_execution, open_scan_precheck, long_tx::commit")],
 ["WARN_PREMATURE results","snapshot contents"])
p("C07","A long transaction commits only after everything it must wait for has finished",
 "A long transaction's commit proceeds to validation only when no unfinished older long transaction that it may have overtaken, and none that may still read what it wrote, remains; otherwise commit reports waiting, the request is queued exactly once and is retried until decided. While waiting, the transaction neither commits nor aborts twice.",
 ["schedules","programs"],"all sets of concurrent long transactions and finishing orders",
 "Needs several overlapping long transactions finishing in particular orders.",
 [IF+"long_tx/termination.cpp",CC+"ongoing_tx.cpp",CC+"read_plan.cpp",IF+"termination.cpp",CC+"bg_work/bg_commit.cpp"],
 [("wait decision","long_tx::commit, ongoing_tx::exist_wait_for"),("potential readers","read_plan::check_potential_read_anti"),("queue","bg_commit::register_tx")],
 ["WARN_WAITING_FOR_OTHER_TX","commit callback"])
p("C08","Long-transaction validation rejects every order violation before exposing writes",
 "Before exposing anything, a committing long transaction that read data checks each committed older transaction whose writes it overtook, moves its own order before them when it did read their area, and fails if it already read something too new for that order. A transaction moved backward in order also fails if any of its writes would invalidate what a committed transaction already read (point or range), or would insert an existing key or change a missing one.",
 ["schedules","histories"],"all sets of concurrent long/short transactions",
 "Anomalies among three or more long transactions appear only in specific begin/commit/read orders.",
 [IF+"long_tx/termination.cpp",CC+"read_by.cpp",CC+"wp.cpp",IF+"long_tx/helper.cpp"],
 [("validation","long_tx::verify"),("overtaken bookkeeping","wp::extract_higher_priori_ltx_info, long_tx::wp_verify_and_forwarding"),("committed-read protection","point_read_by_long::is_exist, range_read_by_long::is_exist, *_read_by_short::get_max_epoch")],
 ["commit Status ERR_CC and its reason"])
p("C09","Short transactions never slip past an active write preserve",
 "Once a long transaction's write preserve on a storage is in effect, no short transaction can read that storage and commit: a call that starts reading a storage checks for a preserve and aborts the reader, commit checks again for every storage read, and point modifications that depend on existing data are refused. The check compares the oldest preserve's epoch with the current epoch and treats equality as in effect.",
 ["schedules","programs"],"all short operations x preserve timings",
 "Needs a preserve becoming effective between begin, read and commit.",
 [IF+"short_tx/search.cpp",IF+"short_tx/termination.cpp",IF+"scan/open_scan.cpp",IF+"scan/read_kv_from_scan.cpp",IF+"helper.cpp",CC+"wp_meta.cpp"],
 [("read-side check","short_tx wp_verify, open_scan_precheck, read_from_scan"),("write-side check","check_before_write_ops"),("oldest preserve","wp_meta::find_min_ep")],
 ["ERR_CC / WARN_CONFLICT_ON_WRITE_PRESERVE"])
p("C10","An aborted transaction leaves no trace",
 "After an abort, by the user or by the system, none of the transaction's writes is visible or logged, records it created only as placeholders are marked as deleted again unless another transaction shares them, its write preserves and its registration as a running transaction are removed and recorded as not committed, and all its buffered reads, writes and cursors are dropped.",
 ["schedules","programs","fault_sequences"],"all abort points of all transaction kinds",
 "Residue of an abort only shows in later transactions and only after particular operation sequences.",
 [IF+"short_tx/termination.cpp",IF+"long_tx/termination.cpp",IF+"read_only_tx/read_only_tx.cpp",CC+"session.cpp",INC+"session.h"],
 [("abort","short_tx::abort, long_tx::abort, read_only_tx::abort"),("placeholder removal","change_inserting_records_state, cancel_flag_inserted_records"),("reset","session::clean_up")],
 ["what later transactions see","log contents"])
p("C11","The commit callback fires exactly once with the final outcome",
 "For each commit request the supplied callback is invoked exactly once, with the final status, the reason of failure if it failed, and a durability marker that is valid on success; it is never invoked while the outcome is still waiting and never after the transaction's resources could be reused by the next one without the outcome being fixed. An error outcome is never reported as success or vice versa.",
 ["schedules","programs"],"all commit outcomes of all transaction kinds",
 "Callback double/lost calls appear only on rare outcome paths (waiting, premature, failed validation).",
 [IF+"termination.cpp",IF+"short_tx/termination.cpp",IF+"long_tx/termination.cpp",IF+"read_only_tx/read_only_tx.cpp",INC+"session.h",CC+"bg_work/bg_commit.cpp"],
 [("callback","session::set_commit_callback / call_commit_callback"),("dispatch","commit_body")],
 ["callback invocations and arguments"])
p("C12","A serialization error always means the transaction was aborted, with its reason",
 "Whenever an operation returns a concurrency-control, constraint or read-area error the transaction has already been aborted and a matching failure reason (never the success/unknown one) is retrievable; an operation that returns a warning or success leaves the transaction running. A successful commit resets the reason.",
 ["schedules","programs"],"all operations and all error paths",
 "Each error path needs its own conflict to be provoked; few are.",
 [IF+"short_tx/termination.cpp",IF+"long_tx/termination.cpp",IF+"short_tx/search.cpp",IF+"long_tx/search.cpp",IF+"scan/open_scan.cpp",IF+"scan/read_kv_from_scan.cpp",IF+"insert.cpp",IF+"upsert.cpp",IF+"helper.cpp"],
 [("abort and reason","short_tx::abort / long_tx::abort with session::set_result")],
 ["Status of each API","transaction_result_info()"])
p("C13","Operations check their preconditions before having any effect",
 "Every data operation on a session without a running transaction returns the not-begun warning; over-long keys, unknown storages, writes by read-only transactions, writes by a long transaction outside its write preserve, operations before the start epoch and a second commit or an abort after commit was requested are refused with their specific warning. A refused operation changes neither the database nor the transaction's buffered state.",
 ["inputs","programs"],"all operations x all argument and state combinations",
 "Tests check a few combinations per API; the property is for every API and path.",
 [IF+"helper.cpp",IF+"insert.cpp",IF+"update.cpp",IF+"upsert.cpp",IF+"delete.cpp",IF+"search.cpp",IF+"scan/open_scan.cpp",IF+"scan/next.cpp",IF+"scan/read_kv_from_scan.cpp",IF+"termination.cpp",IF+"tx_begin.cpp"],
 [("write precheck","check_before_write_ops"),("key length","check_constraint_key_length"),("begun check","session::get_tx_began")],
 ["Status of each API"])
p("C14","Every committed write is logged once with the right operation, data and version",
 "For each write a committing transaction exposes as newest state, exactly one log entry is produced with the same kind of operation, storage, key, value, large-object references, and a version whose major part is the commit epoch; deletions are logged as removals and everything else as additions. No log entry is produced for aborted or superseded writes, and entries are appended and handed to the log channel under the session's log lock inside one log session.",
 ["schedules","crash_points","programs"],"all write sets, all commit paths, all points of crash",
 "A lost or mis-typed entry is only seen after restart from the log; the tests do not crash at all points.",
 [IF+"short_tx/termination.cpp",IF+"long_tx/termination.cpp",CC+"session.cpp","src/datastore/limestone/lpwal.cpp","src/datastore/limestone/limestone_api_helper.cpp",INC+"lpwal.h"],
 [("log push","lpwal::handler::push_log"),("flush","lpwal add_entry_from_logs, flush_log"),("channel ops","add_entry/remove_entry/add_storage/remove_storage")],
 ["log channel calls","state after restart"])
p("C15","Durability is reported only after the log really covers the transaction",
 "A transaction's state becomes durable only when the log reports an epoch at least as new as the transaction's durability marker, the marker handed to the commit callback and to the state object is never older than the epoch its log entries are written under, and durability callbacks receive each newly durable epoch after it has been recorded.",
 ["schedules","crash_points"],"all interleavings of commit, flush and durable notifications",
 "Off-by-one epochs in durability only matter under specific flush/crash timing.",
 [CC+"transaction_state.cpp",IF+"short_tx/termination.cpp",IF+"long_tx/termination.cpp","src/datastore/limestone/lpwal.cpp",INC+"epoch.h","src/database/tx_state_notification.cpp","src/concurrency_control/include/lpwal.h"],
 [("state promotion","check_tx_state"),("marker","short_tx::commit / long_tx::commit this_dm"),("log session epoch","lpwal::handler::begin_session"),("notification","epoch::set_datastore_durable_epoch, call_durability_callbacks")],
 ["check_tx_state results","durability callback arguments","commit callback marker"])
p("C16","The epoch advances safely and snapshot boundaries never overtake live work",
 "The global epoch advances only by one at a time, only by the epoch worker, and only while begins of long transactions are excluded; after each advance the boundaries derived from it (oldest short commit still exposing, newest snapshot all unfinished long transactions allow) are recomputed before begins resume, and they are never beyond what unfinished work permits. A short commit marks itself as exposing before it picks its epoch and until its writes and reads are registered.",
 ["schedules"],"all interleavings of epoch worker, begins and commits",
 "The bad window is a few instructions wide.",
 [CC+"epoch.cpp",INC+"epoch.h",CC+"session.cpp",INC+"session.h",IF+"short_tx/termination.cpp"],
 [("epoch worker","epoch::epoch_thread_work"),("boundaries","refresh_short_expose_ongoing_status, compute_and_set_cc_safe_ss_epoch"),("exposing mark","session::lock_short_expose_ongoing / unlock_short_expose_ongoing_and_refresh_epoch")],
 ["snapshots of read-only transactions","WARN_PREMATURE"])
p("C17","Garbage collection never removes what a running transaction can still reach",
 "A record is taken out of the index only if it is in deleted state and older than every running transaction, re-checked while holding its lock, and its memory is freed only after every transaction that could hold a pointer to it has ended. Of each record's history the newest version and the newest one visible to the oldest possible snapshot are kept.",
 ["schedules","histories"],"all interleavings of collectors and transactions",
 "Use-after-free or lost versions need a long-lived reader and a collector pass in a specific window.",
 [CC+"garbage.cpp",INC+"garbage.h"],
 [("unhook","garbage::unhooking_key / unhooking_keys_and_pruning_versions"),("prune","garbage version pruning"),("release","garbage::release_key_memory"),("horizons","garbage::work_manager")],
 ["values seen by old snapshots","crashes"])
p("C18","Storage creation, deletion and lookup keep names, ids and data in step",
 "A created storage gets a fresh identifier, its name maps to it exactly while it exists, creating an existing name or using a missing one is refused without effect, and creation, deletion and option changes of named storages are recorded so that they survive restart. Deleting a storage removes its name, its data and its concurrency-control metadata together.",
 ["schedules","programs","fault_sequences"],"all sequences and interleavings of DDL",
 "Tests cover simple sequences; partial failures and races are not enumerated.",
 [IF+"storage.cpp","src/include/storage.h"],
 [("name map","storage::key_handle_map_*"),("id counter","storage::get_new_storage_num"),("metadata","storage::register_storage / delete_storage")],
 ["create/delete/get/list_storage results","contents after restart"])
p("C19","Sequences only move forward and reflect committed updates only",
 "A sequence's current value is the one with the largest version among committed updates; updates become visible and are logged only when their transaction commits, an update whose version is not newer is ignored, and identifiers of created sequences are unique and never reused after restart. Deleted or unknown sequences are reported as not found.",
 ["schedules","programs","crash_points"],"all interleavings of sequence operations and commits",
 "Ordering of concurrent commits against versions is not controllable from tests.",
 [CC+"sequence.cpp","src/include/sequence.h",CC+"session.cpp",CC+"local_set.cpp","src/datastore/limestone/datastore.cpp"],
 [("commit application","session::commit_sequence"),("map","sequence::sequence_map_*"),("buffering","local_sequence_set::push")],
 ["read_sequence results","log contents"])
p("C20","Startup and shutdown run their phases in a safe order and only once",
 "Initialization makes the database usable only after logged data has been recovered and all background workers are running, shutdown stops and joins every worker it started, flushes and waits for all remaining log data, and only then releases shared structures; repeated initialization or shutdown without initialization is refused without effect.",
 ["schedules","configurations"],"all configurations and calling orders",
 "Order bugs show up as rare crashes or lost data on shutdown under load.",
 [IF+"start_up.cpp",IF+"shut_down.cpp",CC+"garbage.cpp",CC+"epoch.cpp",CC+"bg_work/bg_commit.cpp","src/datastore/limestone/lpwal.cpp"],
 [("init","init_body"),("fin","fin_body")],
 ["init/fin Status","data after restart"])
p("C21","A session serves one owner at a time and starts every transaction clean",
 "Entering hands out a session slot to one caller only, refuses when none is free, and leaving ends a running transaction before the slot can be reused. Every transaction end, committed or aborted, resets all per-transaction state of the session, so that nothing from one transaction influences the next.",
 ["schedules","programs"],"all interleavings of enter/leave and transaction sequences",
 "Leaks of one field across transactions need particular sequences of transaction kinds.",
 [IF+"session_management.cpp",CC+"session_table.cpp",CC+"session.cpp",INC+"session.h",IF+"tx_begin.cpp"],
 [("slot allocation","session_table::decide_token"),("reset","session::clean_up, clear_*")],
 ["enter/leave Status","behaviour of the following transaction"])
p("C22","Scan cursors cover exactly the requested range and never use an invalid handle",
 "A scan is refused as empty exactly when its bounds describe an empty range; each record of the range visible to the transaction is offered once, records not visible are skipped, and the end of the range is reported as the scan limit. Null handles and handles of another session are refused before anything behind them is touched.",
 ["inputs","programs"],"all bounds, endpoint kinds and cursor call sequences",
 "Bounds x endpoint kinds x visibility are sampled by tests, not covered.",
 [IF+"scan/open_scan.cpp",IF+"scan/next.cpp",IF+"scan/close_scan.cpp",IF+"scan/read_kv_from_scan.cpp",IF+"scan/scannable_total_index_size.cpp",INC+"scan.h","src/index/yakushima/include/interface.h"],
 [("bounds","check_empty_scan_range"),("handles","scanned_storage_set / check_valid_scan_handle")],
 ["Status and records from scans"])
p("C23","Data operations of a transaction never overlap its commit or abort",
 "Every data operation holds its transaction's state in shared mode for its whole duration (reads of a read-only transaction may be configured not to) and commit and abort hold it exclusively, so operations issued from several threads on one session never run while the transaction is being ended.",
 ["schedules"],"all interleavings of threads sharing one session",
 "Strand races need two threads on one session in a tiny window.",
 [IF+"insert.cpp",IF+"update.cpp",IF+"upsert.cpp",IF+"delete.cpp",IF+"search.cpp",IF+"termination.cpp",IF+"scan/open_scan.cpp",IF+"scan/next.cpp",IF+"scan/close_scan.cpp",IF+"scan/read_kv_from_scan.cpp",INC+"session.h"],
 [("state lock","session::get_mtx_state_da_term"),("termination lock","session::get_mtx_termination")],
 ["crashes or lost updates with concurrent use of one session"])
p("C24","The engine cannot deadlock on its own locks",
 "All internal mutexes are always acquired in one consistent order, no mutex is taken again in a conflicting mode by the thread holding it, and a committing transaction locks the records it writes in one global order. Hence no set of concurrently running operations can block each other forever on locks alone.",
 ["schedules"],"all combinations of concurrent operations",
 "Deadlocks need a precise interleaving of two or more threads.",
 ["src/"],
 [("mutex order","every lock_guard/unique_lock/shared_lock site"),("record order","local_write_set::sort_if_ol, write_set_obj::operator<")],
 ["threads blocked forever"])
p("C25","The write-preserve table always reflects exactly the live preserves",
 "Registering a preserve takes a free slot and records its epoch and identity, removing one frees exactly the slot of that identity and, for finished transactions, records identity, epoch, outcome and written range in the result history; readers of the table always get a consistent copy. The oldest-preserve queries return the minimum over live entries and zero or none when there is none.",
 ["schedules","inputs"],"all contents of the table and interleavings of readers and writers",
 "Tests use few entries and no concurrent mutation.",
 [CC+"wp_meta.cpp",INC+"wp_meta.h",CC+"wp_lock.cpp",INC+"wp_lock.h",CC+"wp.cpp"],
 [("table","wp_meta::register_wp / remove_wp_without_lock / register_wp_result_and_remove_wp"),("queries","wp_meta::find_min_ep / find_min_ep_id / find_min_id / find_slot"),("consistent copy","wp_meta::get_wped, wp_lock")],
 ["write-preserve conflicts reported to transactions"])
p("C26","A transaction's own writes combine as if applied in order",
 "Within one transaction, writing a key again behaves as if the writes were applied one after the other: inserting what it already inserted, updated or upserted is refused as existing, updating or deleting what it deleted is refused as missing, inserting or upserting over its own delete becomes a modification, deleting its own insert or upsert cancels it, and later values replace earlier ones. Its own reads return its own latest write and a key it deleted is not found.",
 ["programs","inputs"],"all sequences of operations on a key within one transaction, for all transaction kinds",
 "The number of operation sequences is large; tests cover pairs at most.",
 [IF+"insert.cpp",IF+"update.cpp",IF+"upsert.cpp",IF+"delete.cpp",IF+"short_tx/search.cpp",IF+"long_tx/search.cpp",IF+"scan/read_kv_from_scan.cpp",IF+"scan/next.cpp",CC+"local_set.cpp",INC+"local_set.h"],
 [("operation merge","write_set_obj::set_op / set_val in insert/update/upsert/delete bodies"),("own-write lookup","local_write_set::search")],
 ["Status and values returned inside the transaction","committed result"])
p("C27","Committed reads stay protected from later-committing older writers",
 "Before a transaction that read data is considered committed, all its point reads and range reads are registered with its commit position, for both short and long transactions. The registries answer that a writer at some position conflicts exactly when a committed reader at that or a later position covers the key, including open, closed and infinite range ends, and they drop entries only when no running long transaction could still need them.",
 ["schedules","inputs"],"all ranges, keys, epochs and commit orders",
 "Boundary combinations of range ends and epochs are not enumerated by tests.",
 [CC+"read_by.cpp",INC+"read_by.h",IF+"short_tx/termination.cpp",IF+"long_tx/termination.cpp",IF+"long_tx/search.cpp"],
 [("registration","register_read_by, register_point_read_by_short, register_range_read_by_short"),("queries","point_read_by_long::is_exist, range_read_by_long::is_exist, point/range_read_by_short")],
 ["ERR_CC of the conflicting writer"])
p("C28","Shared engine state is only touched under its lock or atomically",
 "Every piece of state shared between threads (running-transaction list, read plans, sequence map, storage name map, transaction-state handles, callback registries, per-session sets, log buffers, write-preserve results, collector state, commit queue) is accessed only while holding the lock that protects it, exclusively when it is modified, or through atomic operations. This holds on every call path.",
 ["schedules"],"all call paths reaching shared state",
 "Data races rarely fail a test and the sanitizer only sees executed paths.",
 ["src/concurrency_control/","src/include/","src/database/","include/shirakami/"],
 [("guarded-by table","containers and their mutexes across session.h, ongoing_tx.h, read_plan.h, sequence.h, storage.h, lpwal.h, garbage.h, bg_commit.h, transaction_state.h")],
 ["data races"])
p("C29","Recovery rebuilds exactly the logged state and continues its counters",
 "After restart every entry of the recovered snapshot is present with its key and value in its storage, storages and their options and names are re-created, sequences have their last version and value, and new storage and sequence identifiers and epochs are larger than any recovered one. Recovered entries are readable immediately and unlocked.",
 ["crash_points","histories"],"all log contents",
 "Each kind of entry and identifier distribution must be covered; tests replay small logs.",
 ["src/datastore/limestone/datastore.cpp",IF+"start_up.cpp",IF+"storage.cpp"],
 [("recovery","datastore::recovery_from_datastore"),("epoch continuation","init_body")],
 ["database contents after restart"])
p("C30","New versions are published completely and stamped with their commit order",
 "A committed write becomes visible only when its value and stamp are complete: the new version is fully built before it is linked, the previous version keeps its stamp and its deleted/alive state, and the record's stamp is changed last, releasing the lock. The stamp carries the commit epoch, is newer than every stamp the transaction read or overwrites and than its session's previous one, and a deletion is marked as deleted.",
 ["schedules","histories"],"all write sets, all prior record states",
 "A reader must hit the window between two stores to observe a violation.",
 [IF+"short_tx/termination.cpp",IF+"long_tx/termination.cpp",INC+"record.h",INC+"version.h",INC+"tid.h"],
 [("short publish","short_tx::write_phase, compute_commit_tid"),("long publish","long_tx::expose_local_write, compute_tid"),("publication primitives","Record::set_tid, Record::set_latest, version::set_next")],
 ["values and order observed by other transactions"])
p("C31","Read areas declared by a long transaction are enforced",
 "A long transaction that declared storages to read, or not to read, gets an error and is aborted when it reads, or writes depending on existing data, outside the declared area, and is never refused inside it; a declared exclusion always wins. The declaration is what other transactions use to decide whether they must wait for it.",
 ["inputs","programs"],"all positive/negative list combinations and operations",
 "List combinations x operations are sampled only.",
 [IF+"long_tx/helper.cpp",IF+"helper.cpp",IF+"long_tx/search.cpp",IF+"scan/open_scan.cpp",CC+"read_plan.cpp",INC+"read_plan.h"],
 [("check","long_tx::check_read_area_body / check_read_area"),("plan","read_plan::add_elem / check_potential_read_anti")],
 ["ERR_READ_AREA_VIOLATION"])
p("C32","Transaction state handles follow the transaction's life and are never confused",
 "A state handle is valid from acquisition until release, refers to the transaction that was running when it was acquired, moves only forward through its states, and using a released or unknown handle is refused. Handle numbers are not handed out twice while in use.",
 ["schedules","programs"],"all sequences of handle operations and transaction outcomes",
 "Sequences mixing release, reuse and commit are not enumerated.",
 [CC+"transaction_state.cpp","include/shirakami/transaction_state.h",CC+"session.cpp"],
 [("handle life","acquire_tx_state_handle / check_tx_state / release_tx_state_handle"),("container","TxState::insert_tx_state / find_and_erase_tx_state")],
 ["Status and state from check_tx_state"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=3
print(len(P))
