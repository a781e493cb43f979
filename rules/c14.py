"""C14: every committed write is logged once with the right operation, data and version."""
import c15
from rulekit import *
from publish import *

CONFIGS = ["log"]
NOTE = ("commit paths: one log record per newest write with matching operation, storage, key, value, large objects and version; "
        "buffering and flushing: one channel entry of the right kind per record, under the log lock, inside one log session that the log channel is told of")
CH = "limestone::api::log_channel::"
SEQ = (1 << 64) - 4  # the storage of sequences (largest id minus three)


def check(K):
    commit_rule(K, "C14.short", "short_tx::commit", SSTOP, False)
    commit_rule(K, "C14.long", "long_tx::commit", LSTOP, True)
    K.part("C14.sequence", sequence)
    K.part("C14.buffer", buffer)
    K.part("C14.flush", flush)
    K.part("C14.session", c15.session)


def fld(t, name):
    """Field of a built log record or version value."""
    b, over = split(t)
    if name in over:
        return over[name]
    return None


def unk(t):
    return t is None or t.kind == "u"


def commit_rule(K, rid, root, stop, long):
    LO = {K.OP(n): K.eng.enum("shirakami::log_operation", n) for n in ("INSERT", "UPDATE", "UPSERT", "DELETE")}
    NAMES = {K.OP(n): n for n in ("INSERT", "UPDATE", "UPSERT", "DELETE")}
    OK = K.S("OK")

    def ops(st):
        r = {c for t, c in st.eq.items() if ld_is(t, "op_") and in_container(t, "cont_for_bt_") or
             ld_is(t, "op_") and in_container(t, "cont_for_occ_")}
        return r.pop() if len(r) == 1 else None

    def log(X, st, e):
        X.ob()
        ps = st.ps
        if not X.eng.held(st, "mtx_logs_"):
            X.bad(st, e, "appends a log record without the log lock")
        ps["logs"] = ps.get("logs", 0) + 1
        if ps["logs"] > 1:
            X.bad(st, e, "logs one write twice")
        v = X.arg(st, e, 0)
        lo = fld(v, "operation_")
        op = ops(st)
        c = X.const(st, lo) if lo is not None else None
        if op is not None and c is not None and LO[op] != c:
            X.bad(st, e, "logs %s as %s" % (NAMES[op], K.eng.enum_name("shirakami::log_operation", c)))
        s = fld(v, "st_")
        if not unk(s) and not (ld_is(s, "storage_") and elem(s)):
            X.bad(st, e, "the log record does not name the storage of the write")
        k = fld(v, "key_")
        if not unk(k) and not mentions(k, lambda x: x.kind == "o" and x.args[0] == SK + "Record::get_key"
                                       or x.kind == "f" and short(x.args[1]) == "key_"):
            X.bad(st, e, "the log record does not hold the key of the write")
        w = fld(v, "val_")
        if not unk(w) and not is_wval(w) and op != K.OP("DELETE"):
            X.bad(st, e, "the log record does not hold the value of the write")
        b = fld(v, "lobs_")
        if not unk(b) and not (ld_is(b, "lobs_") and elem(b)):
            X.bad(st, e, "the log record does not hold the large objects of the write")
        wv = fld(v, "wv_")
        if wv is not None:
            ma, mi = fld(wv, "major_write_version_"), fld(wv, "minor_write_version_")
            if long:
                if not unk(ma) and not ld_is(ma, "valid_epoch_"):
                    X.bad(st, e, "the major version of the log record is not the epoch of the transaction")
                if not unk(mi) and not ld_is(mi, "long_tx_id_"):
                    X.bad(st, e, "the minor version of the log record is not the id of the transaction")
            else:
                f = field_of(ma, "epoch_") if ma is not None else None
                if not unk(ma) and not (f is not None and (ld_is(f, "mrc_tid_") or f.kind in ("op", "rec"))) \
                        and not is_result(ma, SK + "epoch::get_global_epoch"):
                    X.bad(st, e, "the major version of the log record is not the commit epoch")
                ms = pretty(mi) if mi is not None else ""
                if not unk(mi) and mi.kind != "o":
                    high = mentions(mi, lambda x: x.kind == "c" and x.args[0] in (1 << 63, -(1 << 63)))
                    if not (high and mentions(mi, lambda x: x.kind in ("fv", "f") and short(x.args[1]) == "tid_")):
                        X.bad(st, e, "the minor version of the log record is not ordered behind long transactions by the commit "
                              "stamp (%s)" % ms)

    def elem(t):
        return in_container(t, "cont_for_bt_") or in_container(t, "cont_for_occ_")

    def stamp(X, st, e):
        if not st.ps.get("logs_checked"):
            w = wso_of(X.recv(st, e))
            if w is None:
                return
            base, over = split(X.arg(st, e, 0))
            if rec_tid(base, X.recv(st, e)):
                return
            t = over.get("tid_")
            st.ps["newest"] = not (long and t is not None and field_of(t, "tid_") is not None)

    def ex(X, st, v, fn):
        c = X.const(st, v)
        n = st.ps.get("logs", 0)
        X.ob()
        if c == OK:
            if st.ps.get("newest") and n == 0:
                X.badfn(st, fn, "commits a write without logging it")
            if not st.ps.get("newest") and n:
                X.badfn(st, fn, "logs a write that is not the newest state")
        elif n and c != K.S("ERR_FATAL"):
            X.badfn(st, fn, "logs a write of a transaction that did not commit")

    K.run(rid, "each write exposed as newest is logged exactly once with its data and version", root, minimum=30, stop=stop,
          nonempty=True, once=True, merge_block=600 if not long else 60,
          call={SK + "lpwal::handler::push_log": log, SK + "Record::set_tid": stamp}, exit=ex)


def sequence(K):
    """committed sequence updates are logged once with their id, version and value"""
    UPS = K.eng.enum("shirakami::log_operation", "UPSERT")
    OK = K.S("OK")

    def built(X, st, e):
        v = X.arg(st, e, 0)
        X.ob()
        wv = fld(v, "wv_") if v is not None else None
        if wv is None:
            return
        st.ps["rec"] = st.ps.get("rec", 0) + 1
        if not st.ps.get("valid"):
            X.bad(st, e, "logs a sequence update that was not accepted")
        c = X.const(st, fld(v, "operation_")) if fld(v, "operation_") is not None else None
        if c is not None and c != UPS:
            X.bad(st, e, "a sequence update is not logged as an addition")
        s = fld(v, "st_")
        if not unk(s) and X.const(st, s) != SEQ:
            X.bad(st, e, "a sequence update is logged for another storage")
        ma, mi = fld(wv, "major_write_version_"), fld(wv, "minor_write_version_")
        if not unk(ma) and not (mentions(ma, lambda x: x.kind in ("f", "fv") and short(x.args[1]) == "epoch_")):
            X.bad(st, e, "the major version of a sequence update is not the commit epoch")
        if not unk(mi) and not (mi.kind in ("ld", "fv") and mentions(mi, lambda x: x.kind in ("f", "fv") and x.args[1] == "#0")):
            X.bad(st, e, "the minor version of a sequence update is not the sequence version")

    def anycall(X, st, e):
        if e.name.startswith("std::") and short(e.name) in ("emplace_back", "push_back") and e.args:
            v = X.arg(st, e, 0)
            if v is not None and v.kind == "rec" and fld(v, "wv_") is not None:
                built(X, st, e)

    def ver(X, st, e):
        o = X.outcome(st, e.val, OK)
        if o == "ok":
            st.ps["valid"] = 1

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and is_result(a, SK + "sequence::sequence_map_find_and_verify") and b.kind == "c" and b.args[0] == OK:
            st.ps["valid"] = 1 if t else 0
        elif o == "t" and is_result(a, SK + "sequence::sequence_map_find_and_verify"):
            st.ps["valid"] = 0 if t else 1

    def upd(X, st, e):
        X.ob()
        st.ps["upd"] = 1
        if not st.ps.get("valid"):
            X.bad(st, e, "applies a sequence update that was not accepted")
        if not st.ps.get("rec"):
            X.bad(st, e, "applies a sequence update without logging it")

    def push(X, st, e):
        X.ob()
        st.ps["pushed"] = 1
        if not X.eng.held(st, "mtx_logs_"):
            X.bad(st, e, "appends a log record without the log lock")

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("rec") and not st.ps.get("pushed") and not st.ps.get("fatal"):
            if st.ps.get("upd") == 1 and updated_ok(st):
                X.badfn(st, fn, "a sequence update is applied but its log record is dropped")

    def updated_ok(st):
        return any(is_result(t, SK + "sequence::sequence_map_update") and c == OK for t, c in st.eq.items()) or st.ps.get("updok")

    def branch2(X, st, e):
        branch(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and is_result(a, SK + "sequence::sequence_map_update") and b.kind == "c" and b.args[0] == OK and t:
            st.ps["updok"] = 1
    K.run("C14.sequence", sequence.__doc__, "session::commit_sequence", minimum=4, nonempty=True, once=True,
          stop=q("sequence::sequence_map_find_and_verify sequence::sequence_map_update lpwal::handler::push_log"), merge_block=300,
          call={SK + "sequence::sequence_map_update": upd, SK + "lpwal::handler::push_log": push}, anycall=anycall,
          branch=branch2, exit=ex)


def buffer(K):
    """appending to the log buffer keeps exactly the record and opens a log session for the first one"""
    def app(X, st, e):
        r = X.recv(st, e)
        if r is not None and loc_is(r, "logs_") and short(e.name) in ("emplace_back", "push_back"):
            X.ob()
            st.ps["n"] = st.ps.get("n", 0) + 1
            if not is_param(X.arg(st, e, 0), 0):
                X.bad(st, e, "buffers something other than the given log record")

    def opened(X, st, e):
        st.ps["open"] = 1

    def minep(X, st, e):
        v = X.arg(st, e, 0)
        st.ps["min"] = 1
        X.ob()
        if not mentions(v, lambda x: x.kind in ("f", "fv") and short(x.args[1]) == "major_write_version_"):
            X.bad(st, e, "the oldest buffered epoch is not the version of the first record")

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        s = pretty(a)
        if o == "t" and "empty" in s and "logs_" in s:
            st.ps["first"] = 1 if t else 0

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("n", 0) != 1:
            X.badfn(st, fn, "a path appends the log record %d times" % st.ps.get("n", 0))
        if st.ps.get("first") == 0 and (st.ps.get("open") or st.ps.get("min")):
            X.badfn(st, fn, "opens a log session although one is open")
        if st.ps.get("first") != 0 and not (st.ps.get("open") and st.ps.get("min")):
            X.badfn(st, fn, "buffers a first record without opening a log session for its epoch")
    K.run("C14.buffer", buffer.__doc__, "lpwal::handler::push_log", minimum=4,
          stop=q("lpwal::handler::begin_session lpwal::handler::set_min_log_epoch"),
          call={SK + "lpwal::handler::begin_session": opened, SK + "lpwal::handler::set_min_log_epoch": minep},
          anycall=app, branch=branch, exit=ex)


def flush(K):
    """every buffered record reaches the channel once, as the right kind of entry, in one log session under the log lock"""
    LO = {n: K.eng.enum("shirakami::log_operation", n) for n in ("DELETE", "ADD_STORAGE", "REMOVE_STORAGE", "INSERT", "UPDATE", "UPSERT")}
    WANT = {LO["DELETE"]: "remove_entry", LO["ADD_STORAGE"]: "add_storage", LO["REMOVE_STORAGE"]: "remove_storage"}
    NAME = {v: k for k, v in LO.items()}

    def entry(X, st, e):
        kind = short(e.name)
        X.ob()
        ps = st.ps
        ps["n"] = ps.get("n", 0) + 1
        if not X.eng.held(st, "mtx_logs_"):
            X.bad(st, e, "hands a record to the channel without the log lock")
        if ps.get("cleared") or ps.get("ended"):
            X.bad(st, e, "hands a record to the channel after the buffer was cleared or the log session ended")
        if ps["n"] > 1:
            X.bad(st, e, "hands one record to the channel twice")
        args = [X.V(st, a) for a in e.args]
        op = {c for t, c in st.eq.items() if ld_is(t, "operation_")}
        excl = set()
        for t, cs in st.ne.items():
            if ld_is(t, "operation_"):
                excl |= set(cs)
        if op:
            c = next(iter(op))
            want = WANT.get(c, "add_entry")
            if kind != want:
                X.bad(st, e, "a logged %s reaches the channel as %s" % (NAME.get(c, c), kind))
        else:
            poss = {WANT.get(c, "add_entry") for c in NAME if c not in excl}
            if poss != {kind}:
                X.bad(st, e, "records of different kinds reach the channel as %s" % kind)
        need = {"add_entry": ("st_", "key_", "val_"), "remove_entry": ("st_", "key_"), "add_storage": ("st_",),
                "remove_storage": ("st_",)}[kind]
        for i, f in enumerate(need):
            if i < len(args) and not (args[i].kind == "u") and not (field_of(args[i], f) is not None):
                X.bad(st, e, "a channel entry is written with something other than the record's %s" % f.rstrip("_"))
        ver = args[len(need)] if len(args) > len(need) else None
        if ver is not None and ver.kind not in ("u",):
            vs = [x for x in ver.args if isinstance(x, Term)]
            if len(vs) >= 2 and not (field_of(vs[0], "major_write_version_") is not None and
                                     field_of(vs[1], "minor_write_version_") is not None):
                X.bad(st, e, "a channel entry is written with another version than the record's")
        if kind == "add_entry":
            if len(args) > 4:
                if field_of(args[4], "lobs_") is None and args[4].kind != "u":
                    X.bad(st, e, "a channel entry is written with other large objects than the record's")
            elif not ps.get("nolobs"):
                X.bad(st, e, "an entry is written without the record's large objects")

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        s = pretty(a)
        if (o == "t" and not t or o == "==" and b is ZERO and t) and "log_channel_ptr_" in s:
            st.dead = True  # every worker owns a channel between startup and shutdown
            return
        if o == "t" and "lobs_" in s and "empty" in s and t:
            st.ps["nolobs"] = 1
        if "lobs_" in s and "size" in s and o == "==" and b is ZERO and t:
            st.ps["nolobs"] = 1
        if o == "t" and "logs_" in s and "empty" in s:
            st.ps.setdefault("empty", 1 if t else 0)
        if o == "t" and ld_is(a, "begun_session_"):
            st.ps.setdefault("begun", 1 if t else 0)

    def begin(X, st, e):
        st.ps["opened"] = 1

    def end(X, st, e):
        X.ob()
        ps = st.ps
        if not X.eng.held(st, "mtx_logs_"):
            X.bad(st, e, "ends a log session without the log lock")
        if ps.get("empty") == 0 and not ps.get("n"):
            X.bad(st, e, "ends the log session before the buffered records were handed over")
        ps["ended"] = 1

    def anycall(X, st, e):
        r = X.recv(st, e)
        if short(e.name) == "clear" and r is not None and loc_is(r, "logs_"):
            X.ob()
            if st.ps.get("empty") == 0 and not st.ps.get("n"):
                X.bad(st, e, "drops buffered records without handing them to the channel")
            st.ps["cleared"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        if ps.get("empty") == 0:
            if not ps.get("n"):
                X.badfn(st, fn, "leaves a buffered record unwritten")
            if not ps.get("cleared"):
                X.badfn(st, fn, "keeps written records in the buffer")
            if not ps.get("ended"):
                X.badfn(st, fn, "does not end the log session after writing")
            if not ps.get("min0"):
                X.badfn(st, fn, "does not reset the oldest buffered epoch after writing")

    def at(X, st, e):
        if loc_is(e.loc, "min_log_epoch_") and e.val is ZERO:
            st.ps["min0"] = 1
    for root in ("lpwal::flush_log", "lpwal::flush_remaining_log"):
        K.run("C14.flush", flush.__doc__, root, minimum=8, nonempty=True, once=True, domains={},
              call={CH + n: entry for n in ("add_entry", "remove_entry", "add_storage", "remove_storage")} |
              {CH + "begin_session": begin, CH + "end_session": end}, anycall=anycall, branch=branch, exit=ex, atomic=at)
