"""C29: what was durable is there after a restart."""
from rulekit import *

CONFIGS = ["log"]
NOTE = ("recovery followed from the entry point through every kind of entry to the record put in the index, the name, the storage, the sequence version and the "
        "counters, and the way the first epoch is chosen. One entry per cursor is followed; which entries a snapshot holds is the business of the log library")
ASSUMPTIONS = ["the snapshot of the log library holds the durable entries", "an entry of a storage comes next to the others of that storage, or before them"]
META, SEQ, DUMMY = 2 ** 64 - 2, 2 ** 64 - 4, 2 ** 64 - 5
ROOT = "datastore::recovery_from_datastore"
CUR = "limestone::api::cursor::"
TX = q("enter leave get storage::register_storage storage::exist_storage storage::key_handle_map_push_storage")


def check(K):
    for f in (data, names, sequences, counters, workers, gather, epoch):
        K.part("C29." + f.__name__, f)


def out(t, n):
    """the value given out by a call of the cursor, or nothing known"""
    return t is not None and any(x.kind == "o" and short(x.args[0]) == n for x in subterms(t))


def kind(X, st, e):
    o, a, b, t = atom(e.val, e.extra)
    ps = st.ps
    if o == "==" and b is not None:
        for x, y in ((a, b), (b, a)):
            if is_result(x, CUR + "storage"):
                c = X.const(st, y)
                if c == META:
                    ps["meta"] = t
                elif c == SEQ:
                    ps["seq"] = t
                elif t:
                    ps["same"] = 1
    elif is_result(a, CUR + "next"):
        ps["entry"] = t != (o == "==" and b is not None and X.const(st, b) == 0)
    return o, a, b, t


PER = ("meta", "seq", "same", "entry", "there", "val", "put", "reg", "fatal", "exists", "name", "push", "lst", "mx")


def fresh(st):
    """another entry begins"""
    for k in list(st.ps):
        if k in PER or k.startswith(("row ", "at ")):
            del st.ps[k]


def closing(lv):
    def f(X, st, e):
        lv(X, st, e)
        fresh(st)
    return f


def listed(X, st, e):
    return e.name.startswith("std::vector::") and short(e.name) in ("emplace_back", "push_back", "insert") and e.recv is not None and e.args


def bad_tid(X, st, rec):
    t = X.eng.load(st, mk("f", mk("d", rec), SK + "Record::tidw_"))
    for f, want in (("lock_", 0), ("absent_", 0), ("latest_", 1)):
        v = X.eng.fieldval(t, SK + "tid_word::" + f)
        c = None if v is None else X.const(st, v)
        if c is not None and c != want:
            return f
        if c is None and f != "lock_":
            return f
    return None


def data(K):
    """every entry of the snapshot becomes a record with its key and its value in its storage, readable and not locked"""
    PUT = "yakushima::put"

    def br(X, st, e):
        o, a, b, t = kind(X, st, e)
        if o == "==" and is_result(a, SK + "get") and X.const(st, b) == 0:
            st.ps["there"] = t
        if o == "==" and is_result(a, PUT) and X.const(st, b) == 9 and not t:
            st.ps["fatal"] = 1

    def gt(X, st, e):
        X.ob()
        s = X.arg(st, e, 0)
        ps = st.ps
        if ps.get("meta"):
            if X.const(st, s) not in (META, None):
                X.bad(st, e, "a storage's row is looked for in another storage")
        elif not is_result(s, CUR + "storage") and s.kind != "u":
            X.bad(st, e, "an entry is looked for in another storage than its own")

    def sv(X, st, e):
        X.ob()
        ps = st.ps
        v = X.arg(st, e, 0)
        ps["val"] = 1
        if v.kind != "u" and not out(v, "value") and not (ps.get("meta") and ("append" in pretty(v) or "value" in pretty(v))):
            X.bad(st, e, "a recovered record gets another value than the one of its entry")

    def pt(X, st, e):
        X.ob()
        ps = st.ps
        s, k, r = X.arg(st, e, 1), X.arg(st, e, 2), X.arg(st, e, 3)
        own = seen(X, st, s)
        if ps.get("meta"):
            if own is not None and X.const(st, own) not in (META, None):
                X.bad(st, e, "a storage's row is put in another storage")
        elif ps.get("seq"):
            X.bad(st, e, "a sequence's entry is put among the records of a storage")
        elif own is not None and own.kind != "u" and not is_result(own, CUR + "storage"):
            X.bad(st, e, "an entry is put in another storage than its own")
        if k.kind != "u" and not out(k, "key"):
            X.bad(st, e, "an entry is put under another key than its own")
        if not ps.get("val"):
            X.bad(st, e, "a recovered record is put in the index without its value")
        rec = None
        for x in subterms(r):
            if x.kind == "new":
                rec = x
        if pretty(r).startswith("&") and rec is None:
            v = X.eng.load(st, r.args[0])
            for x in subterms(v):
                if x.kind == "new":
                    rec = x
        if rec is not None:
            f = bad_tid(X, st, rec)
            if f:
                X.bad(st, e, {"lock_": "a recovered record is put in the index locked", "absent_": "a recovered record is put in the index as deleted",
                              "latest_": "a recovered record is put in the index as not the latest"}[f])
        ps["put"] = 1

    def reg(X, st, e):
        X.ob()
        s = X.arg(st, e, 0)
        if is_result(s, CUR + "storage"):
            st.ps["reg"] = 1

    def anyc(X, st, e):
        if short(e.name) == "Record" and e.name.startswith(SK + "Record") and e.args:
            X.ob()
            k = X.arg(st, e, 0)
            if k.kind != "u" and not out(k, "key") and "key" not in pretty(k):
                X.bad(st, e, "a recovered record is made with another key than the one of its entry")

    def lv(X, st, e):
        ps = st.ps
        X.ob()
        if not ps.get("entry") or ps.get("fatal"):
            return
        if ps.get("there") is True or ps.get("seq"):
            if ps.get("there") and not ps.get("val"):
                X.bad(st, e, "an entry whose record is there already does not give it its value")
            if not ps.get("seq"):
                return
        if ps.get("seq"):
            return
        if not ps.get("put"):
            X.bad(st, e, "an entry of the snapshot is left out")
        elif ps.get("meta") is False and not ps.get("reg") and not ps.get("same"):
            X.bad(st, e, "an entry is put in a storage that was not registered")
    K.run("C29.data", data.__doc__, K.fns(ROOT), minimum=6, stop=(TX - q("get")) | q("get"), once=True, branch=br, anycall=anyc,
          call={SK + "get": gt, SK + "Record::set_value": sv, PUT: pt, SK + "storage::register_storage": reg, CUR + "next": closing(lv), SK + "leave": lv}, merge_block=200, merge_exits=100)


def seen(X, st, t):
    """the identifier whose bytes a view shows"""
    for x in subterms(t):
        if pretty(x).startswith("&") and isinstance(x.args[0], Term):
            return X.eng.load(st, x.args[0])
    return None


def copies(X, st, e):
    """note what is read from which offset of which text: (what it is stored in, 'key'/'value', offset, size)"""
    d, s, n = X.arg(st, e, 0), X.arg(st, e, 1), X.arg(st, e, 2)
    src = "value" if out(s, "value") else "key" if out(s, "key") else None
    off = 0
    x = s
    while x.kind == "op" and x.args[0] == "+":
        c = X.const(st, x.args[2])
        if c is None:
            off = None
            break
        off += c
        x = x.args[1]
    return src, off, X.const(st, n)


def field_src(X, st, t):
    """which copy a value came from"""
    for x in subterms(t):
        if x.kind == "o" and short(x.args[0]) == "memcpy":
            return st.ps.get("at %s" % (x.args[2],))
    return None


def mc(X, st, e):
    if short(e.name) != "memcpy" or len(e.args) < 3:
        return
    src, off, n = copies(X, st, e)
    if src:
        st.ps["at %s" % (e.site[1] if isinstance(e.site, tuple) else e.site,)] = "%s%s" % (src[0], off)


def names(K):
    """a storage recorded in the snapshot is there with its identifier, its options and its name, and its row is put back as it was"""

    def br(X, st, e):
        o, a, b, t = kind(X, st, e)
        ps = st.ps
        if o == "==":
            c = X.const(st, b)
            if is_result(a, SK + "storage::exist_storage") and c == 0:
                ps["exists"] = t
            for n in ("register_storage", "key_handle_map_push_storage"):
                if is_result(a, SK + "storage::" + n) and c == 0 and not t:
                    ps["fatal"] = 1

    def reg(X, st, e):
        ps = st.ps
        if not ps.get("meta"):
            return
        X.ob()
        ps["reg"] = 1
        s, o = X.arg(st, e, 0), X.arg(st, e, 1)
        if field_src(X, st, s) not in ("v0", None):
            X.bad(st, e, "a recovered storage gets another identifier than the recorded one")
        i = X.eng.fieldval(o, SK + "storage_option::id_")
        if i is not None and i.kind != "u":
            if field_src(X, st, i) not in ("v8", None) or not any(x.kind == "o" for x in subterms(i)):
                X.bad(st, e, "a recovered storage gets another option identifier than the recorded one")
        elif i is None and o.kind in ("init", "rec"):
            X.bad(st, e, "a recovered storage does not get its options")
        p = X.eng.fieldval(o, SK + "storage_option::payload_")
        if p is not None and ps.get("more") and not out(p, "value") and "append" not in pretty(p) and p.kind != "u":
            X.bad(st, e, "a recovered storage does not get its payload")

    def name(X, st, e):
        X.ob()
        ps = st.ps
        ps["name"] = 1
        k, s = X.arg(st, e, 0), X.arg(st, e, 1)
        if k.kind != "u" and not out(k, "key"):
            X.bad(st, e, "a recovered storage gets another name")
        if field_src(X, st, s) not in ("v0", None) or s.kind not in ("u", "ld") and not any(x.kind == "o" for x in subterms(s)):
            X.bad(st, e, "a recovered name leads to another storage")
        if not ps.get("exists") and not ps.get("reg"):
            X.bad(st, e, "a name is recovered for a storage that is not there")

    def anyc(X, st, e):
        ps = st.ps
        mc(X, st, e)
        if short(e.name) == "append" and e.args and ps.get("meta"):
            a = X.arg(st, e, 0)
            if pretty(a).startswith("&") and isinstance(a.args[0], Term):
                c = field_src(X, st, X.eng.load(st, a.args[0])) or "?"
                k = "row " + pretty(e.recv[1])
                ps[k] = ps.get(k, "") + c
            elif e.recv:
                k = "row " + pretty(e.recv[1])
                if out(a, "value"):
                    x = a
                    off = 0
                    while x.kind == "op" and x.args[0] == "+":
                        c = X.const(st, x.args[2])
                        off = None if c is None or off is None else off + c
                        x = x.args[1]
                    if off not in (16, None):
                        X.bad(st, e, "the payload is not read from where it is in the row")
                else:
                    ps[k] = ps.get(k, "") + "p"

    def val(X, st, e):
        ps = st.ps
        if not ps.get("meta"):
            return
        X.ob()
        v = X.arg(st, e, 0)
        if v.kind == "u" or out(v, "value"):
            return
        rows = [x for k, x in ps.items() if k.startswith("row ")]
        if rows and "v0v8p" not in rows and not any("?" in r for r in rows):
            X.bad(st, e, "the row of a recovered storage is not identifier, option identifier and payload")

    def lv(X, st, e):
        ps = st.ps
        if not ps.get("entry") or not ps.get("meta") or ps.get("fatal"):
            return
        X.ob()
        if not ps.get("name"):
            X.bad(st, e, "a recorded storage comes back without its name")
        if not ps.get("exists") and not ps.get("reg"):
            X.bad(st, e, "a recorded storage is not there after recovery")
    K.run("C29.names", names.__doc__, K.fns(ROOT), minimum=3, stop=TX, once=True, branch=br, anycall=anyc,
          call={SK + "storage::register_storage": reg, SK + "storage::key_handle_map_push_storage": name, SK + "Record::set_value": val, CUR + "next": closing(lv), SK + "leave": lv},
          merge_block=200, merge_exits=100)


def sequences(K):
    """a sequence recorded in the snapshot has the version and the value recorded, and is entered in the table with it locked"""

    def push(X, st, e):
        X.ob()
        ps = st.ps
        ps["push"] = 1
        if not X.eng.held(st, "sequence_map_smtx_", "X"):
            X.bad(st, e, "a sequence is recovered without the table of sequences locked")
        if not ps.get("seq"):
            X.bad(st, e, "an entry of another storage is taken for a sequence")
        n = len(e.args)
        want = ["k0"] + ["v0", "v8"]
        got = [X.arg(st, e, 0)] + [X.arg(st, e, j) for j in range(n - 2, n)]
        for w, g, what in zip(want, got, ("identifier", "version", "value")):
            s = field_src(X, st, g)
            if s is not None and s != w or s is None and g.kind not in ("u",) and X.const(st, g) is not None:
                X.bad(st, e, "a recovered sequence has another %s than the recorded one" % what)
        if n >= 4:
            c = X.const(st, X.arg(st, e, 1))
            if c is not None and c != 0:
                X.bad(st, e, "a recovered sequence's version is not durable from the start")

    def anyc(X, st, e):
        mc(X, st, e)

    def br(X, st, e):
        o, a, b, t = kind(X, st, e)
        if is_result(a, SK + "sequence::sequence_map_push") and o == "==" and X.const(st, b) == 0 and not t:
            st.ps["fatal"] = 1

    def lv(X, st, e):
        ps = st.ps
        if ps.get("entry") and ps.get("seq") and not ps.get("fatal"):
            X.ob()
            if not ps.get("push"):
                X.bad(st, e, "a recorded sequence is not there after recovery")
    K.run("C29.sequences", sequences.__doc__, K.fns(ROOT), minimum=2, stop=TX | q("sequence::sequence_map_push"), once=True, branch=br, anycall=anyc,
          call={SK + "sequence::sequence_map_push": push, CUR + "next": closing(lv), SK + "leave": lv}, merge_block=200, merge_exits=100)


def counters(K):
    """new storages and sequences get identifiers above every recovered one"""
    CTR = "strg_ctr_"

    def anyc(X, st, e):
        ps = st.ps
        mc(X, st, e)
        n = short(e.name)
        if listed(X, st, e) and n != "insert":
            v = X.arg(st, e, 0)
            if is_result(v, CUR + "storage"):
                ps["lst"] = "s"
            elif field_src(X, st, v) == "v0":
                ps["lst"] = "m"
        elif e.name == "std::vector::insert":
            ps["merged"] = 1
        elif e.name == "std::sort":
            ps["sorted"] = 1
            if len(e.args) > 2:
                ps["sorted"] = 2

    def wr(X, st, e):
        if e.val is None:
            return
        if "max" in pretty(e.val) and e.val.kind == "op" and e.val.args[0] == "max" and any(field_src(X, st, x) == "k0" for x in e.val.args[1:]):
            st.ps["mx"] = 1

    def at(X, st, e):
        ps = st.ps
        p = pretty(e.loc)
        if CTR in p and e.kind == "astore":
            X.ob()
            ps["ctr"] = 1
            v = e.val
            if "elem" in pretty(v):
                ok = v.kind == "op" and v.args[0] == "+" and (X.const(st, v.args[2]) or 0) >= 1
                if not ok:
                    X.bad(st, e, "the counter of storages is not above the last recovered storage")
                if any(x.kind == "it" and x.args[1] in ("begin", "front", ("idx", 0)) for x in subterms(v)) or not ps.get("sorted"):
                    X.bad(st, e, "the counter of storages does not follow from the largest recovered identifier")
        elif "id_generator_ctr" in p and e.kind == "astore":
            X.ob()
            ps["sctr"] = 1
            v = e.val
            if v.kind != "u" and not (v.kind == "op" and v.args[0] == "+" and (X.const(st, v.args[2]) or 0) >= 1):
                if X.const(st, v) is None or ps.get("anyseq"):
                    X.bad(st, e, "the generator of sequence identifiers is not above the last recovered one")

    def br(X, st, e):
        o, a, b, t = kind(X, st, e)
        ps = st.ps
        p = pretty(a)
        if o in ("<", "<=") and any(field_src(X, st, x) == "k0" for x in (a, b)):
            ps["mx"] = 1
            return
        if o in ("<", "<=") and "elem" in pretty(e.val) and "back" in pretty(e.val):
            # a last identifier below those given by the system
            z = e.extra
            lo, hi = (a, b)
            if "elem" in pretty(lo):
                ps["sysid"] = not t
                c = X.const(st, hi)
                if c is not None and (c > (1 << 32) or o == "<=" and c >= (1 << 32)):
                    ps["late"] = 1
            else:
                ps["sysid"] = t
                c = X.const(st, lo)
                if c is not None and (c > (1 << 32) or o == "<" and c >= (1 << 32)):
                    ps["late"] = 1
        elif o in ("<", "<=", "==") and ("max" in pretty(e.val) or "memcpy" in pretty(e.val)) and ps.get("anyseq"):
            c = X.const(st, a) if X.const(st, a) is not None else X.const(st, b)
            if c == 0:
                above = t if X.const(st, a) == 0 and o == "<" else not t
                ps["above"] = above
        elif p.startswith("empty") or "empty(" in p:
            ps["none"] = t != (o == "==" and b is not None and X.const(st, b) == 0)

    def lv(X, st, e):
        ps = st.ps
        if not ps.get("entry"):
            return
        X.ob()
        if ps.get("seq"):
            if not ps.get("mx"):
                X.bad(st, e, "the largest recovered sequence identifier is not kept")
            ps["anyseq"] = 1
        elif not ps.get("lst") and not ps.get("same"):
            X.bad(st, e, "a recovered storage does not count for the identifiers of new ones")
        else:
            ps["anyst"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        if ps.get("anyseq") and ps.get("above") and not ps.get("sctr"):
            X.badfn(st, fn, "the generator of sequence identifiers is not moved above the recovered ones")
        if ps.get("anyst") and not ps.get("ctr") and not ps.get("none"):
            X.badfn(st, fn, "the counter of storages is not set after recovery")
        if ps.get("late"):
            X.badfn(st, fn, "the counter of storages starts over although recovered storages have identifiers given by it")
    K.run("C29.counters", counters.__doc__, K.fns(ROOT), minimum=4, stop=TX | q("sequence::sequence_map_push"), once=True, branch=br, anycall=anyc, anywrite=wr,
          atomic=at, exit=ex, call={CUR + "next": closing(lv), SK + "leave": lv}, merge_block=200, merge_exits=200)


def workers(K):
    """recovery by several workers takes every part of the snapshot, is waited for before the counters are set, and gathers results under a lock"""

    def anyc(X, st, e):
        ps = st.ps
        n = short(e.name)
        if n == "get_partitioned_cursors":
            X.ob()
            ps["parts"] = 1
        elif n == "join" and "thread" in e.name:
            ps["join"] = 1
        elif n == "detach" and "thread" in e.name:
            X.ob()
            X.bad(st, e, "a worker of the recovery is not waited for")
        elif e.name == "std::vector::emplace_back" and len(e.args) > 1 and any(x.kind == "lam" for x in subterms(X.arg(st, e, 0))):
            X.ob()
            ps["go"] = 1
            if ps.get("join"):
                pass

    def at(X, st, e):
        if e.kind == "astore" and ("strg_ctr_" in pretty(e.loc) or "id_generator_ctr" in pretty(e.loc)):
            X.ob()
            if st.ps.get("go") and not st.ps.get("join"):
                X.bad(st, e, "an identifier counter is set before the workers of the recovery ended")

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        if ps.get("go") and not ps.get("join"):
            X.badfn(st, fn, "recovery ends without waiting for its workers")
        if ps.get("parts") and not ps.get("go"):
            X.badfn(st, fn, "a part of the snapshot is not recovered")
    K.run("C29.workers", workers.__doc__, K.fns(ROOT), minimum=3, stop=TX | q("datastore::recovery_from_cursor"), nonempty=True, once=True, anycall=anyc, atomic=at,
          exit=ex, merge_block=200, merge_exits=200)


def gather(K):
    """what each worker found is gathered with the others kept out, without losing what they found"""
    eng = K.eng
    reach = {}

    def reads(f, seen=()):
        if f not in reach:
            reach[f] = any(n == CUR + "next" or g in eng.fns and g not in seen and reads(g, seen + (f,)) for g, n, _ in eng.calls(f))
        return reach[f]
    roots = [f for f, d in eng.fns.items() if d["kind"] == "lambda" and d["n"].startswith(SK + ROOT + "::") and reads(f)]
    if not roots:
        return
    inner = frozenset(n for f in roots for g, n, _ in eng.calls(f) if g in eng.fns and reads(g))

    def found(t):
        return t is not None and any(x.kind == "r" and x.args[0] in inner for x in subterms(t))

    def lk(X, st, e):
        st.ps["lk"] = max(0, st.ps.get("lk", 0) + (1 if e.kind == "acquire" else -1))

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o in ("<", "<=") and found(e.val):
            st.ps["cmp"] = 1

    def wr(X, st, e):
        if e.val is None or not found(e.val) or e.loc.kind != "v":
            return
        X.ob()
        if not st.ps.get("lk"):
            X.bad(st, e, "what a worker found is gathered without keeping the others out")
        if not any(x.kind == "op" and x.args[0] == "max" for x in subterms(e.val)) and not st.ps.get("cmp"):
            X.bad(st, e, "what a worker found replaces what another found")

    def anyc(X, st, e):
        n = short(e.name)
        if not e.recv or not e.name.startswith("std::vector::"):
            return
        if n in ("insert", "emplace_back", "push_back", "operator=", "assign", "swap") and not found(e.recv[1]):
            X.ob()
            if not st.ps.get("lk"):
                X.bad(st, e, "what a worker found is gathered without keeping the others out")
            if n in ("operator=", "assign", "swap"):
                X.bad(st, e, "what a worker found replaces what another found")
            st.ps["list"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("list"):
            X.badfn(st, fn, "the storages a worker found are not gathered")
    K.run("C29.gather", gather.__doc__, roots, minimum=2, stop=inner, branch=br, anywrite=wr, anycall=anyc, lock=lk, exit=ex)


def epoch(K):
    """the first epoch after a restart is above the last durable one"""
    STOP = q("TxState::init session_table::init_session_table wp::init storage::init_meta_storage epoch::init garbage::init lpwal::init "
             "bg_work::bg_commit::init read_plan::init storage::init sequence::init datastore::create_datastore datastore::recovery_from_datastore "
             "datastore::init_about_session_table logging::init session::set_envflags ongoing_tx::set_optflags")

    def last(t):
        return any(is_result(x, "limestone::api::datastore::last_epoch") for x in subterms(t))

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o in ("<", "<=") and last(e.val) and not any(x.kind == "o" for x in subterms(e.val)):
            z = t if last(b) else not t
            lo = a if last(b) else b
            c = X.const(st, lo)
            st.ps["above"] = z
            if c is not None and not z:
                st.ps["top"] = c if (o == "<") == last(b) else c - 1

    def up(X, st, e, v, what):
        X.ob()
        c = X.const(st, v)
        if last(v):
            if not (v.kind == "op" and (v.args[0] == "+" and (X.const(st, v.args[2]) or X.const(st, v.args[1]) or 0) >= 1 or v.args[0] == "max")):
                X.bad(st, e, "%s is not above the last durable epoch" % what)
        elif c is not None:
            if st.ps.get("above") is not False:
                X.bad(st, e, "%s does not follow from the last durable epoch" % what)
            elif c <= st.ps.get("top", 0):
                X.bad(st, e, "%s may be the last durable epoch" % what)

    def at(X, st, e):
        p = short(str(e.loc.args[0])) if e.loc.kind == "g" else pretty(e.loc)
        if e.kind == "astore" and "global_epoch" in p:
            st.ps["ge"] = 1
            up(X, st, e, e.val, "the first epoch")

    def se(X, st, e):
        up(X, st, e, X.arg(st, e, len(e.args) - 1), "the log's first epoch")
        st.ps["sw"] = 1

    CREATE = K.eng.enum("shirakami::database_options::open_mode", "CREATE")

    def mode(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        br(X, st, e)
        if o == "==" and b is not None and any(x.kind in ("f", "fv") and short(x.args[1]) == "open_mode_" for x in subterms(a)) and X.const(st, b) == CREATE:
            st.ps["create"] = t
        elif "empty(" in pretty(a) or "size(" in pretty(a):
            st.ps["nodir"] = 1

    def anyc(X, st, e):
        ps = st.ps
        if e.name == SK + "datastore::recovery_from_datastore":
            X.ob()
            ps["rec"] = 1
        elif e.name == "limestone::api::datastore::recover":
            ps["log"] = 1
        elif ps.get("rec") and (e.name == "yakushima::init" or e.name in RESET):
            X.ob()
            X.bad(st, e, "what was recovered is reset again")
    RESET = q("storage::init sequence::init wp::init storage::init_meta_storage")

    def ex(X, st, v, fn):
        if X.const(st, v) == K.S("OK"):
            X.ob()
            if st.ps.get("log") and not st.ps.get("rec") or st.ps.get("create") is False and not st.ps.get("rec") and not st.ps.get("nodir"):
                X.badfn(st, fn, "a database starts with a log and does not recover from it")
            if not st.ps.get("ge"):
                X.badfn(st, fn, "the database starts without setting its first epoch")
    K.run("C29.epoch", epoch.__doc__, K.fns("init", 2), minimum=2, stop=STOP, branch=mode, anycall=anyc, atomic=at, call={"limestone::api::datastore::switch_epoch": se}, exit=ex,
          merge_block=200, merge_exits=100)
