"""C18: names, identifiers, data and metadata of storages stay in step."""
from rulekit import *

NOTE = ("creating, deleting, looking up, and changing options of a storage: every path with the facts and the lock under which the index, the name table, the "
        "concurrency-control metadata and the recorded row change, with which key, identifier and value. The deletion of many records by helper threads is "
        "followed up to their being joined, not through the division of the range")
ASSUMPTIONS = ["yakushima storages behave as documented", "the internal transactions that record a change commit (their failure is logged as a programming error)"]
LOCK = "mtx_key_handle_map_"
META = 2 ** 64 - 2
TX = q("enter leave tx_begin upsert commit delete_record search_key abort check_constraint_key_length Record::~Record wp::page_set_meta::page_set_meta "
       "wp::page_set_meta::~page_set_meta")
YOK = 9


def check(K):
    for f in (create, delete, lookup, options):
        K.part("C18." + f.__name__, f)


def has(t, word):
    return t is not None and any(x.kind == "f" and short(x.args[1]) == word or x.kind == "g" and short(str(x.args[0])) == word for x in subterms(t))


def names(t):
    return has(t, "key_handle_map_")


def seen_view(X, st, t):
    """the identifier whose bytes a view shows"""
    for x in subterms(t):
        if pretty(x).startswith("&") and isinstance(x.args[0], Term):
            return X.eng.load(st, x.args[0])
    return None


def appended(X, st, e):
    """note which pieces a row is put together from"""
    if short(e.name) != "append" or not e.recv or not e.args:
        return
    a = X.arg(st, e, 0)
    v = a
    if pretty(a).startswith("&") and isinstance(a.args[0], Term):
        v = X.eng.load(st, a.args[0])
    k = "row " + pretty(e.recv[1])
    c = "i" if has(v, "id_") else "p" if has(v, "payload_") else "s"
    st.ps[k] = st.ps.get(k, "") + c


def row_bad(st):
    rows = [v for k, v in st.ps.items() if k.startswith("row ")]
    return rows and "sip" not in rows and "iip" not in rows


def results(X, st, e):
    o, a, b, t = atom(e.val, e.extra)
    if o == "==":
        for n in ("yakushima::create_storage", "yakushima::find_storage", "yakushima::put", "yakushima::remove", "yakushima::delete_storage"):
            if is_result(a, n) and X.const(st, b) == YOK:
                st.ps["ok " + n[11:]] = t
        for n in ("commit", "upsert", "delete_record", "search_key"):
            if is_result(a, SK + n) and X.const(st, b) == 0:
                st.ps["ok " + n] = t
    return o, a, b, t


def create(K):
    """a storage is created only under a name not in use, with an identifier that is new or the one asked for, and its name, metadata and row are all there
    before success is reported; the table of names is locked throughout"""
    OK, AE = K.S("OK"), K.S("WARN_ALREADY_EXISTS")
    UNDEF = 2 ** 64 - 1
    ADD = K.eng.enum("shirakami::log_operation", "ADD_STORAGE") if K.fns("lpwal::handler::push_log", need=False) else None

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = results(X, st, e)
        if o == "==" and a.kind == "it" and b.kind == "it" and names(a):
            ps["free" if t else "taken"] = 1
        elif o == "==" and has(a, "id_") and X.const(st, b) == UNDEF:
            ps["sys" if t else "usr"] = 1
        elif "insert()" in pretty(a) or "emplace()" in pretty(a):
            z = t != (o == "==" and X.const(st, b) == 0)
            if not z:
                ps["dup"] = 1
        elif a.kind in ("g", "ld") and has(a, "initialized"):
            ps["wpinit"] = t != (o == "==" and X.const(st, b) == 0)

    def at(X, st, e):
        if "strg_ctr_" in pretty(e.loc):
            X.ob()
            if e.kind == "armw" and "+" in pretty(e.val):
                st.ps["rmw"] = 1
            elif e.kind in ("astore", "armw", "acas"):
                X.bad(st, e, "the counter of storages does not advance in one step")

    def wr(X, st, e):
        if e.loc.kind == "d" and is_param(e.loc.args[0], 1):
            if st.ps.get("reg"):
                X.bad(st, e, "the identifier changes after the storage was registered")

    def anyc(X, st, e):
        ps = st.ps
        n = short(e.name)
        appended(X, st, e)
        if e.name == "yakushima::create_storage":
            X.ob()
            ps["reg"] = 1
            if not X.eng.held(st, LOCK, "X"):
                X.bad(st, e, "a storage is created without the table of names locked")
            if not ps.get("free"):
                X.bad(st, e, "a storage is created under a name that may be in use")
            v = seen_view(X, st, X.arg(st, e, 0))
            if ps.get("sys"):
                if not ps.get("rmw"):
                    X.bad(st, e, "a storage gets an identifier that is not new")
                if v is not None and v.kind != "u" and "armw" not in pretty(v):
                    X.bad(st, e, "a storage is created under another identifier than the new one")
                if v is not None and "armw" in pretty(v) and "<<" not in pretty(v) and v.kind != "u":
                    X.bad(st, e, "an identifier given by the system may be one asked for by a user")
            elif ps.get("usr") and v is not None and v.kind != "u" and not has(v, "id_"):
                X.bad(st, e, "a storage is created under another identifier than the one asked for")
        elif e.name == "yakushima::put":
            X.ob()
            if ps.get("ok create_storage") is not True:
                X.bad(st, e, "metadata is added for a storage that was not created")
            ps["put"] = 1
            v = seen_view(X, st, X.arg(st, e, 2))
            if v is not None and v.kind != "u" and not ("armw" in pretty(v) or has(v, "id_")):
                X.bad(st, e, "metadata is added under another identifier")
        elif e.recv and names(e.recv[1]) and n in ("insert", "emplace", "insert_or_assign", "operator[]") and e.name.startswith("std::"):
            X.ob()
            ps["name"] = 1
            if not X.eng.held(st, LOCK, "X"):
                X.bad(st, e, "a name is added without the table of names locked")
            if ps.get("ok create_storage") is not True:
                X.bad(st, e, "a name is added for a storage that was not created")
            a = X.arg(st, e, 0)
            k, v = (a.args[0], a.args[1]) if a.kind == "tup" and len(a.args) == 2 else (X.arg(st, e, 0), X.arg(st, e, 1)) if len(e.args) > 1 else (None, None)
            if k is not None and k.kind != "u" and not is_param(k, 0):
                X.bad(st, e, "another name than the one asked for is added")
            if v is not None and v.kind != "u" and not ("armw" in pretty(v) or has(v, "id_")):
                X.bad(st, e, "the name is added for another storage")
        elif n == "log_record" and e.name.startswith(SK) and len(e.args) >= 5:
            X.ob()
            if X.const(st, X.arg(st, e, 0)) == ADD:
                ps["log"] = 1

    def up(X, st, e):
        X.ob()
        ps = st.ps
        ps["up"] = 1
        if X.const(st, X.arg(st, e, 1)) not in (META, None):
            X.bad(st, e, "a new storage is recorded in another storage than the one for that")
        if not is_param(X.arg(st, e, 2), 0) and X.arg(st, e, 2).kind != "u":
            X.bad(st, e, "a new storage is recorded under another name")
        if not ps.get("name"):
            X.bad(st, e, "a storage is recorded that was not given its name")
        if not X.eng.held(st, LOCK, "X"):
            X.bad(st, e, "a new storage is recorded without the table of names locked")
        if row_bad(st):
            X.bad(st, e, "the recorded row is not identifier, option identifier and payload")

    def cm(X, st, e):
        st.ps["cm"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        if ps.get("taken") and c not in (AE, None):
            X.badfn(st, fn, "creating under a name in use is not refused as already existing")
        if c == OK:
            if not ps.get("reg") or ps.get("ok create_storage") is not True:
                X.badfn(st, fn, "creating succeeds without a storage")
            if not ps.get("name"):
                X.badfn(st, fn, "creating succeeds without the name leading to the storage")
            if not ps.get("up") or ps.get("ok upsert") is True and not ps.get("cm"):
                X.badfn(st, fn, "creating succeeds without the storage being recorded")
            if ps.get("wpinit") and not ps.get("put"):
                X.badfn(st, fn, "creating succeeds without metadata for concurrency control")
            if ADD is not None and ps.get("ok commit") is True and not ps.get("log"):
                X.badfn(st, fn, "creating succeeds without the log saying that the storage was added")
        elif c is not None and ps.get("name") and not ps.get("dup"):
            X.badfn(st, fn, "creating is refused but the name is taken")
    K.run("C18.create", create.__doc__, K.fns("create_storage", 3), minimum=6, stop=TX, call={SK + "upsert": up, SK + "commit": cm}, branch=br, atomic=at, anywrite=wr,
          anycall=anyc, exit=ex, merge_block=200, merge_exits=100)


def delete(K):
    """deleting a storage that exists removes its records, its metadata, its index, its name and its row, all with the names and the collector locked, and
    anything else is refused as invalid without effect"""
    OK, INV = K.S("OK"), K.S("WARN_INVALID_HANDLE")
    REM = K.eng.enum("shirakami::log_operation", "REMOVE_STORAGE") if K.fns("lpwal::handler::push_log", need=False) else None

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = results(X, st, e)
        z = t != (o == "==" and b is not None and X.const(st, b) == 0)
        if has(a, "finalizing"):
            ps["fin"] = z
            if z:
                ps["was"] = 1
        elif has(a, "is_shutdowning_"):
            ps["down"] = z
        elif o == "==" and (names(a) or names(b)) and (is_param(a, 0) or is_param(b, 0)):
            ps["hit" if t else "miss"] = 1
        elif o == "==" and (is_param(a, 0) or is_param(b, 0)):
            x = b if is_param(a, 0) else a
            if has(x, "page_set_meta_storage"):
                ps["psm"] = t
            elif t and X.const(st, x) is not None:
                ps["own"] = 1

    def dl(X, st, e):
        X.ob()
        st.ps["del"] = 1
        if st.ps.get("ok find_storage") is not True:
            X.bad(st, e, "data of a storage is deleted that may not exist")
        if not X.eng.held(st, "mtx_cleaner_"):
            X.bad(st, e, "data of a storage is deleted while garbage collection may look at it")

    def anyc(X, st, e):
        ps = st.ps
        n = short(e.name)
        if n == "emplace_back" and e.args and X.arg(st, e, 0).kind == "lam":
            ps["thr"] = 1
        elif e.name == "std::thread::join":
            ps.pop("thr", None)
            ps["joined"] = ps["del"] = 1
        elif e.name == "yakushima::scan":
            ps["scan"] = 1
            for i in (2, 4):
                if X.const(st, X.arg(st, e, i)) not in (2, None):
                    X.bad(st, e, "only a part of the records is deleted")
        elif e.name == "yakushima::remove":
            X.ob()
            ps["meta"] = 1
            v = seen_view(X, st, X.arg(st, e, 2))
            if v is not None and v.kind != "u" and not is_param(v, 0):
                X.bad(st, e, "the metadata of another storage is removed")
        elif e.name == "yakushima::delete_storage":
            X.ob()
            ps["idx"] = 1
            if ps.get("ok find_storage") is not True or ps.get("psm") is not False and not ps.get("was"):
                X.bad(st, e, "a storage is deleted that does not exist or holds the metadata of all others")
            if not X.eng.held(st, LOCK, "X"):
                X.bad(st, e, "a storage is deleted without the table of names locked")
            if not X.eng.held(st, "mtx_cleaner_"):
                X.bad(st, e, "a storage is deleted while garbage collection may look at it")
            if not ps.get("scan"):
                X.bad(st, e, "a storage is deleted but not its records")
            if ps.get("thr"):
                X.bad(st, e, "a storage is deleted while its records are still being deleted")
            if not ps.get("meta") and ps.get("fin") is False and not ps.get("own"):
                X.bad(st, e, "a storage is deleted but not its metadata for concurrency control")
            if not ps.get("del"):
                X.bad(st, e, "a storage is deleted but not its records")
        elif e.recv and names(e.recv[1]) and n in ("erase", "clear"):
            X.ob()
            ps["name"] = 1
            if not X.eng.held(st, LOCK, "X"):
                X.bad(st, e, "a name is removed without the table of names locked")
            if not ps.get("hit") or n == "clear":
                X.bad(st, e, "the name of another storage is removed")
            if not ps.get("idx"):
                X.bad(st, e, "a name is removed although the storage is still there")
        elif n == "log_record" and e.name.startswith(SK) and len(e.args) >= 5:
            if X.const(st, X.arg(st, e, 0)) == REM:
                ps["log"] = 1
                if not is_param(X.arg(st, e, 2), 0):
                    X.bad(st, e, "the removal of another storage is logged")

    def dr(X, st, e):
        X.ob()
        st.ps["row"] = 1
        if X.const(st, X.arg(st, e, 1)) not in (META, None):
            X.bad(st, e, "the row of a storage is removed elsewhere than where it was recorded")
        k = X.arg(st, e, 2)
        if k.kind != "u" and not names(k):
            X.bad(st, e, "the row of another storage is removed")
        if not X.eng.held(st, LOCK, "X"):
            X.bad(st, e, "the row of a storage is removed without the table of names locked")

    def cm(X, st, e):
        st.ps["cm"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        if ps.get("ok find_storage") is False and c not in (INV, None):
            X.badfn(st, fn, "deleting a storage that does not exist is not refused as invalid")
        if c == OK:
            if not ps.get("idx") or ps.get("ok delete_storage") is not True:
                X.badfn(st, fn, "deleting succeeds but the storage is still there")
            if ps.get("psm") is not True:
                if not ps.get("name"):
                    X.badfn(st, fn, "deleting succeeds but the name still leads to the storage")
                if ps.get("down") is not True:
                    if not ps.get("row") or ps.get("ok delete_record") is True and not ps.get("cm"):
                        X.badfn(st, fn, "deleting succeeds but the storage stays recorded")
                    if REM is not None and ps.get("ok commit") is True and not ps.get("log"):
                        X.badfn(st, fn, "deleting succeeds without the log saying that the storage was removed")
    K.run("C18.delete", delete.__doc__, "delete_storage", minimum=6, stop=TX, call={SK + "delete_record": dr, SK + "commit": cm}, branch=br, anycall=anyc, exit=ex,
          delete=dl, nonempty=True, once=True, merge_block=300, merge_exits=100)


def lookup(K):
    """a name gives the storage it was created for, as long as it is in the table, and not found otherwise"""
    OK, NF = K.S("OK"), K.S("WARN_NOT_FOUND")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and a.kind == "it" and b.kind == "it" and names(a):
            st.ps["found"] = not t

    def wr(X, st, e):
        if e.loc.kind == "d" and is_param(e.loc.args[0], 1):
            X.ob()
            st.ps["out"] = 1
            if not X.eng.held(st, LOCK):
                X.bad(st, e, "a name is looked up without the table of names locked")
            if e.val.kind != "u" and names(e.val):
                g = [x.args[1] for x in subterms(e.val) if x.kind == "it"]
                if not pretty(e.val).endswith("#1") or not any(isinstance(y, tuple) and y[0] == "find" and is_param(y[1], 0) for y in g):
                    X.bad(st, e, "a name gives another storage than its own")
            elif e.val.kind != "u":
                X.bad(st, e, "a name gives something that is not in the table")

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if st.ps.get("found") is False and c not in (NF, None):
            X.badfn(st, fn, "a name that is not in the table is not answered as not found")
        if c == OK and not (st.ps.get("found") and st.ps.get("out")):
            X.badfn(st, fn, "looking up a name succeeds without its storage")
    K.run("C18.lookup", lookup.__doc__, "get_storage", minimum=3, stop=TX, branch=br, anywrite=wr, exit=ex)


def options(K):
    """options are changed and read in the row of the storage's own name, found with the table of names locked, and success is reported only once the
    transaction committed"""
    OK, NF = K.S("OK"), K.S("WARN_NOT_FOUND")
    for fn, op in (("storage_set_options", "upsert"), ("storage_get_options", "search_key")):
        def br(X, st, e):
            o, a, b, t = results(X, st, e)
            if o == "==" and (names(a) or names(b)) and (is_param(a, 0) or is_param(b, 0)):
                st.ps["hit" if t else "miss"] = 1

        def anyc(X, st, e):
            appended(X, st, e)

        def acc(X, st, e):
            X.ob()
            st.ps["acc"] = 1
            if not st.ps.get("hit"):
                X.bad(st, e, "%s: goes on for a storage that may not exist" % X.root)
            if not X.eng.held(st, LOCK):
                X.bad(st, e, "%s: uses a name without the table of names locked" % X.root)
            if X.const(st, X.arg(st, e, 1)) not in (META, None):
                X.bad(st, e, "%s: looks elsewhere than where storages are recorded" % X.root)
            k = X.arg(st, e, 2)
            if k.kind != "u" and not names(k):
                X.bad(st, e, "%s: uses the row of another storage" % X.root)
            if X.root == "storage_set_options" and row_bad(st):
                X.bad(st, e, "the recorded row is not identifier, option identifier and payload")

        def cm(X, st, e):
            st.ps["cm"] = 1

        def ex(X, st, v, f):
            X.ob()
            c = X.const(st, v)
            if c == OK and not (st.ps.get("acc") and st.ps.get("cm") and st.ps.get("ok commit") is not False and st.ps.get("ok " + X.op) is not False):
                X.badfn(st, f, "%s: succeeds without a committed transaction" % X.root)
            if st.ps.get("miss") and not st.ps.get("hit") and c not in (NF, None):
                X.badfn(st, f, "%s: a storage that does not exist is not answered as not found" % X.root)
        K.run("C18." + fn, options.__doc__, fn, minimum=3, stop=TX, branch=br, anycall=anyc, call={SK + op: acc, SK + "commit": cm}, exit=ex, root=fn, op=op,
              nonempty=True, once=True)
