"""C20: start-up and shutdown."""
import re
from rulekit import *

NOTE = ("every path through start-up and shutdown, with the order in which structures are made, recovery is done, workers are started, told to stop and joined, "
        "the log is flushed and waited for, and structures are released. That a worker told to stop does stop is not decided")
ASSUMPTIONS = ["init and fin are not called concurrently", "a future of the log library is ready when its work is done"]
INIT = q("TxState::init session_table::init_session_table wp::init storage::init_meta_storage read_plan::init storage::init sequence::init "
         "datastore::create_datastore datastore::recovery_from_datastore datastore::init_about_session_table logging::init session::set_envflags "
         "ongoing_tx::set_optflags garbage::set_envflags")
FIN = q("storage::fin wp::fin delete_all_records read_plan::fin")
Y = "yakushima::"
LS = "limestone::api::datastore::"


def check(K):
    T = threads(K)
    K.part("C20.start", lambda K: start(K, T))
    K.part("C20.stop", lambda K: stop(K, T))


def gname(t):
    """the global variable a place belongs to"""
    for x in subterms(t) if t is not None else ():
        if x.kind == "g":
            return short(str(x.args[0]))
    return None


def entry(X, st, e):
    """the function a new thread runs"""
    for j in range(len(e.args)):
        for x in subterms(X.arg(st, e, j)):
            if x.kind == "fn":
                return x.args[0]
    return None


class Threads:
    def __init__(self):
        self.started, self.joined, self.many, self.run, self.flags = set(), set(), set(), {}, {}


def begins(X, st, e):
    """the worker begun by a call or write: (variable, function)"""
    if short(e.name) in ("emplace_back", "push_back") and e.name.startswith("std::vector") and e.recv and gname(e.recv[1]):
        f = entry(X, st, e)
        if f:
            return gname(e.recv[1]), f
    return None


def threads(K):
    T = Threads()
    stored = set()

    def anyc(X, st, e):
        b = begins(X, st, e)
        if b:
            T.started.add(b[0])
            T.many.add(b[0])
            T.run[b[0]] = b[1]
        elif e.name == "std::thread::join" and e.recv and gname(e.recv[1]):
            T.joined.add(gname(e.recv[1]))

    def wr(X, st, e):
        if e.val is not None and e.loc.kind == "g":
            for x in subterms(e.val):
                if x.kind == "fn":
                    T.started.add(gname(e.loc))
                    T.run[gname(e.loc)] = x.args[0]

    def at(X, st, e):
        if e.kind == "astore" and e.loc.kind == "g" and X.const(st, e.val) in (0, 1):
            stored.add(gname(e.loc))
    for name, stp, n in (("init", INIT, 2), ("fin", FIN, 1)):
        for f in K.fns(name, n):
            K.eng.run(Flow(K, "C20", stop=stp, anycall=anyc, anywrite=wr, atomic=at, nonempty=True), f)
    for v in sorted(T.started | T.joined):
        f = T.run.get(v)
        T.flags[v] = set()
        if f not in K.eng.fns:
            continue
        fns = K.eng.fns
        deep = frozenset(n for g, n, _ in K.eng.calls(f) if g in fns and any(h in fns for h, _, _ in K.eng.calls(g)))

        def br(X, st, e, v=v):
            o, a, b, t = atom(e.val, e.extra)
            m = re.match(r"aload\((\w+)\)$", pretty(a))
            if m and m.group(1) in stored and (b is None or X.const(st, b) in (0, 1)):
                T.flags[v].add(m.group(1))
        K.eng.run(Flow(K, "C20", stop=deep, branch=br, nonempty=True, once=True), f)
    # workers that may write to the log
    T.logs = set()
    for v, f in T.run.items():
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            for h, n, _ in K.eng.calls(g):
                if n == SK + "lpwal::handler::push_log":
                    T.logs.add(v)
                if h in K.eng.fns:
                    todo.append(h)
    return T


def guard(X, st, e):
    o, a, b, t = atom(e.val, e.extra)
    if pretty(a) == "aload(initialized_)" and (b is None or X.const(st, b) in (0, 1)):
        z = t
        if o == "==" and b is not None and X.const(st, b) == 0:
            z = not t
        st.ps["init"] = z
    return o, a, b, t


def flag(X, st, e):
    if e.kind == "astore" and e.loc.kind == "g" and X.const(st, e.val) in (0, 1):
        st.ps["f " + gname(e.loc)] = X.const(st, e.val)


def start(K, T):
    """the database becomes usable only after recovery, with every structure made and every worker running; starting it twice is refused without effect"""
    OK, AL = K.S("OK"), K.S("WARN_ALREADY_INIT")
    LOG = bool(K.fns("lpwal::handler::push_log", need=False))
    NEED = {"yakushima::init": (), SK + "wp::init": (Y + "init",), SK + "storage::init_meta_storage": (Y + "init", SK + "wp::init"),
            SK + "datastore::recovery_from_datastore": (Y + "init", SK + "wp::init", SK + "storage::init_meta_storage", SK + "storage::init", SK + "sequence::init",
                                                        SK + "session_table::init_session_table"),
            SK + "ready": (LS + "add_persistent_callback",), LS + "ready": (LS + "add_persistent_callback",), LS + "switch_epoch": (LS + "ready",)}
    ALL = [SK + "TxState::init", SK + "session_table::init_session_table", Y + "init", SK + "wp::init", SK + "storage::init_meta_storage", SK + "storage::init",
           SK + "sequence::init", SK + "read_plan::init"]
    if LOG:
        ALL += [LS + "ready", LS + "add_persistent_callback", SK + "datastore::init_about_session_table"]

    def br(X, st, e):
        o, a, b, t = guard(X, st, e)
        if o == "==" and is_result(a, SK + "wp::init") and X.const(st, b) == 0:
            st.ps["wpok"] = t

    def effect(X, st, e):
        if st.ps.get("init") is not False and not st.ps.get("eff"):
            st.ps["eff"] = 1
            X.bad(st, e, "starting has an effect on a database that may be running")

    def begun(X, st, e, v):
        X.ob()
        st.ps["t " + v] = 1
        effect(X, st, e)
        if not st.ps.get("ge"):
            X.bad(st, e, "a worker runs before the first epoch is set")
        for n in (SK + "session_table::init_session_table",):
            if not st.ps.get(n):
                X.bad(st, e, "a worker runs before what it works on is made")
        fl = T.flags.get(v, ())
        if fl and not any(st.ps.get("f " + f) == 0 for f in fl):
            X.bad(st, e, "a worker is started while still told to stop")

    def anyc(X, st, e):
        ps = st.ps
        b = begins(X, st, e)
        if b:
            begun(X, st, e, b[0])
        if e.name == SK + "ready":
            ps[LS + "ready"] = 1
        if e.name in INIT or e.name in (Y + "init", LS + "ready", LS + "add_persistent_callback", LS + "switch_epoch", LS + "recover"):
            X.ob()
            effect(X, st, e)
            for n in NEED.get(e.name, ()):
                if not ps.get(n):
                    X.bad(st, e, "%s comes before %s" % (short2(e.name), short2(n)))
            ps[e.name] = 1

    def wr(X, st, e):
        if e.loc.kind == "g" and e.val is not None:
            if any(x.kind == "fn" for x in subterms(e.val)):
                begun(X, st, e, gname(e.loc))
            if gname(e.loc) in ("datastore_", "own_datastore_"):
                X.ob()
                effect(X, st, e)

    def at(X, st, e):
        ps = st.ps
        flag(X, st, e)
        if e.kind != "astore" or e.loc.kind != "g":
            return
        n = gname(e.loc)
        if n == "global_epoch":
            ps["ge"] = 1
            effect(X, st, e)
        if n == "initialized_" and X.const(st, e.val) != 0:
            X.ob()
            ps["on"] = 1
            for a in ALL:
                if not ps.get(a):
                    X.bad(st, e, "the database becomes usable before %s" % short2(a))
            for v in sorted(T.started | T.joined):
                if not ps.get("t " + v) and not (v in T.started and v in T.many):
                    X.bad(st, e, "the database becomes usable before its worker %s runs" % v)
            if ps.get("wpok") is not True:
                X.bad(st, e, "the database becomes usable although making the metadata failed")
        elif ps.get("on") and n == "global_epoch":
            X.bad(st, e, "the first epoch is set after the database became usable")
    def late(X, st, e):
        if st.ps.get("on") and (e.name in ALL or e.name == SK + "datastore::recovery_from_datastore"):
            X.bad(st, e, "%s comes after the database became usable" % short2(e.name))

    def anyc2(X, st, e):
        anyc(X, st, e)
        late(X, st, e)

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        if ps.get("init") is True and c not in (AL, None):
            X.badfn(st, fn, "starting a running database is not refused")
        if c == OK and not ps.get("on"):
            X.badfn(st, fn, "starting succeeds and the database is not usable")
        if c not in (OK, None):
            if ps.get("on"):
                X.badfn(st, fn, "starting fails and the database counts as running")
            if any(k.startswith("t ") for k in ps):
                X.badfn(st, fn, "starting fails and leaves a worker running")
    K.run("C20.start", start.__doc__, K.fns("init", 2), minimum=12, stop=INIT, nonempty=True, branch=br, anycall=anyc2, anywrite=wr, atomic=at, exit=ex,
          merge_block=300, merge_exits=200)


def short2(n):
    return "::".join(n.split("::")[-2:])


def stop(K, T):
    """shutdown joins every worker, flushes and waits for the log unless forced not to, and only then releases what workers use; without start it does nothing"""
    LOG = bool(K.fns("lpwal::handler::push_log", need=False))
    REL = {Y + "fin", SK + "wp::fin", SK + "storage::fin", SK + "delete_all_records", SK + "read_plan::fin", LS + "shutdown"}
    BEFORE = {Y + "fin": (SK + "wp::fin", SK + "storage::fin"), SK + "wp::fin": (), SK + "storage::fin": ()}
    AFTER = {SK + "delete_all_records": (SK + "wp::fin", SK + "storage::fin", Y + "fin")}

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = guard(X, st, e)
        if is_param(a, 0) and (b is None or X.const(st, b) == 0):
            ps["force"] = (not t) if o == "==" and b is not None else t
        if o in ("<", "<=") and b is not None:
            pa, pb = pretty(a), pretty(b)
            D, G = "datastore_durable_epoch", "global_epoch"
            if D in pa and G in pb and not t or D in pb and G in pa and t and o == "<=" or D in pb and G in pa and o == "<" and t:
                if ps.get("ce") and (o == "<" or D in pb):
                    ps["dur"] = 1

    def effect(X, st, e):
        if st.ps.get("init") is not True and not st.ps.get("eff"):
            st.ps["eff"] = 1
            X.bad(st, e, "shutdown has an effect on a database that may not be running")

    def release(X, st, e, what):
        ps = st.ps
        X.ob()
        effect(X, st, e)
        for v in sorted(T.started | T.joined):
            if not ps.get("j " + v):
                X.bad(st, e, "%s while the worker %s may run" % (what, v))
        if LOG and ps.get("force") is not True:
            if not ps.get("flush"):
                X.bad(st, e, "%s before the remaining log is flushed" % what)
            elif not ps.get("dur"):
                X.bad(st, e, "%s before the remaining log is durable" % what)
        if ps.get("off"):
            X.bad(st, e, "%s after the database counts as stopped" % what)

    def anyc(X, st, e):
        ps = st.ps
        if e.name == "std::thread::join" and e.recv and gname(e.recv[1]):
            v = gname(e.recv[1])
            X.ob()
            effect(X, st, e)
            ps["j " + v] = 1
            fl = T.flags.get(v, ())
            if fl and not any(ps.get("f " + f) == 1 for f in fl):
                X.bad(st, e, "the worker %s is waited for without being told to stop" % v)
        elif e.name == "std::thread::detach":
            X.ob()
            X.bad(st, e, "a worker is left running")
        elif e.name == SK + "lpwal::flush_remaining_log":
            X.ob()
            ps["flush"] = 1
            ps.pop("ce", None)
            for v in sorted(T.logs):
                if not ps.get("j " + v):
                    X.bad(st, e, "the remaining log is flushed while the worker %s may write to it" % v)
        elif e.name in REL:
            release(X, st, e, short2(e.name))
            for n in BEFORE.get(e.name, ()):
                if not ps.get(n):
                    X.bad(st, e, "%s comes before %s" % (short2(e.name), short2(n)))
            for n in AFTER.get(e.name, ()):
                if ps.get(n):
                    X.bad(st, e, "%s comes after %s" % (short2(e.name), short2(n)))
            ps[e.name] = 1
        elif short(e.name) in ("wait", "get") and e.recv and ps.get(LS + "shutdown"):
            ps["waited"] = 1

    def wr(X, st, e):
        if e.loc.kind == "g" and gname(e.loc) == "datastore_":
            release(X, st, e, "the log is released")
            if not st.ps.get("waited"):
                X.bad(st, e, "the log is released before it ended")

    def at(X, st, e):
        ps = st.ps
        flag(X, st, e)
        if e.loc.kind != "g":
            return
        n = gname(e.loc)
        if e.kind == "aload" and n == "global_epoch" and ps.get("flush"):
            ps["ce"] = 1
        elif e.kind == "astore" and n == "initialized_":
            X.ob()
            if X.const(st, e.val) == 0:
                for r in sorted(REL - {SK + "delete_all_records"} - (set() if LOG else {LS + "shutdown"})):
                    if not ps.get(r):
                        X.bad(st, e, "the database counts as stopped before %s" % short2(r))
                for v in sorted(T.started | T.joined):
                    if not ps.get("j " + v):
                        X.bad(st, e, "the database counts as stopped while the worker %s may run" % v)
                ps["off"] = 1

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if ps.get("init") is True and not ps.get("off"):
            X.badfn(st, fn, "shutdown ends and the database counts as running")
        elif ps.get("off") and ps.get("f is_shutdowning_") == 1:
            X.badfn(st, fn, "shutdown ends and counts as going on")
    K.run("C20.stop", stop.__doc__, K.fns("fin", 1), minimum=12, stop=FIN | q("lpwal::flush_remaining_log"), nonempty=True, branch=br, anycall=anyc, anywrite=wr,
          atomic=at, exit=ex, merge_block=300, merge_exits=200)
