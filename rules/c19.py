"""C19: sequences advance by committed updates only, to the largest version, and identifiers are never reused."""
from rulekit import *
from publish import SSTOP, LSTOP

NOTE = ("every place that changes the table of sequences, under which facts and lock and with what value; every commit with its one sequence update; the "
        "local buffer; creating and deleting with the transaction that makes them durable; which old entries may be dropped. The bytes of keys and values "
        "are followed as far as they are appended piece by piece")
ASSUMPTIONS = ["the transactions that create and delete run are committed as C01 and C30 say"]
LOCK = "sequence_map_smtx_"
SEQST = 2 ** 64 - 4
GC = SK + "sequence::gc_sequence_map"
CHANGE = ("emplace", "insert", "insert_or_assign", "try_emplace", "operator[]", "erase", "clear")


def check(K):
    for f in (local, commit, once, read, create, delete, drop):
        K.part("C19." + f.__name__, f)


def has(t, word):
    return t is not None and any(x.kind == "f" and short(x.args[1]) == word or x.kind == "g" and short(str(x.args[0])) == word for x in subterms(t))


def inmap(t):
    return has(t, "sequence_map_")


def parts(X, t):
    """version and value of a pair"""
    if t.kind == "tup" and len(t.args) == 2:
        return t.args
    return tuple(X.eng.fieldval(t, f) for f in ("#0", "#1"))


def of_last(t):
    """is this the last entry of a sequence, as far as it can be told?"""
    tags = [x.args[1] for x in subterms(t) if x.kind == "it" and x.args[0].kind == "f" and inmap(x.args[0])]
    return not tags or any(g in ("rbegin", "back") or isinstance(g, tuple) and g[0] in ("--", "-", "prev") for g in tags)


def facts(X, st, e, new=None):
    """what is known about the sequence the current path deals with"""
    ps = st.ps
    o, a, b, t = atom(e.val, e.extra)
    if o == "==" and a.kind == "it" and b.kind == "it" and inmap(a):
        tags = [x.args[1] for x in (a, b)]
        if any(isinstance(g, tuple) and g[0] == "find" for g in tags) and not inmap(a.args[0].args[0] if a.args[0].kind == "f" else None):
            ps["gone" if t else "found"] = 1
    elif o == "==" and (has(a, "non_exist_value") or has(b, "non_exist_value")) and inmap(a) | inmap(b):
        ps["dead" if t else "live"] = 1
    elif a.kind == "pc" and "empty" in pretty(a)[:6] and inmap(a):
        z = t != (o == "==" and X.const(st, b) == 0)
        ps["bare" if z else "full"] = 1
    elif o == "<" and new is not None:
        if inmap(a) and new(b) and pretty(a).endswith("#0") and not pretty(a).endswith(").#0") and of_last(a):
            ps["newer" if t else "old"] = 1
        elif inmap(a) and not new(b):
            pass
        elif inmap(b) and new(a) and t:
            ps["old"] = 1


def local(K):
    """within a transaction the update with the largest version of a sequence is kept, and only a running transaction can update"""
    OK, NB = K.S("OK"), K.S("WARN_NOT_BEGIN")

    def buf(t):
        return has(t, "sequence_set_")

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "tx_began_"):
            ps["run"] = t != (o == "==" and X.const(st, b) == 0)
        elif o == "==" and a.kind == "it" and buf(a):
            ps["none" if t else "some"] = 1
        elif o == "<" and buf(a) and is_param(b, 2):
            ps["newer" if t else "old"] = 1
        elif o == "<" and buf(b) and is_param(a, 2):
            ps["older" if t else "geq"] = 1

    def change(X, st, e, val):
        ps = st.ps
        X.ob()
        if ps.get("run") is not True:
            X.bad(st, e, "a sequence is updated without a running transaction")
        if val is not None:
            v = parts(X, val)
            if v[0] is not None and not is_param(v[0], 2) or v[1] is not None and not is_param(v[1], 3):
                X.bad(st, e, "the buffered update is not the version and value asked for")
        ps["put"] = 1

    def wr(X, st, e):
        if not buf(e.loc):
            return
        change(X, st, e, e.val if e.loc.kind != "f" or e.loc.args[1] != "#0" else None)
        if not st.ps.get("newer"):
            X.bad(st, e, "a buffered update is replaced by one that is not newer")

    def anyc(X, st, e):
        n = short(e.name)
        if e.recv and buf(e.recv[1]) and n in CHANGE and e.name.startswith("std::"):
            if n in ("erase", "clear"):
                return
            change(X, st, e, X.arg(st, e, 1) if n == "emplace" and len(e.args) > 1 else None)
            if n in ("insert_or_assign", "operator[]") and not st.ps.get("none") and not st.ps.get("newer"):
                X.bad(st, e, "a buffered update is replaced by one that is not newer")

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        if not ps.get("put") and ps.get("run") and (ps.get("none") or ps.get("newer")):
            X.badfn(st, fn, "an update that is the newest of its transaction is not kept")
        if X.const(st, v) == OK and not ps.get("put"):
            X.badfn(st, fn, "an update is acknowledged without being kept")
        if ps.get("run") is False and X.const(st, v) != NB:
            X.badfn(st, fn, "an update outside a transaction is not refused as not begun")
    K.run("C19.local", local.__doc__, "sequence::update_sequence", minimum=4, branch=br, anywrite=wr, anycall=anyc, exit=ex)


def commit(K):
    """committing advances a sequence exactly when it exists and the version is larger than its last one, to the version and value of the transaction, and
    logs exactly that, with the table locked throughout"""
    pwal = bool(K.fns("lpwal::handler::push_log", need=False))

    def mine(t):
        return has(t, "sequence_set_") and not inmap(t)

    def br(X, st, e):
        facts(X, st, e, mine)
        o, a, b, t = atom(e.val, e.extra)
        if a.kind == "pc" and "empty" in pretty(a)[:6] and mine(a) and not inmap(a):
            if t != (o == "==" and X.const(st, b) == 0):
                st.ps["nothing"] = 1

    def allowed(st):
        ps = st.ps
        return ps.get("found") and (ps.get("bare") or ps.get("live") and ps.get("newer"))

    def pair(X, st, e, v, what):
        ver, val = v
        if ver is not None and not (mine(ver) and pretty(ver).endswith("#0")):
            X.bad(st, e, "%s does not carry the version of the update" % what)
        if val is not None and not (mine(val) and pretty(val).endswith("#1")):
            X.bad(st, e, "%s does not carry the value of the update" % what)

    def gate(X, st, e, what):
        X.ob()
        if not X.eng.held(st, LOCK, "X"):
            X.bad(st, e, "%s without the table of sequences locked" % what)
        if not allowed(st):
            X.bad(st, e, "%s although the sequence may be missing or already have that version or a later one" % what)

    def change(X, st, e, val, ep):
        gate(X, st, e, "a sequence advances")
        st.ps["chg"] = st.ps.get("chg", 0) + 1
        if val is not None and val.kind != "u":
            pair(X, st, e, parts(X, val), "the new entry")
        if ep is not None and "epoch_" not in pretty(ep):
            X.bad(st, e, "the new entry does not carry the epoch of the commit")

    def wr(X, st, e):
        if inmap(e.loc) and e.loc.kind in ("e", "f"):
            change(X, st, e, e.val if e.loc.args[-1] == "#1" and "#1" == e.loc.args[1] else None, None)

    def anyc(X, st, e):
        n = short(e.name)
        if e.recv and e.name.startswith("std::"):
            if inmap(e.recv[1]):
                if n in ("emplace", "insert_or_assign", "try_emplace"):
                    change(X, st, e, X.arg(st, e, 1), X.arg(st, e, 0))
                elif n in ("erase", "clear"):
                    X.ob()
                    if not (st.ps.get("newer") and st.ps.get("later") is not False):
                        X.bad(st, e, "an entry is dropped that is not replaced by a newer one")
            elif n == "append" and e.args and pwal:
                a = e.args[0]
                a = X.V(st, a)
                if a is not None and a.kind in ("addr", "&") or a is not None and pretty(a).startswith("&"):
                    v = X.eng.load(st, a.args[0])
                    p = pretty(v) if v is not None else ""
                    if v is not None and mine(v):
                        c = "v" if p.endswith("#1.#0") else "w" if p.endswith("#1.#1") else "i" if p.endswith("#0") else "?"
                        k = "s " + pretty(e.recv[1])
                        st.ps[k] = st.ps.get(k, "") + c
        if e.name == SK + "lpwal::log_record::log_record" and len(e.args) >= 5:
            gate(X, st, e, "an update is logged")
            st.ps["log"] = 1
            if X.const(st, X.arg(st, e, 2)) not in (SEQST, None):
                X.bad(st, e, "an update is not logged with the sequences")
            wv = X.arg(st, e, 1)
            m = [X.eng.fieldval(wv, SK + "lpwal::write_version_type::" + f) for f in ("major_write_version_", "minor_write_version_")]
            if m[0] is not None and "ctid" not in pretty(m[0]) and not is_param(m[0], 0) or m[1] is not None and not (mine(m[1]) and pretty(m[1]).endswith("#0")):
                X.bad(st, e, "an update is not logged under the epoch of the commit and its own version")
            seen = [v for k, v in st.ps.items() if k.startswith("s ")]
            if seen and ("i" not in seen or "vw" not in seen):
                X.bad(st, e, "the logged bytes are not the identifier, and the version followed by the value")

    def push(X, st, e):
        st.ps["push"] = 1
        if not X.eng.held(st, "mtx_logs_"):
            X.bad(st, e, "the log buffer is extended without its lock")

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        if ps.get("nothing"):
            return
        if allowed(st) and not ps.get("chg") and not ps.get("gone"):
            X.badfn(st, fn, "a newer version of an existing sequence is committed but not taken over")
        if ps.get("chg") and pwal and not (ps.get("log") and ps.get("push")):
            X.badfn(st, fn, "a sequence advances without its update being logged")
    c = {SK + "lpwal::handler::push_log": push}
    K.run("C19.commit", commit.__doc__, "session::commit_sequence", minimum=4, stop={GC, SK + "lpwal::handler::push_log"}, branch=br, anywrite=wr, anycall=anyc,
          call=c, exit=ex, once=True, nonempty=True, merge_block=200, merge_exits=60)


def once(K):
    """a transaction applies its sequence updates exactly when it commits: once, after everything that could still abort it, under its commit timestamp"""
    CS = SK + "session::commit_sequence"
    for fn, stop, ab in (("short_tx::commit", SSTOP, "short_tx::abort"), ("long_tx::commit", LSTOP, "long_tx::abort")):
        AB = SK + ab

        def cs(X, st, e):
            X.ob()
            if st.ps.get("cs"):
                X.bad(st, e, "the sequence updates of a transaction are applied twice")
            if st.ps.get("ab"):
                X.bad(st, e, "an aborted transaction applies its sequence updates")
            st.ps["cs"] = 1

        def abt(X, st, e):
            st.ps["ab"] = 1
            if st.ps.get("cs"):
                X.bad(st, e, "a transaction aborts after applying its sequence updates")

        def ex(X, st, v, f):
            X.ob()
            c = X.const(st, v)
            if c == K.S("OK") and not st.ps.get("cs") and not st.ps.get("ab"):
                X.badfn(st, f, "a transaction commits without applying its sequence updates")
            elif c is not None and c != K.S("OK") and st.ps.get("cs"):
                X.badfn(st, f, "sequence updates are applied but the commit is not reported as done")

        K.run("C19.once", once.__doc__, K.fns(fn, 1), minimum=2, stop=stop | {CS, AB}, call={CS: cs, AB: abt}, exit=ex, once=True)
    who = set()
    for f in K.fns(CS[len(SK):]):
        for g in K.eng.callers(f):
            who.add(g if isinstance(g, str) else g[0])
    K.record("C19.callers", "sequence updates are applied from somewhere", len(who), minimum=1)


def read(K):
    """reading gives version and value of the last entry of an existing sequence, with the table locked, and not found for unknown and deleted ones"""
    OK, NF = K.S("OK"), K.S("WARN_NOT_FOUND")

    def wr(X, st, e):
        for i, f in ((1, "#0"), (2, "#1")):
            if e.loc.kind == "d" and is_param(e.loc.args[0], i):
                X.ob()
                p = pretty(e.val)
                if not X.eng.held(st, LOCK):
                    X.bad(st, e, "a sequence is read without the table locked")
                if e.val.kind != "u" and inmap(e.val):
                    if not p.endswith("#1." + f):
                        X.bad(st, e, "reading gives the wrong part of an entry")
                    elif not of_last(e.val):
                        X.bad(st, e, "reading gives an entry that is not the last one")
                st.ps["w%d" % i] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        if c == OK:
            if not ps.get("w1") or not ps.get("w2"):
                X.badfn(st, fn, "reading succeeds without giving both version and value")
            if not ps.get("found") or not ps.get("live"):
                X.badfn(st, fn, "reading succeeds for a sequence that may be unknown or deleted")
        if (ps.get("gone") or ps.get("dead")) and c not in (NF, None):
            X.badfn(st, fn, "reading an unknown or deleted sequence is not answered as not found")
        if c == NF and ps.get("live"):
            X.badfn(st, fn, "reading an existing sequence is answered as not found")
    K.run("C19.read", read.__doc__, "sequence::read_sequence", minimum=4, branch=lambda X, st, e: facts(X, st, e), anywrite=wr, exit=ex)


TX = q("enter leave tx_begin upsert commit abort")


def txcalls(K, ps_of=None):
    OK = K.S("OK")

    def up(X, st, e):
        X.ob()
        if X.const(st, X.arg(st, e, 1)) not in (SEQST, None):
            X.bad(st, e, "the change is not written to the storage of sequences")
        st.ps["up"] = 1

    def cm(X, st, e):
        if not st.ps.get("up"):
            X.bad(st, e, "the transaction is committed without the change")
        st.ps["cm"] = 1

    def lv(X, st, e):
        st.ps["lv"] = 1

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        for n in ("commit", "upsert", "leave", "tx_begin"):
            if is_result(a, SK + n) and o == "==" and X.const(st, b) == OK:
                st.ps["ok " + n] = t
    return {SK + "upsert": up, SK + "commit": cm, SK + "leave": lv}, br


def create(K):
    """a new sequence gets an identifier taken off the counter in one step, its initial entry, and a committed row, with the table locked, before success is
    reported"""
    OK = K.S("OK")
    calls, br0 = txcalls(K)

    def at(X, st, e):
        if loc_is(e.loc, "id_generator_ctr_") or "id_generator_ctr_" in pretty(e.loc):
            X.ob()
            if e.kind == "astore":
                X.bad(st, e, "the counter of identifiers is not advanced in one step")
            elif e.kind == "armw":
                st.ps["rmw"] = 1
                p = pretty(e.val) if e.val is not None else ""
                if "+" not in p:
                    X.bad(st, e, "the counter of identifiers does not advance")

    def wr(X, st, e):
        if e.loc.kind == "d" and is_param(e.loc.args[0], 0):
            st.ps["id"] = 1
            if not is_result(e.val, "armw") and e.val.kind != "u" and "armw" not in pretty(e.val):
                X.bad(st, e, "the identifier of a new sequence is not the one taken off the counter")

    def anyc(X, st, e):
        n = short(e.name)
        if e.recv and e.name.startswith("std::") and n in ("emplace", "insert_or_assign", "try_emplace", "operator[]"):
            outer = "sequence_map_" in pretty(e.recv[1]) and e.recv[1].kind == "g"
            if outer:
                X.ob()
                if not X.eng.held(st, LOCK, "X"):
                    X.bad(st, e, "a sequence is added without the table locked")
                k = X.arg(st, e, 0)
                if "armw" not in pretty(k) and k.kind != "u":
                    X.bad(st, e, "a sequence is added under an identifier that is not the new one")
                st.ps["add"] = 1
            elif len(e.args) > 1 and has(X.arg(st, e, 1), "initial_value"):
                st.ps["ini"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        if X.const(st, v) != OK:
            return
        if not ps.get("rmw") or not ps.get("id"):
            X.badfn(st, fn, "a sequence is created without an identifier of its own")
        if not ps.get("add") or not ps.get("ini"):
            X.badfn(st, fn, "a sequence is created without its initial entry in the table")
        if not ps.get("cm") or ps.get("ok commit") is not True:
            X.badfn(st, fn, "a sequence is created without a committed row")
        if not ps.get("lv"):
            X.badfn(st, fn, "creating a sequence keeps its session")
    K.run("C19.create", create.__doc__, "sequence::create_sequence", minimum=4, stop=TX | {GC}, call=calls, branch=br0, atomic=at, anywrite=wr, anycall=anyc,
          exit=ex)


def delete(K):
    """deleting an unknown or deleted sequence is refused as not found without effect; otherwise the table shows it as deleted once the row saying so is
    committed, with the table locked throughout"""
    OK, NF = K.S("OK"), K.S("WARN_NOT_FOUND")
    calls, br0 = txcalls(K)

    def br(X, st, e):
        br0(X, st, e)
        if not st.ps.get("up"):
            facts(X, st, e)

    def up(X, st, e):
        calls[SK + "upsert"](X, st, e)
        if not st.ps.get("found") or not st.ps.get("live"):
            X.bad(st, e, "deleting goes on for a sequence that may be unknown or deleted")
        if not X.eng.held(st, LOCK, "X"):
            X.bad(st, e, "the row of a deleted sequence is written without the table locked")

    def change(X, st, e, val):
        X.ob()
        if not X.eng.held(st, LOCK, "X"):
            X.bad(st, e, "a sequence is deleted without the table locked")
        if st.ps.get("ok commit") is not True:
            X.bad(st, e, "the table shows a deletion that is not committed")
        if val is not None and val.kind != "u" and not has(val, "non_exist_value"):
            X.bad(st, e, "the entry for a deletion does not say deleted")
        st.ps["chg"] = 1

    def wr(X, st, e):
        if inmap(e.loc) and e.loc.kind in ("e", "f"):
            change(X, st, e, e.val)

    def anyc(X, st, e):
        if e.recv and e.name.startswith("std::") and inmap(e.recv[1]) and short(e.name) in CHANGE:
            change(X, st, e, X.arg(st, e, 1) if len(e.args) > 1 else None)

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        if c == OK and (not ps.get("chg") or not ps.get("cm")):
            X.badfn(st, fn, "deleting succeeds without the deletion being committed and shown")
        if c == OK and not ps.get("lv"):
            X.badfn(st, fn, "deleting a sequence keeps its session")
        if (ps.get("gone") or ps.get("dead")) and not ps.get("up") and c not in (NF, None):
            X.badfn(st, fn, "deleting an unknown or deleted sequence is not answered as not found")
    K.run("C19.delete", delete.__doc__, "sequence::delete_sequence", minimum=4, stop=TX | {GC}, call=dict(calls, **{SK + "upsert": up}), branch=br, anywrite=wr,
          anycall=anyc, exit=ex)


def drop(K):
    """the last entry of a sequence is never dropped, and no sequence that is not deleted is forgotten"""
    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        todo = [(o, a, b, t)]
        if e.val.kind == "op" and e.val.args[0] == "&&" and e.extra:
            todo = [atom(x, True) for x in e.val.args[1:]]
        for o, a, b, t in todo:
            if o == "==" and t and (has(a, "non_exist_value") or has(b, "non_exist_value")):
                ps["dead"] = 1

    def anyc(X, st, e):
        ps = st.ps
        n = short(e.name)
        if not (e.recv and e.name.startswith("std::") and inmap(e.recv[1]) and n in ("erase", "clear")):
            return
        X.ob()
        if e.recv[1].kind == "g":
            if not ps.get("dead"):
                X.bad(st, e, "a sequence is forgotten that is not deleted")
        else:
            if n == "clear" or len(e.args) > 1 and X.arg(st, e, 1).kind == "it" and X.arg(st, e, 1).args[1] == "end":
                X.bad(st, e, "the last entry of a sequence is dropped")
            elif len(e.args) > 1 and ps.get("adv") is False:
                X.bad(st, e, "the last entry of a sequence may be dropped")

    def adv(X, st, e):
        st.ps["adv"] = "- 1" in pretty(X.arg(st, e, 1)) or "-" in pretty(X.arg(st, e, 1))
    K.run("C19.drop", drop.__doc__, "sequence::gc_sequence_map", minimum=1, branch=br, anycall=lambda X, st, e: (adv(X, st, e) if e.name == "std::advance" else
                                                                                                              anyc(X, st, e)), exit=None, nonempty=True, once=True)
