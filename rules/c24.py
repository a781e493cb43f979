"""C24: locks are acquired in an order that cannot deadlock."""
from rulekit import *
import lockset

NOTE = ("lock-order graph over every acquisition and call of the library, with what each function may acquire; record locks "
        "of a short transaction's commit in address order; nothing that waits for records is taken with records locked")
REC = SK + "Record::tidw_"
# internal transactions: the transaction interface called by the engine itself runs on a session of its own
API = frozenset(q("commit abort tx_begin upsert insert update delete_record search_key enter leave exist_key open_scan"))
# orders that go both ways in the text but cannot meet (reviewed)
REVIEWED = {
    # the same session's own locks, shared both times
    ("local_write_set::mtx_", "local_write_set::mtx_"),
    # the write set belongs to the committing session; nothing else takes it while the commit runs
    ("local_write_set::mtx_", "session::mtx_result_info_"), ("session::mtx_result_info_", "local_write_set::mtx_"),
    ("local_write_set::mtx_", "storage::mtx_key_handle_map_"), ("lpwal::handler::mtx_logs_", "local_write_set::mtx_"),
    # the session logging a storage definition is an internal one
    ("storage::mtx_key_handle_map_", "lpwal::handler::mtx_logs_"),
    # own set exclusively, another transaction's shared, under the list of running transactions
    ("session::mtx_overtaken_ltx_set_", "session::mtx_overtaken_ltx_set_"),
    # the set is changed by its own session, which is not committing then; all others only read both
    ("wp::wp_meta::mtx_wp_result_set_", "session::mtx_overtaken_ltx_set_"),
    # in address order (C24.records)
    ("Record::tidw_", "Record::tidw_"),
}


def check(K):
    for f in (order, records, commit, sorted_):
        K.part("C24." + f.__name__.rstrip("_"), f)


def cut(n):
    return n[len(SK):] if n.startswith(SK) else n


def graph(K):
    """{(held, taken): {(modes, function, file, line)}} over the whole library."""
    eng = K.eng
    r = lockset.build(eng)
    if hasattr(r, "graph"):
        return r.graph
    acq = {}
    for (l, m, root, f, line), hs in r.acq.items():
        acq.setdefault(root, set()).add((l, m))
    api = {f for f in eng.fns if norm(eng.fns[f]["n"]) in API}
    calls = [(a, b, f, l, hs) for (a, b, f, l), hs in r.calls.items() if b not in api]
    changed = True
    while changed:
        changed = False
        for a, b, _, _, _ in calls:
            n = acq.get(b, set()) - acq.get(a, set())
            if n:
                acq.setdefault(a, set()).update(n)
                changed = True
    edges = {}
    for (l, m, root, f, line), hs in r.acq.items():
        for h, same in hs:
            for x, mm in h:
                edges.setdefault((x, l), set()).add((mm + m, root, f, line, ""))
    for a, b, f, line, hs in calls:
        for h in hs:
            for x, mm in h:
                for y, m in acq.get(b, ()):
                    edges.setdefault((x, y), set()).add((mm + m, a, f, line, b))
    r.graph = edges
    r.may = acq
    return edges


def order(K):
    """no two locks are taken in both orders, and none is taken again while held"""
    eng = K.eng
    edges = graph(K)
    keep = {e: v for e, v in edges.items() if (cut(e[0]), cut(e[1])) not in REVIEWED}
    succ = {}
    for a, b in keep:
        succ.setdefault(a, set()).add(b)

    def reach(a):
        out, todo = set(), [a]
        while todo:
            for y in succ.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out
    R = {a: reach(a) for a in succ}
    n = 0
    for (a, b), sites in sorted(keep.items()):
        n += len(sites)
        if a != b and a not in R.get(b, ()):
            continue
        for modes, root, file, line, via in sorted(sites)[:3]:
            K.violation("C24.order", dict(eng.fns[root], file=file), line, "takes %s%s while holding %s, %s" % (
                cut(b), " (in %s)" % norm(eng.fns[via]["n"]) if via else "", cut(a),
                "the same lock" if a == b else "which elsewhere is taken while holding the former"))
    if len(keep) < 60:
        raise AnalysisBroken("lock-order graph has only %d edges" % len(keep))
    K.record("C24.order", order.__doc__, n, 200)


def records(K):
    """a record is locked while holding another only in a short transaction's commit"""
    eng = K.eng
    top = K.fns("short_tx::commit")
    # functions only the commit of a short transaction runs
    inside = set(top)
    changed = True
    while changed:
        changed = False
        for fid in eng.fns:
            if fid in inside:
                continue
            cs = {c for c, _ in eng.callers(fid)}
            if cs and cs <= inside:
                inside.add(fid)
                changed = True
    n = 0
    r = lockset.build(eng)
    graph(K)
    for (l, m, root, f, line), hs in r.acq.items():
        if l != REC:
            continue
        n += 1
        if root not in inside and any(REC in dict(h) for h, _ in hs):
            K.violation("C24.records", dict(eng.fns[root], file=f), line, "locks a record while holding another record's lock")
    for (a, b, f, line), hs in r.calls.items():
        if a in inside or (REC, "x") not in r.may.get(b, ()) or norm(eng.fns[b]["n"]) in API:
            continue
        n += 1
        if any(REC in dict(h) for h in hs):
            K.violation("C24.records", dict(eng.fns[a], file=f), line,
                        "calls %s, which locks records, while holding a record's lock" % norm(eng.fns[b]["n"]))
    K.record("C24.records", records.__doc__, n, 5)


LOCK = frozenset(q("tid_word::lock Record::lock"))
UNLOCK = frozenset(q("tid_word::unlock Record::unlock Record::set_tid"))
SORT = frozenset(("std::sort", "std::stable_sort"))
WS = ("cont_for_occ_", "cont_for_bt_")


def commit(K):
    """the commit locks records in address order and waits for nothing else that waits for records"""
    edges = graph(K)
    r = lockset.build(K.eng)
    # locks somebody holds while waiting for a record lock, directly or through other locks
    bad = {REC}
    changed = True
    while changed:
        changed = False
        for a, b in edges:
            if b in bad and a not in bad and (cut(a), cut(b)) not in REVIEWED:
                bad.add(a)
                changed = True
    own = q("local_write_set::mtx_ session::mtx_result_info_ session::mtx_state_da_term_ session::mtx_termination_ "
            "lpwal::handler::mtx_logs_") | {REC}
    bad -= own

    def sort(X, st, e):
        a, b = X.arg(st, e, 0), X.arg(st, e, 1)
        if all(v is not None and v.kind == "it" and loc_is(v.args[0], "cont_for_occ_") for v in (a, b)) and (
                a.args[1], b.args[1]) == ("begin", "end"):
            st.ps["sorted"] = 1

    def take(X, st, e):
        X.ob()
        if st.ps.get("held") and not st.ps.get("sorted") and not st.ps.get("bt"):
            X.bad(st, e, "locks records of the write set that was not brought into address order first")
        st.ps["held"] = 1

    def drop(X, st, e):
        st.ps.pop("held", None)

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "for_batch_"):
            if (t if o != "==" else t == (X.const(st, b) == 1)):
                st.ps["bt"] = 1

    def lk(X, st, e):
        if e.kind == "acquire" and st.ps.get("held"):
            n = lockset.guardname(e.loc)
            X.ob()
            if n in bad:
                X.bad(st, e, "takes %s with records locked; its holders wait for record locks" % cut(n))
    # what neither locks nor orders records is not looked into: what it may take is known
    eng = K.eng
    deep = {f for f in eng.fns if any(norm(n or "") in LOCK | UNLOCK | SORT for _, n, _ in eng.calls(f))}
    todo = list(deep)
    for f in todo:
        for c, _ in eng.callers(f):
            if c not in deep:
                deep.add(c)
                todo.append(c)
    deep |= set(K.fns("local_write_set::get_for_batch"))
    shallow = frozenset(norm(eng.fns[f]["n"]) for f in eng.fns if f not in deep and eng.fns[f]["kind"] != "lambda") - frozenset(
        norm(eng.fns[f]["n"]) for f in deep)

    def any_(X, st, e):
        if st.ps.get("held") and e.name in shallow:
            m = bad & {l for l, _ in r.may.get(e.fid, ())}
            X.ob()
            if m:
                X.bad(st, e, "calls %s with records locked, which takes %s; its holders wait for record locks" % (
                    cut(e.name), cut(sorted(m)[0])))
    h = {n: take for n in LOCK}
    h.update({n: drop for n in UNLOCK})
    h.update({n: sort for n in SORT})
    # an abort starts with nothing locked (C02)
    h[SK + "short_tx::abort"] = drop
    K.run("C24.commit", commit.__doc__, K.fns("short_tx::commit"), 2, stop=(LOCK | UNLOCK | SORT | shallow) - q(
        "write_set_obj::get_rec_ptr local_write_set::get_ref_cont_for_occ local_write_set::get_ref_cont_for_bt "
        "session::get_write_set") | {SK + "short_tx::abort"}, call=h, anycall=any_, lock=lk, branch=branch, nonempty=WS)


def sorted_(K):
    """address order: write sets are ordered by record address"""
    fs = K.fns("write_set_obj::operator<")

    def ex(X, st, v, fn):
        X.ob()
        o, a, b, t = atom(v, True)
        ok = o == "<" and ld_is(a, "rec_ptr_") and ld_is(b, "rec_ptr_") and a != b and (not t) in (True, False)
        if v is not None and not ok:
            X.badfn(st, fn, "write set entries are not ordered by their record's address alone")
    K.run("C24.sorted", sorted_.__doc__, fs, 1, exit=ex)
