"""C23: data operations of a transaction never overlap its commit or abort."""
from rulekit import *
import lockset

NOTE = ("every path of every public operation: which of its calls reach the transaction's state, and the state lock held there; "
        "what decides whether reads take it")
MTX = "mtx_state_da_term_"
WRITES = "insert update upsert delete_record"
READS = """search_key exist_key open_scan next read_key_from_scan read_value_from_scan close_scan scannable_total_index_size"""
ENDS = "commit abort"
# touching any of these is working on the transaction
STATE = q("""session::get_tx_began local_write_set::search local_write_set::push local_write_set::erase
session::push_to_read_set_for_stx node_set::emplace_back node_set::update_node_set scan_handler::delete_scan_cache
scan_handler::delete_scan_context scan_handler::check_valid_scan_handle scan_handler::create_scan_cache
scan_handler::create_scan_context short_tx::abort long_tx::abort read_only_tx::abort short_tx::commit long_tx::commit
read_only_tx::commit session::set_tx_began session::clean_up""")
FINISH = q("short_tx::abort long_tx::abort read_only_tx::abort short_tx::commit long_tx::commit read_only_tx::commit "
           "session::clean_up session::set_commit_callback")
FLAG = SK + "session::mutex_flags_type::do_readaccess_daterm"


def check(K):
    for f in (operations, flag, enders):
        K.part("C23." + f.__name__, f)


def closure(eng, seed):
    out, todo = set(seed), list(seed)
    for f in todo:
        for c, _ in eng.callers(f):
            if c not in out:
                out.add(c)
                todo.append(c)
    return out


def operations(K):
    """an operation reaches the transaction only with its state lock held: shared for data operations, exclusively to end it"""
    eng = K.eng
    r = lockset.build(eng)
    reach = closure(eng, [f for f in eng.fns if norm(eng.fns[f]["n"]) in STATE])
    takers = closure(eng, {root for (l, m, root, _, _) in r.acq if l == SK + "session::" + MTX})
    deep = frozenset(norm(eng.fns[f]["n"]) for f in takers if eng.fns[f]["kind"] != "lambda")
    acc = frozenset(norm(f["n"]) for i, f in eng.fns.items() if eng.info(i).linear is not None and len(f["X"]) <= 14 and i not in reach)
    stop = frozenset(norm(f["n"]) for f in eng.fns.values() if f["kind"] != "lambda") - deep - acc | {FLAG}

    def run(names, mode, optional):
        def after(X, st, e):
            st.ps["flag"] = e.val

        def branch(X, st, e):
            o, a, b, t = atom(e.val, e.extra)
            f = st.ps.get("flag")
            if isinstance(f, Term) and (a == f or e.val == f):
                st.ps["off"] = not t if o != "==" else t == (X.const(st, b) == 0)

        def any_(X, st, e):
            if e.fid in eng.fns and eng.fns[e.fid]["kind"] == "lambda":
                return
            if e.name not in STATE and e.name not in FINISH and (e.fid not in reach or e.name in deep):
                return
            X.ob()
            if X.eng.held(st, MTX, mode):
                return
            if optional and st.ps.get("off"):
                return
            X.bad(st, e, "%s works on the transaction without holding its state lock%s" % (
                short(e.name), " exclusively" if mode else ""))
        roots = K.fns(names)
        K.run("C23.operations", operations.__doc__, roots, len(roots), stop=stop, anycall=any_, after={FLAG: after}, branch=branch)
    run(WRITES, None, False)
    run(READS, None, True)
    run(ENDS, "X", False)


def flag(K):
    """reads skip the state lock only in read-only transactions"""
    RO = K.eng.enum("shirakami::transaction_options::transaction_type", "READ_ONLY")

    def typ(z):
        return z.kind in ("f", "fv") and short(z.args[1]) in ("tx_type_", "transaction_type_")

    def set_(X, st, e):
        st.ps["v"] = 1
        v = X.arg(st, e, 0)
        ro = st.ps.get("ro")
        c = X.const(st, v)
        X.ob()
        if c != 1 and not ro and not mentions(v, typ):
            X.bad(st, e, "reads of a transaction that is not read-only may be told not to take the state lock")

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        for x, y in ((a, b), (b, a)):
            if o == "==" and X.const(st, y) == RO and RO is not None and mentions(x, typ):
                st.ps["ro"] = t

    def began(X, st, e):
        if X.const(st, X.arg(st, e, 0)) == 1:
            X.ob()
            if not st.ps.get("v"):
                X.bad(st, e, "begins without deciding whether reads take the state lock")
    K.run("C23.flag", flag.__doc__, K.fns("tx_begin"), 2, stop=q(
        "long_tx::tx_begin read_only_tx::tx_begin session::set_tx_began session::mutex_flags_type::set_readaccess_daterm "
        "session::process_before_start_step session::process_before_finish_step session::clear_local_set"),
        call={SK + "session::mutex_flags_type::set_readaccess_daterm": set_, SK + "session::set_tx_began": began}, branch=branch)


def enders(K):
    """commit and abort run only under the state lock, or for a commit already handed to the background"""
    eng = K.eng
    r = lockset.build(eng)
    n = 0
    names = q("short_tx::commit read_only_tx::commit long_tx::commit")
    for (a, b, f, line), hs in sorted(r.calls.items(), key=str):
        if norm(eng.fns[b]["n"]) not in names or norm(eng.fns[a]["n"]).startswith(SK + "bg_work::"):
            continue
        n += 1
        for h in hs:
            if (SK + "session::" + MTX, "x") not in h | r.entry[a]:
                K.violation("C23.enders", dict(eng.fns[a], file=f), line,
                            "%s runs without the transaction's state lock held exclusively" % norm(eng.fns[b]["n"]))
                break
    K.record("C23.enders", enders.__doc__, n, 3)
