"""C26: a transaction's own writes combine as if applied in order."""
from rulekit import *

NOTE = ("decision over every path of insert, upsert, update, delete and of the read calls: buffered operation found x call "
        "gives status and buffer change; the write set itself finds, replaces and removes entries by record")
WS = SK + "local_write_set::"
WO = SK + "write_set_obj::"
STOP = q("""get put local_write_set::search local_write_set::erase session::push_to_write_set write_set_obj::set_op
write_set_obj::set_val write_set_obj::set_lobs try_deleted_to_inserting check_before_write_ops garbage::set_dirty
short_tx::abort long_tx::abort session::update_node_set wp::find_page_set_meta read_record tid_word::lock tid_word::unlock
write_set_obj::get_value write_set_obj::get_key session::push_to_read_set_for_stx local_read_set_for_ltx::push
check_constraint_key_length session::process_before_start_step session::process_before_finish_step
local_write_set::push write_set_obj::write_set_obj""")
RSTOP = STOP | q("""long_tx::version_function_with_optimistic_check long_tx::version_function_without_optimistic_check
long_tx::version_traverse_and_read long_tx::check_read_area long_tx::wp_verify_and_forwarding
long_tx::update_local_read_range session::find_high_priority_short node_set::emplace_back wp::find_wp_meta
wp::wp_meta::get_wped wp::wp_meta::find_min_ep epoch::get_global_epoch Record::get_key version::get_value
session::insert_to_ltx_storage_read_set scan_handler::check_valid_scan_handle session::push_to_range_read_by_short_set""")


def check(K):
    K.part("C26.write", writes)
    K.part("C26.read", reads)
    K.part("C26.set", sets)


class Own:
    """Follows what one call learns about and does to the buffered write of its key."""

    def __init__(self, K):
        self.K = K
        self.ops = {K.OP(n): n for n in ("INSERT", "UPDATE", "UPSERT", "DELETE")}

    def branch(self, X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        if is_result(a, WS + "search") and (o == "t" or o == "==" and b is ZERO):
            ps["found"] = int(t if o == "t" else not t)
        if is_result(a, SK + "try_deleted_to_inserting") and o == "==" and b.kind == "c" and t:
            ps["conv"] = b.args[0]
        if self.entry(a) and o == "==" and b.kind == "c" and not ps.get("changed"):
            have = set(ps.get("op0", "INSERT|UPDATE|UPSERT|DELETE").split("|"))
            n = self.ops.get(b.args[0])
            ps["op0"] = "|".join(sorted(have & {n} if t else have - {n}))
        if is_result(a, SK + "get") and o == "==" and b.kind == "c" and b.args[0] == self.K.S("OK"):
            ps["gotrec"] = int(t)

    def keep(self, st):
        """The buffered operations this path may have found, from the facts about the entry."""
        ps = st.ps
        if not ps.get("found") or ps.get("changed"):
            return
        have = set(ps.get("op0", "INSERT|UPDATE|UPSERT|DELETE").split("|"))
        for t, c in st.eq.items():
            if self.entry(t):
                have &= {self.ops.get(c)}
        for t, cs in st.ne.items():
            if self.entry(t):
                have -= {self.ops.get(c) for c in cs}
        if len(have) < 4:
            ps["op0"] = "|".join(sorted(have))

    @staticmethod
    def entry(t):
        return ld_is(t, "op_") and mentions(t, lambda x: is_result(x, WS + "search"))

    def called(self, X, st, e):
        self.keep(st)
        k = short(e.name)
        ps = st.ps
        v = X.arg(st, e, 0)
        if k in ("set_op", "erase"):
            ps["changed"] = 1
        if k == "set_op":
            ps["set_op"] = self.ops.get(X.const(st, v), "?")
        elif k == "set_val":
            ps["val"] = 1 if is_param(v, VAL) else 0
        elif k == "set_lobs":
            ps["lobs"] = 1
        elif k == "erase":
            ps["erase"] = 1
        elif k == "search":
            ps["searched"] = 1
            ps.pop("found", None)
            ps.pop("op0", None)
        elif k == "write_set_obj":
            if len(e.args) >= 3:
                ps["built"] = tuple(X.arg(st, e, i) for i in range(len(e.args)))
        elif k == "get_value":
            ps["own_val"] = 1
        elif k in ("read_record", "version_traverse_and_read", "version_function_with_optimistic_check"):
            ps["shared"] = 1


VAL = 3  # position of the value among the parameters of the write calls


def writes(K):
    """the buffered operation decides status and change of the buffer"""
    O = Own(K)
    S = K.S
    OK, EX, NF = S("OK"), S("WARN_ALREADY_EXISTS"), S("WARN_NOT_FOUND")
    CI, CU = S("WARN_CANCEL_PREVIOUS_INSERT"), S("WARN_CANCEL_PREVIOUS_UPSERT")
    # (call, buffered) -> (status, set_op, value replaced, erased, pushed)
    WANT = {}
    for op in ("INSERT", "UPDATE", "UPSERT"):
        WANT["insert", op] = (EX, None, 0, 0, 0)
        WANT["upsert", op] = (OK, None, 1, 0, 0)
        WANT["update", op] = (OK, None, 1, 0, 0)
    WANT["insert", "DELETE"] = WANT["upsert", "DELETE"] = (OK, "UPDATE", 1, 0, 0)
    WANT["update", "DELETE"] = WANT["delete_record", "DELETE"] = (NF, None, 0, 0, 0)
    WANT["delete_record", "INSERT"] = (CI, None, 0, 1, 0)
    WANT["delete_record", "UPDATE"] = (OK, "DELETE", 0, 0, 0)
    WANT["delete_record", "UPSERT"] = (CU, None, 0, 1, None)
    MINE = {"insert": "INSERT", "upsert": "UPSERT", "update": "UPDATE", "delete_record": "DELETE"}

    def push(X, st, e):
        O.keep(st)
        X.ob()
        ps = st.ps
        ps["push"] = ps.get("push", 0) + 1
        b = ps.get("built")
        call = short(X.root)
        if ps.get("gotrec") and not ps.get("searched") and not ps.get("put"):
            X.bad(st, e, "buffers a write without looking for an earlier write of the same record")
        if b is None:
            return
        op = O.ops.get(X.const(st, b[1]))
        if op is not None and op != MINE[call]:
            X.bad(st, e, "%s buffers its write as %s" % (call, op))
        if not is_param(b[0], 1) and b[0].kind != "u" and not ld_is(b[0], "storage_"):
            X.bad(st, e, "a write is buffered for another storage")
        if len(b) > 3:
            if not is_param(b[3], VAL) and b[3].kind != "u":
                X.bad(st, e, "a write is buffered with another value")
            inc = X.const(st, b[4])
            conv = ps.get("conv")
            if inc == 0 and (conv == OK or ps.get("put")):
                X.bad(st, e, "a write that counted itself as user of the placeholder does not remember it")
            if inc == 1 and conv == EX and not ps.get("put"):
                X.bad(st, e, "a write that did not count itself as user of a placeholder claims it did")

    def got(X, st, e):
        for k in ("gotrec", "searched", "conv", "put", "found"):
            st.ps.pop(k, None)

    def putc(X, st, e):
        st.ps["put"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        O.keep(st)
        call = short(X.root)
        c = X.const(st, v)
        n = ps.get("push", 0)
        X.ob()
        if ps.get("found") == 1:
            for op in (ps.get("op0") or "").split("|"):
                w = WANT.get((call, op))
                if w is None:
                    if c in (OK, CI, CU):
                        X.badfn(st, fn, "%s on a key the transaction already wrote does not depend on the earlier operation" % call)
                    continue
                if c is not None and c != w[0]:
                    X.badfn(st, fn, "%s over the transaction's own %s returns %s instead of %s" % (
                        call, op.lower(), K.status_name(c), K.status_name(w[0])))
                if ps.get("set_op") != w[1] and not (w[1] is None and ps.get("set_op") == op):
                    X.badfn(st, fn, "%s over the transaction's own %s leaves operation %s instead of %s" % (
                        call, op.lower(), ps.get("set_op") or op, w[1] or op))
                if bool(ps.get("val")) != bool(w[2]):
                    X.badfn(st, fn, "%s over the transaction's own %s %s the buffered value" % (
                        call, op.lower(), "keeps" if w[2] else "changes"))
                if w[2] and not ps.get("lobs"):
                    X.badfn(st, fn, "%s over the transaction's own %s keeps the earlier large objects" % (call, op.lower()))
                if bool(ps.get("erase")) != bool(w[3]):
                    X.badfn(st, fn, "%s over the transaction's own %s %s the buffered write" % (
                        call, op.lower(), "keeps" if w[3] else "drops"))
                if w[4] == 0 and n:
                    X.badfn(st, fn, "%s over the transaction's own %s buffers a second write" % (call, op.lower()))
                if w[4] is None:
                    if ps.get("placeholder") != 1 and not n:
                        X.badfn(st, fn, "deleting the transaction's own upsert of an existing record does not delete it")
                    if ps.get("placeholder") == 1 and n:
                        X.badfn(st, fn, "deleting the transaction's own upsert of a new record deletes a record that does not exist")
        elif c == OK and n != 1:
            X.badfn(st, fn, "%s reports success with %d buffered writes" % (call, n))
        elif c is not None and c < OK and c not in (OK, CI, CU) and n:
            X.badfn(st, fn, "%s buffers a write although it returns %s" % (call, K.status_name(c)))

    def branch(X, st, e):
        O.branch(X, st, e)
        o, a, b, t = atom(e.val, e.extra)
        # the record is only a placeholder: deleted or inserting
        for f, key in (("absent_", "pa"), ("latest_", "pl")):
            if o == "t" and field_of(a, f) is not None:
                st.ps[key] = 1 if t else 0
        if st.ps.get("pa") == 0 or st.ps.get("pl") == 0:
            st.ps["placeholder"] = 0
        elif st.ps.get("pa") and st.ps.get("pl"):
            st.ps["placeholder"] = 1
    calls = {SK + n: O.called for n in ("local_write_set::search", "local_write_set::erase", "write_set_obj::set_op",
                                        "write_set_obj::set_val", "write_set_obj::set_lobs", "write_set_obj::write_set_obj")}
    calls[SK + "session::push_to_write_set"] = push
    calls[SK + "get"] = got
    calls[SK + "put"] = putc
    for r in ("insert", "upsert", "update", "delete_record"):
        K.run("C26.write", writes.__doc__, r, minimum=6, stop=STOP, call=calls, branch=branch, exit=ex, root=r, merge_block=300)


def reads(K):
    """reads return the transaction's own latest write, and not found for its own delete"""
    O = Own(K)
    S = K.S
    OK, NF, LIM = S("OK"), S("WARN_NOT_FOUND"), S("WARN_SCAN_LIMIT")

    def rd(X, st, e):
        O.called(X, st, e)
        X.ob()
        ty = [c for t, c in st.eq.items() if ld_is(t, "tx_type_")]
        RO = K.eng.enum("shirakami::transaction_options::transaction_type", "READ_ONLY")
        if RO in ty:
            return
        if not st.ps.get("searched"):
            X.bad(st, e, "reads committed data without looking at the transaction's own writes first")
        if st.ps.get("found") == 1:
            X.bad(st, e, "reads committed data although the transaction wrote the key itself")

    def ex(X, st, v, fn):
        O.keep(st)
        ps = st.ps
        c = X.const(st, v)
        X.ob()
        if ps.get("found") == 1 and c is not None and c <= OK:
            op = ps.get("op0")
            if op is None:
                X.badfn(st, fn, "a read of the transaction's own write does not depend on its operation")
            elif "DELETE" in op.split("|") and c != NF:
                X.badfn(st, fn, "a key the transaction deleted is reported as %s" % K.status_name(c))
            elif "DELETE" not in op and c != OK:
                X.badfn(st, fn, "a key the transaction wrote is reported as %s" % K.status_name(c))
            elif "DELETE" not in op and X.wants and not ps.get("own_val"):
                X.badfn(st, fn, "a read of the transaction's own write does not return its value")
    calls = {SK + n: O.called for n in ("local_write_set::search", "write_set_obj::get_value")}
    for n in ("read_record", "long_tx::version_traverse_and_read", "long_tx::version_function_with_optimistic_check"):
        calls[SK + n] = rd
    for r, w in (("search_key", 1), ("exist_key", 0), ("read_key_from_scan", 0), ("read_value_from_scan", 1)):
        K.run("C26.read", reads.__doc__, r, minimum=6, stop=RSTOP, call=calls, branch=O.branch, exit=ex, root=r, wants=w,
              merge_block=200)

    # moving a cursor: own deletes are passed over, own writes are offered
    def nx(X, st, v, fn):
        O.keep(st)
        c = X.const(st, v)
        X.ob()
        if st.ps.get("found") == 1 and c == OK and "DELETE" in st.ps.get("op0", "DELETE").split("|"):
            X.badfn(st, fn, "a cursor stops at a key the transaction deleted")

    def step(X, st, e):
        O.keep(st)
        X.ob()
        if st.ps.get("found") == 1 and st.ps.get("op0") != "DELETE":
            X.bad(st, e, "a cursor passes over a key the transaction wrote")
        st.ps.pop("found", None)
        st.ps.pop("op0", None)
    K.run("C26.next", "cursors honour the transaction's own writes", "next", minimum=4, stop=RSTOP,
          call=dict(calls, **{"yakushima::iscan_next": step}), write={"scan_index_": step}, branch=O.branch,
          exit=nx, root="next", wants=0, merge_block=200)


def sets(K):
    """the write set finds, replaces and removes entries by their record"""
    def ret(X, st, v, fn):
        X.ob()
        eq = st.ps.get("eq")
        if X.const(st, v) == 0:
            if eq == 1:
                X.badfn(st, fn, "an entry of the record searched for is not returned")
            return
        # a found entry
        if mentions(v, lambda x: x.kind == "it" and type(x.args[1]) is tuple and x.args[1][0] == "find"):
            if not mentions(v, lambda x: x.kind == "p" and x.args[0] == 0):
                X.badfn(st, fn, "an entry is looked up by something else than the record")
            return
        if not eq:
            X.badfn(st, fn, "an entry of another record is returned")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and any(is_param(x, 0) for x in (a, b)) and any(ld_is(x, "rec_ptr_") for x in (a, b)):
            st.ps["eq"] = 1 if t else 0
    K.run("C26.search", sets.__doc__, "local_write_set::search", minimum=3, branch=br, exit=ret, nonempty=True, once=True)

    def pcall(X, st, e):
        r = X.recv(st, e)
        if r is None or not e.name.startswith("std::"):
            return
        n = short(e.name)
        ps = st.ps
        if loc_is(r, "cont_for_bt_") and n in ("insert_or_assign", "emplace", "insert", "try_emplace", "operator[]"):
            X.ob()
            if n != "insert_or_assign" and n != "operator[]":
                X.bad(st, e, "a later write of a record does not replace its entry")
            ps["in"] = 1
        if loc_is(r, "cont_for_occ_") and n in ("emplace_back", "push_back"):
            X.ob()
            ps["in"] = 1
            ps["occ"] = 1
        if loc_is(r, "cont_for_occ_") and n == "clear":
            X.ob()
            if not ps.get("moved"):
                X.bad(st, e, "buffered writes are dropped")
            if not ps.get("batch"):
                X.bad(st, e, "buffered writes are moved but the other container stays in use")
        if loc_is(r, "cont_for_bt_") and ps.get("occ"):
            ps["moved"] = 1

    def setb(X, st, e):
        if loc_is(e.loc, "for_batch_") and e.kind != "aload":
            st.ps["batch"] = X.const(st, e.val)

    def pex(X, st, v, fn):
        X.ob()
        if not st.ps.get("in"):
            X.badfn(st, fn, "a path does not keep the new write")
        if st.ps.get("moved") and not st.ps.get("batch"):
            X.badfn(st, fn, "buffered writes are moved but the other container stays in use")
        if st.ps.get("batch") and not st.ps.get("moved"):
            X.badfn(st, fn, "the other container is used without the writes buffered so far")
    K.run("C26.push", sets.__doc__, "local_write_set::push", minimum=3, anycall=pcall, atomic=setb, exit=pex, nonempty=True,
          once=True)

    def ecall(X, st, e):
        r = X.recv(st, e)
        if r is not None and short(e.name) == "erase" and (loc_is(r, "cont_for_bt_") or loc_is(r, "cont_for_occ_")):
            X.ob()
            st.ps["er"] = st.ps.get("er", 0) + 1

    def eex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if c == K.S("OK") and st.ps.get("er", 0) != 1:
            X.badfn(st, fn, "reports an entry as removed without removing it")
        if c == K.S("WARN_NOT_FOUND") and st.ps.get("er"):
            X.badfn(st, fn, "removes an entry but reports none")
    K.run("C26.erase", sets.__doc__, "local_write_set::erase", minimum=4, anycall=ecall, exit=eex)
    stored(K, "C26.store", "write_set_obj::set_op", "op_")
    stored(K, "C26.store", "write_set_obj::set_val", "val_")
    stored(K, "C26.store", "write_set_obj::set_lobs", "lobs_")
    for fid in K.fns("write_set_obj::write_set_obj"):
        n = len(K.eng.fns[fid]["params"])
        if n >= 3:
            for i, f in enumerate(("storage_", "op_", "rec_ptr_", "val_", "inc_tombstone_", "lobs_")[:n]):
                stored(K, "C26.store", fid, f, i)
