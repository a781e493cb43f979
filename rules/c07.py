"""C07: a long transaction commits only when nothing older can still be affected."""
from rulekit import *
import c11

NOTE = ("the decision to wait and the question whether an older transaction may read what is written, each followed on every path; a commit proceeds only when "
        "told not to wait, and a waiting one is queued once and retried by the background workers. One transaction, storage and read plan entry at a time; "
        "that waiting ends is not decided")
ASSUMPTIONS = ["transactions are listed in the order of their identifiers"]
WAITS = SK + "ongoing_tx::exist_wait_for"
ANTI = SK + "read_plan::check_potential_read_anti"
WONLY = SK + "session::is_write_only_ltx_now"
XWF = SK + "session::extract_wait_for"


def check(K):
    for f in (wait, gathered, anti, overlap, write_only, commit):
        K.part("C07." + f.__name__, f)
    K.part("C07.worker", c11.worker)
    K.part("C07.queue", queue)
    K.part("C07.refuse", refuse)


def truth(X, st, o, b, t):
    return t != (o == "==" and b is not None and X.const(st, b) == 0)


def field(t, n):
    return t is not None and any(x.kind in ("f", "fv") and short(str(x.args[1])) == n for x in subterms(t))


def glob(t, n):
    return t is not None and any(x.kind == "g" and short(str(x.args[0])) == n for x in subterms(t))


def member(t):
    """the answer whether something is in a set"""
    return t is not None and t.kind in ("pc", "r") and short(str(t.args[0])) in ("count", "contains")


def ended(st, a, b, t):
    """note the end of a container reached"""
    for x, y in ((a, b), (b, a)):
        if y.args[1] == "end" and not (isinstance(x.args[1], tuple) and x.args[1][0] == "find"):
            n = [short(str(z.args[0] if z.kind == "g" else z.args[1])) for z in subterms(x.args[0]) if z.kind in ("g", "f")]
            k = "end " + (n[0] if n else "p")
            if t:
                st.ps[k] = 1
            else:
                st.ps.setdefault("in " + k[4:], 1)
            break


def wait(K):
    """a commit waits as long as an unfinished older transaction it may have overtaken remains, or one that may still read what it wrote"""

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        z = truth(X, st, o, b, t)
        if a.kind == "pc" and short(a.args[0]) in ("empty", "size"):
            y = z if short(a.args[0]) == "empty" else not z
            if any(is_result(x, XWF) for x in subterms(a)):
                ps["none"] = y
            elif field(a, "wp_set_"):
                ps["wp"] = not y
        elif o in ("<", "<=") and glob(e.val, "tx_info_") and field(e.val, "long_tx_id_"):
            mine = field(b, "long_tx_id_")
            if not X.eng.held(st, "mtx_"):
                X.bad(st, e, "the running transactions are looked at without their lock")
            if field(a if mine else b, "#1") and not any(x.kind == "op" for y in (a, b) for x in subterms(y)):
                ps["lower"] = t if mine else not t
        elif o == "==" and a.kind == "it" and b.kind == "it":
            for x, y in ((a, b), (b, a)):
                if isinstance(x.args[1], tuple) and x.args[1][0] == "find" and y.args[1] == "end" and glob(x.args[1][1], "tx_info_"):
                    ps["hit"] = not t
            ended(st, a, b, t)
        elif any(member(x) for x in (a, b)):
            ps["hit"] = z if member(a) else t if X.const(st, a) == 0 and o == "<" else z
        elif ld_is(a, "was_considering_forwarding_at_once_"):
            if not (ps.get("cons") and not z):
                ps["cons"] = z
        elif is_result(a, ANTI):
            ps["anti"] = z
        elif is_result(a, WONLY):
            ps["wonly"] = z

    def wr(X, st, e):
        if e.loc.kind == "f" and short(e.loc.args[1]) == "was_considering_forwarding_at_once_":
            c = X.const(st, e.val)
            if c == 1:
                st.ps["cons"] = True
            elif c == 0:
                X.bad(st, e, "it is forgotten that the transaction may have overtaken another")

    def an(X, st, e):
        X.ob()
        a = X.arg(st, e, 0)
        if a.kind not in ("u",) and not field(a, "long_tx_id_"):
            X.bad(st, e, "asks on behalf of another transaction")

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        if ps.get("hit"):
            if c != 1:
                X.badfn(st, fn, "a commit goes on while an older transaction it may have overtaken is unfinished")
            return
        if c is None:
            neg = v.kind == "op" and v.args[0] == "!" or v.kind == "op" and v.args[0] == "==" and X.const(st, v.args[2]) == 0
            if any(is_result(x, WONLY) for x in subterms(v)):
                c = 1 if ps.get("anti") and neg else 0
                if c == 1:
                    return
            elif any(is_result(x, ANTI) for x in subterms(v)):
                if not neg and not ps.get("hit"):
                    return
                c = 0
            else:
                return
        if c == 0:
            if ps.get("none") is not True and not ("hit" in ps and ps.get("end tx_info_")) and ps.get("lower") is not False:
                X.badfn(st, fn, "a commit goes on without looking for the older transactions it may have overtaken")
            if ps.get("none") is False and not ps.get("cons"):
                X.badfn(st, fn, "it is not kept that the transaction may have overtaken another")
            if ps.get("cons") is not False and ps.get("wp") is not False and ps.get("anti") is not False and ps.get("wonly") is not True and not ps.get("hit"):
                X.badfn(st, fn, "a commit goes on while an older transaction may still read what it wrote")
        elif c == 1:
            if not ps.get("hit") and not ps.get("anti"):
                X.badfn(st, fn, "a commit waits although no other transaction is in its way")
    K.run("C07.wait", wait.__doc__, "ongoing_tx::exist_wait_for", minimum=4, stop={ANTI, WONLY, XWF} | q("long_tx::update_wp_at_commit ongoing_tx::waiting_bypass"),
          nonempty=True, once=True, branch=br, anywrite=wr, call={ANTI: an}, exit=ex, merge_exits=100, merge_block=100)


def gathered(K):
    """the transactions a commit waits for are all those it may have overtaken, in every storage"""

    def anyc(X, st, e):
        if e.name.startswith("std::set::") and short(e.name) in ("insert", "emplace", "merge") and e.args:
            X.ob()
            a = X.arg(st, e, 0)
            if field(a, "overtaken_ltx_set_") or a.kind == "u":
                st.ps["ins"] = 1
                if not X.eng.held(st, "mtx_overtaken_ltx_set_"):
                    X.bad(st, e, "the overtaken transactions are looked at without their lock")
                if not field(a, "#0") and a.kind != "u":
                    X.bad(st, e, "something else than the overtaken transactions is waited for")

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("ins"):
            X.badfn(st, fn, "an overtaken transaction is left out of those to wait for")
    K.run("C07.gathered", gathered.__doc__, "session::extract_wait_for", minimum=1, nonempty=True, once=True, anycall=anyc, exit=ex)


def anti(K):
    """an older transaction counts as one that may read what is written unless its read plan, or what it read, rules that out"""
    OV = SK + "read_plan::check_range_overlap"

    def which(X, st, c):
        v = X.eng.load(st, c) if c.kind in ("v", "f") else c
        for t in (v, c):
            p = pretty(t)
            if p.endswith(".#1.#0"):
                return "p"
            if p.endswith(".#1.#1"):
                return "n"
        return None

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        z = truth(X, st, o, b, t)
        if o in ("<", "<=", "==") and b is not None and glob(e.val, "cont_") and (is_param(a, 0) or is_param(b, 0)) and not field(e.val, "storage_map_"):
            mine = is_param(b, 0) and not glob(b, "cont_")
            if not X.eng.held(st, "mtx_cont_"):
                X.bad(st, e, "the read plans are looked at without their lock")
            if o == "==":
                ps["same"] = t
            elif not mine:
                # own < other, own <= other
                ps["above" if o == "<" else "notbelow"] = t
            else:
                ps["below" if o == "<" else "notabove"] = t
        elif a.kind == "pc" and short(a.args[0]) in ("empty", "size"):
            y = z if short(a.args[0]) == "empty" else not z
            w = None
            for x in subterms(a):
                if x is not a:
                    w = w or which(X, st, x)
            if w:
                ps[w + "e"] = y
        elif o == "==" and a.kind == "it" and b.kind == "it":
            for x, y in ((a, b), (b, a)):
                if isinstance(x.args[1], tuple) and x.args[1][0] == "find" and y.args[1] == "end":
                    if which(X, st, x.args[0]) == "n" and field(x.args[1][1], "storage_map_"):
                        ps["nl"] = not t
            for x in (a, b):
                if which(X, st, x.args[0]) == "p":
                    ps["endp" if t else "inp"] = 1
                    break
            else:
                ended(st, a, b, t)
        elif o == "==" and b is not None and (field(a, "storage_map_") != field(b, "storage_map_")):
            x = b if field(a, "storage_map_") else a
            y = a if x is b else b
            if pretty(x).endswith("#0") and pretty(y).endswith("#0"):
                ps["eq"] = t
        elif is_result(a, OV):
            ps["ov"] = z
        elif pretty(a).endswith(").#1") and not field(a, "storage_map_"):
            ps["sub"] = z

    def ov(X, st, e):
        X.ob()
        if len(e.args) == 6:
            for j in range(6):
                p = pretty(X.arg(st, e, j))
                if ".#" in p and not p.endswith(".#%d" % j):
                    X.bad(st, e, "the range read and the range written are mixed up")

    def ex(X, st, v, fn):
        ps = st.ps
        X.ob()
        c = X.const(st, v)
        must = ps.get("pe") and ps.get("ne") or ps.get("pe") and ps.get("nl") is False or ps.get("eq") and (ps.get("sub") is False or ps.get("ov"))
        own = ps.get("same") or ps.get("above") or ps.get("notbelow") or ps.get("below") is False or ps.get("notabove") is False
        if c is None and is_result(v, OV):
            c = 0
            ps["ov"] = False
        if must and not own and c is None:
            X.badfn(st, fn, "an older transaction that may read a storage counts as one that will not")
        if c == 0:
            if own:
                return
            if any(ps.get("in" + k) and not ps.get("end" + k) for k in (" cont_", " storage_map_", "p")):
                X.badfn(st, fn, "not every older transaction, storage written and entry of a read plan is looked at")
            if not any(k in ps for k in ("same", "above", "notbelow", "below", "notabove")):
                X.badfn(st, fn, "the older transactions are not looked at")
            elif ps.get("pe"):
                if ps.get("ne"):
                    X.badfn(st, fn, "an older transaction without a read plan counts as one that will not read")
                elif ps.get("nl") is not True:
                    X.badfn(st, fn, "an older transaction that did not exclude a storage counts as one that will not read it")
            elif ps.get("eq") is not False and not (ps.get("sub") and ps.get("ov") is False):
                X.badfn(st, fn, "an older transaction that may read a storage counts as one that will not")
        elif c == 1 and own:
            X.badfn(st, fn, "a transaction counts as in its own way")
    K.run("C07.anti", anti.__doc__, "read_plan::check_potential_read_anti", minimum=4, stop={OV}, nonempty=True, once=True, branch=br, call={OV: ov}, exit=ex,
          merge_exits=200, merge_block=200)


def overlap(K):
    """a written range and a read range count as apart only when they share no key"""

    def idx(t):
        for x in subterms(t):
            if x.kind == "p":
                return x.args[0]
        return None

    def sem(t, a):
        if t.kind == "op" and t.args[0] in ("<", "<=", "==") and len(t.args) == 3:
            i, j = idx(t.args[1]), idx(t.args[2])
            for (x, y), n in (((1, 2), "hi"), ((0, 4), "lo")):
                if (i, j) == (x, y) or (i, j) == (y, x):
                    d = a[n] if (i, j) == (x, y) else -a[n]
                    return int({"<": d < 0, "<=": d <= 0, "==": d == 0}[t.args[0]])
            return None
        i = idx(t)
        if t.kind in ("ld", "p", "v") and i == 3:
            return a["lp"]
        if t.kind in ("ld", "p", "v") and i == 5:
            return a["rp"]
        return None

    def spec(a):
        apart = a["lp"] == 1 and a["hi"] < 0 or a["lp"] == 0 and a["hi"] <= 0 or a["rp"] == 1 and a["lo"] > 0 or a["rp"] == 0 and a["lo"] >= 0
        return int(not apart)
    K.table("C07.overlap", overlap.__doc__, lambda: K.fns("read_plan::check_range_overlap")[0], {"lp": (0, 1, 2), "rp": (0, 1, 2), "hi": (-1, 0, 1), "lo": (-1, 0, 1)},
            sem, spec, minimum=4)


def write_only(K):
    """a transaction counts as not having read only when both its sets of reads are empty"""

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        note(X, st, a, truth(X, st, o, b, t))

    def note(X, st, a, z):
        if a.kind == "pc" and short(a.args[0]) in ("empty", "size"):
            y = z if short(a.args[0]) == "empty" else not z
            for n in ("range_read_set_for_ltx_", "read_set_for_ltx_"):
                if field(a, n):
                    st.ps[n] = y
                    return

    def ex(X, st, v, fn):
        X.ob()
        c = X.const(st, v)
        if c is None:
            o, a, b, t = atom(v, True)
            note(X, st, a, truth(X, st, o, b, t))
            c = 1
        if c == 1 and not (st.ps.get("range_read_set_for_ltx_") and st.ps.get("read_set_for_ltx_")):
            X.badfn(st, fn, "a transaction that has read may count as one that has not")
    K.run("C07.write_only", write_only.__doc__, "session::is_write_only_ltx_now", minimum=2, branch=br, exit=ex)


def commit(K):
    """a commit goes on to validation only when told not to wait; otherwise it is marked as waiting, queued once, and neither committed nor aborted"""
    WAIT = K.S("WARN_WAITING_FOR_OTHER_TX")
    STOP = (c11.STOP | {WAITS} | q("long_tx::verify read_plan::add_elem session::extract_wait_for get_tx_id")) - q("long_tx::check_wait_for_preceding_bt")
    REG = SK + "bg_work::bg_commit::register_tx"

    def br(X, st, e):
        ps = st.ps
        o, a, b, t = atom(e.val, e.extra)
        if is_result(a, WAITS):
            ps["wait"] = truth(X, st, o, b, t)
        elif ld_is(a, "requested_commit_"):
            ps.setdefault("req", truth(X, st, o, b, t))
        elif a.kind == "o" and a.args[0] == WAITS and o == "==" and X.const(st, b) == WAIT and t:
            # the status given out beside the answer is success or a conflict
            ps["imp"] = 1

    def go(X, st, e):
        if st.ps.get("imp"):
            return
        X.ob()
        if st.ps.get("wait") is not False:
            X.bad(st, e, "a commit goes on although it may have to wait for another transaction")

    def reg(X, st, e):
        ps = st.ps
        if ps.get("imp"):
            return
        X.ob()
        if ps.get("wait") is not True:
            X.bad(st, e, "a commit is queued that has nothing to wait for")
        if ps.get("req") is not False:
            X.bad(st, e, "a waiting commit is queued again")
        if not ps.get("set"):
            X.bad(st, e, "a commit is queued before it counts as requested")
        if ps.get("reg"):
            X.bad(st, e, "a waiting commit is queued twice")
        ps["reg"] = 1

    def at(X, st, e):
        if e.kind == "astore" and e.loc.kind == "f" and short(e.loc.args[1]) == "requested_commit_" and X.const(st, e.val) == 1:
            st.ps["set"] = 1

    def ex(X, st, v, fn):
        ps = st.ps
        if ps.get("imp"):
            return
        X.ob()
        c = X.const(st, v)
        if ps.get("wait"):
            if c not in (WAIT, None):
                X.badfn(st, fn, "a commit that has to wait does not say so")
            if ps.get("req") is not True and not ps.get("reg"):
                X.badfn(st, fn, "a waiting commit is not queued")
        elif c == WAIT:
            X.badfn(st, fn, "a commit says it waits and does not")
    calls = {n: go for n in q("long_tx::verify session::clean_up session::commit_sequence")}
    calls[REG] = reg
    K.run("C07.commit", commit.__doc__, "long_tx::commit", minimum=4, stop=STOP, branch=br, atomic=at, call=calls, exit=ex, merge_exits=200, merge_block=200)


def queue(K):
    """a waiting commit is queued under its own identifier with the queue locked"""

    def anyc(X, st, e):
        if e.recv and glob(e.recv[1], "cont_wait_tx_") and short(e.name) in ("emplace", "insert", "try_emplace", "insert_or_assign", "operator[]"):
            X.ob()
            st.ps["in"] = 1
            if not X.eng.held(st, "mtx_cont_wait_tx_", "X"):
                X.bad(st, e, "a commit is queued without the queue locked")
            a = X.arg(st, e, 0)
            k = a.args[0] if a.kind == "tup" else a
            if k.kind != "u" and not field(k, "long_tx_id_"):
                X.bad(st, e, "a commit is queued under another identifier")

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and ld_is(a, "tx_type_") and X.const(st, b) == 0 and not t:
            st.ps["other"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("in") and not st.ps.get("other"):
            X.badfn(st, fn, "a waiting commit does not get into the queue")
    K.run("C07.queue", queue.__doc__, "bg_work::bg_commit::register_tx", minimum=1, anycall=anyc, branch=br, exit=ex)


def refuse(K):
    """a transaction whose commit waits is neither committed again nor aborted on request"""

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if ld_is(a, "requested_commit_"):
            st.ps["req"] = truth(X, st, o, b, t)
        elif o == "==" and ld_is(a, "tx_type_") and X.const(st, b) == 0 and not t:
            st.ps["other"] = 1

    def end(X, st, e):
        X.ob()
        if st.ps.get("req") is not False and not st.ps.get("other"):
            X.bad(st, e, "a transaction whose commit may be waiting is ended a second time")
    STOP = q("short_tx::abort short_tx::commit read_only_tx::abort read_only_tx::commit long_tx::abort long_tx::commit")
    for n, k in (("commit", None), ("abort", 1)):
        K.run("C07.refuse", refuse.__doc__, K.fns(n, k) if k else K.fns(n), minimum=1, stop=STOP, branch=br,
              call={SK + "long_tx::abort": end, SK + "long_tx::commit": end}, merge_exits=100, merge_block=100)
