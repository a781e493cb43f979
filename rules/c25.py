"""C25: the write-preserve table reflects exactly the live preserves."""
import re
from rulekit import *

NOTE = ("every path of the table's operations: which slot is taken, filled, freed, under which lock; the seqlock reader; "
        "minimum queries element by element; recorded outcome of finished transactions at every call site")
M = SK + "wp::wp_meta::"
L = SK + "wp::wp_lock::"
LOCKS = frozenset((L + "lock", L + "unlock"))


def check(K):
    for f in (minima, reader, lockword, register, remove, result, finish, preserve, ranges, shrink):
        K.part("C25." + f.__name__, f)


def slot(t):
    """Slot of the table an element designates (index term or iterator tag)."""
    out = []

    def p(x):
        if x.kind == "it":
            out.append(x.args[1][1] if isinstance(x.args[1], tuple) and x.args[1][0] == "idx" else x)
            return True
        return False
    mentions(t, p)
    return out[0] if out else None


def elem_part(t):
    """(element, part) when t reads part 0 or 1 of a table element."""
    if t is not None and t.kind == "ld" and t.args[0].kind == "f" and t.args[0].args[1] in ("#0", "#1"):
        e = t.args[0].args[0]
        if e.kind == "e":
            return e, int(t.args[0].args[1][1])
    if t is not None and t.kind == "fv" and t.args[1] in ("#0", "#1") and t.args[0].kind == "ld" and t.args[0].args[0].kind == "e":
        return t.args[0].args[0], int(t.args[1][1])
    return None


def extent(K):
    for c in K.eng.F["classes"].values():
        if c["n"] == SK + "wp::wp_meta":
            for f in c["fields"]:
                if short(f["n"]) == "wped_":
                    m = re.search(r",\s*(\d+)\s*U?L?>\s*$", f["t"])
                    if m:
                        return int(m.group(1))
    return None


def minima(K):
    """the oldest-preserve queries give the minimum over the entries in use"""
    def seen(st, e):
        s = st.ps.get("seen", ())
        if e not in s:
            s += (e,)
            st.ps["seen"] = s

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and a.kind == "it" and b.kind == "it" or o == "<" and (b.kind == "c" or b.kind == "pc"):
            # two entries are followed
            st.ps["n"] = st.ps.get("n", 0) + 1
            if st.ps["n"] > 2 and t == (o == "<"):
                st.dead = True
        for x in (a, b):
            p = elem_part(x)
            if p:
                seen(st, p[0])
        pa, pb = elem_part(a), elem_part(b) if b is not None else None
        if pa and pa[1] == 0 and (o == "t" or o == "==" and b is ZERO):
            st.ps["used"] = st.ps.get("used", frozenset()) | {(pa[0], t if o == "t" else not t)}
        if o == "<" and a is ZERO and pb and pb[1] == 0:
            st.ps["used"] = st.ps.get("used", frozenset()) | {(pb[0], t)}
        if o == "<" and pa and pb and pa[1] == pb[1]:
            lo, hi = (pa, pb) if t else (pb, pa)
            st.ps["le"] = st.ps.get("le", frozenset()) | {(lo[0], hi[0], pa[1])}

    def wr(X, st, e):
        p = elem_part(e.val)
        if p and e.loc.kind == "v":
            st.ps["w%d" % p[1]] = p

    for name, parts, key in (("find_min_ep", (0,), 0), ("find_min_id", (1,), 1), ("find_min_ep_id", (0, 1), 1)):
        def ex(X, st, v, fn, parts=parts, key=key):
            vs = v.args if v is not None and v.kind == "tup" else (v,)
            if len(vs) != len(parts):
                return
            X.ob()
            used = dict(st.ps.get("used", ()))
            live = [k for k, u in used.items() if u]
            if len(used) < len(st.ps.get("seen", ())):
                X.badfn(st, fn, "an entry is taken into account without looking whether it is in use")
                return
            if all(x is ZERO for x in vs):
                if live:
                    X.badfn(st, fn, "answers none although an entry is in use")
                return
            # what was kept last, when the loop has moved on since
            ps = [elem_part(x) or (x.kind == "u" and st.ps.get("w%d" % k) or None) for x, k in zip(vs, parts)]
            if None in ps:
                return
            if tuple(p[1] for p in ps) != parts:
                X.badfn(st, fn, "answers with the wrong part of an entry")
                return
            if len({p[0] for p in ps}) > 1:
                X.badfn(st, fn, "answers with parts of different entries")
                return
            r = ps[0][0]
            if not used.get(r):
                X.badfn(st, fn, "answers with an entry that is not in use")
            for o in live:
                if o is not r and (r, o, key) not in st.ps.get("le", ()):
                    X.badfn(st, fn, "does not answer with the smallest entry in use")
        K.run("C25.min", minima.__doc__, "wp::wp_meta::" + name, minimum=2, branch=branch, exit=ex, anywrite=wr,
              nonempty=True, merge_block=400)


def reader(K):
    """a copy of the table is only returned when the lock word was free before and unchanged after copying"""
    def at(X, st, e):
        ps = st.ps
        if e.kind != "aload" or not loc_is(e.loc, "obj"):
            return
        if ps.get("copied") and not ps.get("post"):
            ps["post"] = e.val
        else:
            for k in ("copied", "post", "free", "same"):
                ps.pop(k, None)
            ps["pre"] = e.val

    def wr(X, st, e):
        if e.val is not None and e.val.kind == "ld" and loc_is(e.val.args[0], "wped_"):
            X.ob()
            st.ps["copied"] = 1
            st.ps["held"] = int(bool(st.ps.get("lk")))
            st.ps.pop("post", None)

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        for x in (a,):
            if x.kind == "op" and x.args[0] == "&" and x.args[2] is ONE and (o == "t" or b is ZERO):
                lockd = t if o == "t" else not t
                if not lockd and x.args[1] in (ps.get("pre"), ps.get("post")):
                    ps["free"] = 1
        if o == "==" and t and {a, b} == {ps.get("pre"), ps.get("post")}:
            ps["same"] = 1

    def lk(X, st, e):
        if loc_is(e.recv[1], "wp_lock_"):
            st.ps["lk"] = 1 if short(e.name) == "lock" else 0

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if ps.get("held"):
            return
        if not ps.get("copied"):
            X.badfn(st, fn, "returns something else than a copy of the table made by this call")
        elif not ps.get("same"):
            X.badfn(st, fn, "returns a copy of the table without checking that it was not changed meanwhile")
        elif not ps.get("free"):
            X.badfn(st, fn, "returns a copy of the table that may have been made while it was locked")
    roots = [f for f in K.fns("wp::wp_meta::get_wped") if not K.eng.fns[f]["ret"].rstrip().endswith("&")]
    K.run("C25.reader", reader.__doc__, roots, minimum=2, stop=LOCKS, atomic=at, anywrite=wr, branch=branch, exit=ex,
          call={L + "lock": lk, L + "unlock": lk})
    # users get copies, not the table itself
    n = 0
    for fid in K.fns("wp::wp_meta::get_wped"):
        if fid in roots:
            continue
        for f, _ in K.eng.callers(fid):
            n += 1
            if not K.eng.fns[f]["n"].startswith(SK + "wp::wp_meta::"):
                K.violation("C25.reader", K.eng.fns[f], K.eng.fns[f]["l"], "reads the table without taking a consistent copy")


ACQ = {2, 4, 5}
REL = {3, 4, 5}


def lockword(K):
    """the table lock is taken by changing a free word to locked and given back with a new count"""
    def bit(t):
        """x for x & 1"""
        return t.args[1] if t.kind == "op" and t.args[0] == "&" and t.args[2] is ONE else None

    def at(X, st, e):
        if e.kind == "acas":
            X.ob()
            v = e.val
            ok = False
            if v is not None and v.kind == "op" and v.args[0] in ("|", "+") and v.args[2] is ONE:
                ok = True
                x = v.args[1]
                if X.const(st, X.eng.op("&", x, ONE)) != 0:
                    X.bad(st, e, "takes the table lock although it may be held")
            if not ok and v is not None and v.kind != "u":
                X.bad(st, e, "takes the table lock without marking it held")
            st.ps["cas"] = 1

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if a.kind == "r" and a.args[0] == "acas":
            st.ps["got"] = int(t if o == "t" else not t)

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("got"):
            X.badfn(st, fn, "returns without having taken the table lock")
    K.run("C25.lock", lockword.__doc__, "wp::wp_lock::lock", minimum=2, atomic=at, branch=branch, exit=ex)

    def ua(X, st, e):
        if e.kind == "astore":
            X.ob()
            v = e.val
            st.ps["st"] = 1
            if v is None:
                return
            if v.kind == "op" and v.args[0] == "<<" and v.args[1].kind == "op" and v.args[1].args[0] == ">>":
                X.bad(st, e, "gives the table lock back without counting")
            elif is_aload(v):
                X.bad(st, e, "does not give the table lock back")
            elif v.kind == "op" and v.args[0] == "|":
                X.bad(st, e, "does not give the table lock back")
            elif v.kind == "op" and v.args[0] == "&" or v.kind == "op" and v.args[0] == "-":
                X.bad(st, e, "gives the table lock back without counting")
        elif e.kind in ("aadd", "armw", "acas"):
            st.ps["st"] = 1

    def uex(X, st, v, fn):
        X.ob()
        if not st.ps.get("st"):
            X.badfn(st, fn, "returns without giving the table lock back")
    K.run("C25.lock", lockword.__doc__, "wp::wp_lock::unlock", minimum=2, atomic=ua, exit=uex)

    def sem(t, a):
        if t.kind == "op" and t.args[0] == "&" and t.args[2] is ONE and is_param(t.args[1], 0):
            return a["held"]
        return None

    def res(X, st, v):
        return v
    K.table("C25.lock", "a lock word counts as held exactly when its lowest bit is set", K.eng.one(SK + "wp::wp_lock::is_locked"),
            {"held": (0, 1)}, sem, lambda a: a["held"], minimum=2)


class Table:
    """Follows the table lock, the slots looked at and the changes of the table."""

    def __init__(self):
        self.call = {L + "lock": self.lock, L + "unlock": self.lock, "std::bitset::set": self.bits,
                     "std::bitset::reset": self.bits}

    def lock(self, X, st, e):
        if e.recv is None or not loc_is(e.recv[1], "wp_lock_"):
            return
        n = st.ps.get("held", 0) + (1 if short(e.name) == "lock" else -1)
        if n not in (0, 1):
            X.bad(st, e, "locks the table twice" if n > 1 else "unlocks the table without holding it")
            n = max(0, min(1, n))
        st.ps["held"] = n

    def bits(self, X, st, e):
        if e.recv is None or not loc_is(e.recv[1], "wped_used_"):
            return
        X.ob()
        if not st.ps.get("held"):
            X.bad(st, e, "changes the slots in use without holding the table lock")
        v = X.arg(st, e, 0)
        if short(e.name) == "set":
            on = X.const(st, X.arg(st, e, 1)) if len(e.args) > 1 else 1
            st.ps["bit"] = (v, on)
            if on and X.const(st, X.eng.op("==", pc_test(st, e.recv[1], v), ZERO)) == 0:
                X.bad(st, e, "takes a slot that is in use")
        else:
            st.ps["bit"] = (v, 0)

    def wr(self, X, st, e):
        if e.loc is None or not mentions(e.loc, lambda x: x.kind == "f" and short(x.args[1]) == "wped_"):
            return
        X.ob()
        if not st.ps.get("held"):
            X.bad(st, e, "changes the table without holding its lock")
        if e.loc.kind == "f" and e.loc.args[1] in ("#0", "#1"):
            k = "part" + e.loc.args[1][1]
            st.ps[k] = e.val
            st.ps["filled"] = (slot(e.loc), tuple(st.ps.get("part%d" % i) for i in (0, 1)))
        else:
            v = e.val
            st.ps["filled"] = (slot(e.loc), tuple(v.args) if v is not None and v.kind == "tup" else (None, None))


def pc_test(st, loc, i):
    for t in list(st.eq) + list(st.ne):
        if t.kind == "pc" and t.args[0] == "test" and t.args[-1] is i:
            return t
    return mk("u", "none")


def tested_free(st, i):
    """Is the slot known not to be in use?"""
    for t, c in st.eq.items():
        if t.kind == "pc" and short(t.args[0]) in ("test", "operator[]") and t.args[-1] is i and c == 0:
            return True
    return False


def register(K):
    """registering fills one free slot with epoch and identity under the table lock"""
    OK = K.S("OK")
    T = Table()

    def bits(X, st, e):
        T.bits(X, st, e)
        b = st.ps.get("bit")
        if b and b[1] and not tested_free(st, b[0]) and b[0].kind != "u":
            X.bad(st, e, "takes a slot without knowing that it is free")

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        if ps.get("held"):
            X.badfn(st, fn, "returns with the table locked")
        c = X.const(st, v)
        b, f = ps.get("bit"), ps.get("filled")
        if c == OK:
            if not b or not b[1]:
                X.badfn(st, fn, "reports success without marking a slot as in use")
            if not f:
                X.badfn(st, fn, "reports success without filling a slot")
            if b and f and f[0] is not None and b[0] is not f[0]:
                X.badfn(st, fn, "marks one slot and fills another")
            if f and None not in f[1] and not (is_param(f[1][0], 0) and is_param(f[1][1], 1)):
                X.badfn(st, fn, "does not fill the slot with the epoch and identity given")
        elif c is not None and (b or f):
            X.badfn(st, fn, "reports failure after changing the table")
    K.run("C25.register", register.__doc__, "wp::wp_meta::register_wp", minimum=4, stop=LOCKS,
          call=dict(T.call, **{"std::bitset::set": bits}), anywrite=T.wr, exit=ex)

    ext = extent(K)

    def br(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "<" and b is not None and b.kind == "c" and ext and b.args[0] != ext and b.args[0] > 1 and a.kind in ("c", "u", "op"):
            X.bad(st, e, "looks at %s slots of a table of %d" % (b.args[0], ext))
        if o == "<" and b is not None and b.kind == "c":
            X.ob()
    K.run("C25.extent", "loops over the table cover all slots", "wp::wp_meta::register_wp wp::wp_meta::remove_wp", stop=LOCKS,
          minimum=0, branch=br)


def remove(K):
    """removing frees the slot holding the identity and nothing else"""
    OK = K.S("OK")
    T = Table()

    def hit(st, s, want):
        for t, c in st.ps.get("cmp", ()):
            if t is s and c == want:
                return True
        return False

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o != "==":
            return
        for x, y in ((a, b), (b, a)):
            p = elem_part(x)
            if p and p[1] == 1 and not mentions(y, lambda z: z.kind == "e"):
                st.ps["cmp"] = ((slot(x), t),)
                st.ps["ident"] = y
            elif p and p[1] == 0 and y is not ZERO:
                X.bad(st, e, "looks for an entry by something else than its identity")

    def wr(X, st, e):
        T.wr(X, st, e)
        f = st.ps.get("filled")
        if f and not hit(st, f[0], True) and f[0] is not None:
            X.bad(st, e, "clears an entry that was not found to carry the identity")

    def bits(X, st, e):
        T.bits(X, st, e)
        b = st.ps.get("bit")
        if b and not hit(st, b[0], True):
            X.bad(st, e, "frees a slot that was not found to carry the identity")

    for root, ident, held0 in (("remove_wp", lambda t: is_param(t, 0), 0),
                               ("register_wp_result_and_remove_wp", lambda t: is_param(t, 0) and "#1" in fields(t), 0)):
        def ex(X, st, v, fn, ident=ident):
            X.ob()
            ps = st.ps
            if ps.get("held"):
                X.badfn(st, fn, "returns with the table locked")
            c = X.const(st, v)
            b, f = ps.get("bit"), ps.get("filled")
            if c == OK:
                if not b or b[1]:
                    X.badfn(st, fn, "reports success without freeing a slot")
                if not f or any(x is not ZERO for x in f[1] if x is not None):
                    X.badfn(st, fn, "reports success without clearing the entry")
                if ps.get("ident") is not None and not ident(ps["ident"]):
                    X.badfn(st, fn, "removes the entry of another identity")
            elif c is not None and (b or f):
                X.badfn(st, fn, "reports failure after changing the table")
        K.run("C25.remove", remove.__doc__, "wp::wp_meta::" + root, minimum=4, stop=LOCKS | q("wp::wp_meta::remove_write_range"),
              call=dict(T.call, **{"std::bitset::reset": bits, "std::bitset::set": bits}), anywrite=wr, branch=branch, exit=ex)


def fields(t):
    out = set()
    mentions(t, lambda x: x.kind in ("f", "fv") and out.add(x.args[1]) and False)
    return out


def tail(t):
    """Last field a value was read from."""
    if t is not None and t.kind == "ld" and t.args[0].kind == "f":
        return t.args[0].args[1]
    if t is not None and t.kind == "fv":
        return t.args[1]
    return None


def result(K):
    """the outcome is recorded before the preserve disappears, and its parts are read as they were stored"""
    def push(X, st, e):
        if e.recv is None or not loc_is(e.recv[1], "wp_result_set_"):
            return
        X.ob()
        if short(e.name) in ("emplace_back", "push_back", "insert", "emplace"):
            if not X.eng.held(st, "mtx_wp_result_set_", "x"):
                X.bad(st, e, "changes the outcome history without its lock")
            if not any(is_param(X.V(st, a), 0) for a in e.args):
                X.bad(st, e, "records something else than the outcome given")
            st.ps["rec"] = st.ps.get("rec", 0) + 1
            if st.ps["rec"] > 1:
                X.bad(st, e, "records the outcome twice")

    def wr(X, st, e):
        if e.loc is not None and mentions(e.loc, lambda x: x.kind == "f" and short(x.args[1]) == "wped_"):
            X.ob()
            if not st.ps.get("rec"):
                X.bad(st, e, "removes the preserve before its outcome is recorded")

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("rec"):
            X.badfn(st, fn, "does not record the outcome")
    K.run("C25.result", result.__doc__, "wp::wp_meta::register_wp_result_and_remove_wp", minimum=3,
          stop=LOCKS | q("wp::wp_meta::remove_write_range"), anycall=push, anywrite=wr, exit=ex)
    for name, i in (("epoch", 0), ("id", 1), ("was_committed", 2), ("write_result", 3)):
        def pex(X, st, v, fn, i=i):
            X.ob()
            if v is None or tail(v) not in (None, "#%d" % i) or "#%d" % i not in fields(v):
                X.badfn(st, fn, "does not answer with the part of the outcome it is named after")
        K.run("C25.result", result.__doc__, "wp::wp_meta::wp_result_elem_extract_" + name, exit=pex)


FSTOP = q("""wp::find_page_set_meta wp::wp_meta::register_wp_result_and_remove_wp wp::wp_meta::remove_wp
ongoing_tx::remove_id read_plan::remove_elem session::clean_up garbage::set_dirty tid_word::lock tid_word::unlock
Record::set_tid session::set_tx_state_if_valid long_tx::update_read_area epoch::get_global_epoch
long_tx::check_wait_for_preceding_bt long_tx::verify ongoing_tx::exist_wait_for long_tx::register_read_by session::set_result
session::commit_sequence lpwal::flush_log session::call_commit_callback bg_work::bg_commit::register_tx read_plan::add_elem
session::extract_wait_for lpwal::handler::push_log point_read_by_long::is_exist range_read_by_long::is_exist Record::set_latest
point_read_by_long::push range_read_by_long::push version::version version::set_value Record::set_value version::set_tid version::set_next
write_set_obj::get_value Record::get_key result_info::set_key_storage_name get_tx_id""")


def finish(K):
    """a finished long transaction records the outcome of each preserve it holds and removes it"""
    OK = K.S("OK")
    R = M + "register_wp_result_and_remove_wp"

    def found(a, b):
        """comparison of a looked-up entry with the end of its map"""
        return b is not None and {x.kind for x in (a, b)} == {"it"} and a.args[0] is b.args[0] and any(
            isinstance(x.args[1], tuple) and x.args[1][0] == "find" for x in (a, b))

    def finds(X, st, v):
        """Does the flag say that something was written?  None: it does not depend on the lookup."""
        c = X.const(st, v)
        h = st.ps.get("hit")
        if c is not None:
            return c if h is None or bool(c) == bool(h) else None
        neg = v.kind == "op" and v.args[0] == "!"
        w = v.args[1] if neg else v
        if w.kind == "op" and w.args[0] == "==" and found(w.args[1], w.args[2]):
            return (h if h is not None else 0) if neg else None
        return 0 if v.kind in ("u", "r") else None

    def reg(X, st, e):
        X.ob()
        st.ps["done"] = 1
        v = X.arg(st, e, 0)
        if not in_container(X.recv(st, e), "wp_set_"):
            X.bad(st, e, "removes a preserve from a table that is not in the transaction's list")
        if v is None or v.kind != "tup" or len(v.args) != 4:
            return
        if not ld_is(v.args[0], "valid_epoch_") and not (is_aload(v.args[0]) and loc_is(v.args[0].args[3], "valid_epoch_")):
            X.bad(st, e, "the outcome does not carry the transaction's order epoch")
        if not ld_is(v.args[1], "long_tx_id_") and not (is_aload(v.args[1]) and loc_is(v.args[1].args[3], "long_tx_id_")):
            X.bad(st, e, "the outcome does not carry the transaction's identity")
        c = X.const(st, v.args[2])
        if c is not None and c != X.committed:
            X.bad(st, e, "the outcome says %s" % ("committed for an aborted transaction" if c else "aborted for a committed one"))
        w = v.args[3]
        if w.kind == "tup" and len(w.args) == 3 and X.committed:
            hit = finds(X, st, w.args[0])
            if hit is None:
                X.bad(st, e, "the outcome does not tell whether the storage was written")
            if hit:
                if tail(w.args[1]) not in (None, "#0") or w.args[1].kind == "str" or tail(w.args[2]) not in (None, "#1"):
                    X.bad(st, e, "the outcome does not carry the first and last key written")

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if is_result(a, SK + "wp::find_page_set_meta") and o == "==" and b.kind == "c" and b.args[0] == OK and not t:
            st.ps["gone"] = 1
        if found(a, b):
            st.ps["hit"] = int(not t)
        if o == "==" and {x.kind for x in (a, b)} & {"a"} or o == "==" and in_container(a, "wp_set_") or o == "==" and b is not None and in_container(b, "wp_set_"):
            if not t:
                st.ps["gone"] = 1

    def clean(X, st, e):
        X.ob()
        if not st.ps.get("done") and not st.ps.get("gone"):
            X.bad(st, e, "forgets the transaction's preserves without removing them from their tables")

    for root, com in (("long_tx::abort", 0), ("long_tx::commit", 1)):
        K.run("C25.finish", finish.__doc__, root, minimum=3, stop=FSTOP | (q("long_tx::abort") if com else frozenset()),
              committed=com, nonempty=True, once=True, branch=branch,
              call={R: reg, SK + "session::clean_up": clean}, merge_block=40)


def preserve(K):
    """declaring preserves registers each with the given epoch and identity and lists it, or takes all back"""
    OK = K.S("OK")

    def reg(X, st, e):
        X.ob()
        a, b = X.arg(st, e, 0), X.arg(st, e, 1)
        if not is_param(a, 3) or not is_param(b, 2):
            X.bad(st, e, "registers a preserve with another epoch or identity")
        st.ps["reg"] = 1
        st.ps.pop("res", None)
        st.ps["tab"] = X.recv(st, e)

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if is_result(a, M + "register_wp") and o == "==" and b.kind == "c" and b.args[0] == OK:
            st.ps["res"] = int(t)
        if a.kind == "r" and a.args[0].startswith("yakushima::get") and o == "==" and not t:
            st.ps["nostorage"] = 1

    def listed(X, st, e):
        if e.recv is not None and loc_is(e.recv[1], "wp_set_") and short(e.name) in ("emplace_back", "push_back", "emplace", "insert"):
            X.ob()
            if st.ps.get("res") != 1:
                X.bad(st, e, "lists a preserve that was not registered")
            st.ps["listed"] = 1

    def rem(X, st, e):
        X.ob()
        st.ps["removed"] = 1
        if not is_param(X.arg(st, e, 0), 2) or not in_container(X.recv(st, e), "wp_set_"):
            X.bad(st, e, "takes back something else than the preserves of this transaction")

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if c == OK:
            if ps.get("nostorage"):
                X.badfn(st, fn, "succeeds although a storage to preserve does not exist")
            if not ps.get("reg") or ps.get("res") != 1:
                X.badfn(st, fn, "succeeds without registering the preserve")
            elif not ps.get("listed"):
                X.badfn(st, fn, "succeeds without listing the preserve for removal")
        elif c is not None and not ps.get("removed"):
            X.badfn(st, fn, "fails without taking back the preserves registered so far")
    K.run("C25.preserve", preserve.__doc__, "wp::write_preserve", minimum=6, nonempty=True, once=True,
          stop=q("wp::wp_meta::register_wp wp::wp_meta::remove_wp session::clean_up result_info::set_storage_name"),
          call={M + "register_wp": reg, M + "remove_wp": rem}, anycall=listed, branch=branch, exit=ex)


def ranges(K):
    """written ranges are kept under the transaction's identity"""
    def call(X, st, e):
        if e.recv is None or not loc_is(e.recv[1], "write_range_"):
            return
        n = short(e.name)
        if n in ("emplace", "insert", "erase", "find", "insert_or_assign", "try_emplace", "operator[]"):
            X.ob()
            w = n != "find"
            if not X.eng.held(st, "mtx_write_range_", "x" if w else None):
                X.bad(st, e, "uses the written ranges without their lock")
            vs = [X.V(st, a) for a in e.args]
            if vs and not is_param(vs[0], 0):
                X.bad(st, e, "keeps a range under something else than the identity given")
            st.ps["did"] = n
            if n in ("emplace", "try_emplace", "insert_or_assign") and len(vs) > 1 and vs[1].kind == "tup" and len(vs[1].args) == 2:
                if not (is_param(vs[1].args[0], 1) and is_param(vs[1].args[1], 2)):
                    X.bad(st, e, "does not keep the first and last key in this order")

    def wr(X, st, e):
        for i, f in ((1, "#0"), (2, "#1")):
            if e.loc is not None and e.loc.kind == "d" and is_param(e.loc, i) and X.fnname.endswith("read_write_range"):
                X.ob()
                if tail(e.val) not in (None, f):
                    X.bad(st, e, "answers with the wrong end of the range")
                st.ps["out%d" % i] = 1

    def ex(X, st, v, fn):
        X.ob()
        if not st.ps.get("did"):
            X.badfn(st, fn, "does not touch the written ranges")
        if X.fnname.endswith("read_write_range"):
            c = X.const(st, v)
            if c == 1 and not (st.ps.get("out1") and st.ps.get("out2")):
                X.badfn(st, fn, "reports a range without giving it")
    for f in ("push_write_range", "remove_write_range", "read_write_range"):
        K.run("C25.range", ranges.__doc__, "wp::wp_meta::" + f, minimum=2, anycall=call, anywrite=wr, exit=ex, fnname=f)


def shrink(K):
    """at a commit request only preserves of storages that were not written are given up"""
    OK = K.S("OK")

    def branch(X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and a is not None and b is not None:
            for x, y in ((a, b), (b, a)):
                if in_container(x, "wp_set_") and mentions(x, lambda z: z.kind == "f" and z.args[1] == "#0") \
                        and not mentions(y, lambda z: z.kind == "a"):
                    if t and not in_container(y, "wp_set_"):
                        st.ps["written"] = 1
        if is_result(a, M + "remove_wp_without_lock") and o == "==" and b.kind == "c" and b.args[0] == OK:
            st.ps["res"] = int(t)

    def rem(X, st, e):
        X.ob()
        if st.ps.get("written"):
            X.bad(st, e, "gives up the preserve of a storage the transaction wrote")
        v = X.arg(st, e, 0)
        if v is not None and not mentions(v, lambda x: x.kind == "f" and short(x.args[1]) == "long_tx_id_"):
            X.bad(st, e, "gives up a preserve of another transaction")
        st.ps["rem"] = 1

    def unl(X, st, e):
        if st.ps.pop("erased", None):
            pass

    def er(X, st, e):
        if e.recv is not None and loc_is(e.recv[1], "wp_set_") and short(e.name) == "erase":
            X.ob()
            if not st.ps.get("rem") or st.ps.get("res") == 0:
                X.bad(st, e, "forgets a preserve that is still in its table")

    def rng(X, st, e):
        X.ob()
        vs = [X.arg(st, e, i) for i in range(3)]
        if None not in vs and (tail(vs[1]) == "#1" or tail(vs[2]) == "#0"):
            X.bad(st, e, "announces the wrong range of written keys")
        st.ps["range"] = 1

    def ex(X, st, v, fn):
        X.ob()
        if st.ps.get("rem") and st.ps.get("written"):
            X.badfn(st, fn, "gives up the preserve of a storage the transaction wrote")
    K.run("C25.shrink", shrink.__doc__, "long_tx::update_wp_at_commit", minimum=2, nonempty=True, once=True,
          stop=LOCKS | q("wp::wp_meta::remove_wp_without_lock wp::find_page_set_meta wp::wp_meta::push_write_range"),
          branch=branch, call={M + "remove_wp_without_lock": rem, M + "push_write_range": rng}, anycall=er, exit=ex)
