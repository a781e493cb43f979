"""C09: short transactions never slip past an active write preserve."""
from rulekit import *
import ops
import c01

NOTE = ("every path of the calls by which a short transaction starts reading or changes data: no data is looked at before the "
        "storage's oldest write preserve was compared with the current epoch, a preserve in effect leads to an abort and its reason; "
        "commit compares again for every storage read")

LOOKS = q("""read_record scan iscan_open node_set::emplace_back session::push_to_read_set_for_stx
session::push_to_range_read_by_short_set get local_write_set::search scan_handler::create_scan_cache
scan_handler::create_scan_context session::update_node_set put try_deleted_to_inserting session::push_to_write_set
local_write_set::push""") | {"yakushima::iscan_open"}


def check(K):
    K.part("C09.reads", reads)
    K.part("C09.writes", writes)
    c01.commit(K, "C09.commit", "commit of a short transaction re-examines the write preserves of every storage it read against the "
               "commit epoch, equality counting as in effect", ("wp",), "write preserve")


def table(K, X, st, e):
    """The table examined belongs to the storage the caller named."""
    X.ob()
    v = X.arg(st, e, 0)
    st.ps["tab"] = v is not None and is_param(v, 1)
    for k in ("min0", "wpnow"):
        st.ps.pop(k, None)


def reads(K):
    """a read by a short transaction looks at data only after finding no write preserve in effect, and aborts otherwise"""
    W = ops.Watch(K)

    def look(X, st, e):
        if W.SHORT not in W.types(st):
            return
        X.ob()
        ps = st.ps
        if e.name == SK + "get" and ps.get("storage") is None and W.types(st) != {W.SHORT}:
            return
        c = W.conflict(ps)
        if c:
            X.bad(st, e, "%s: %s although a write preserve in effect was found" % (X.root, short(e.name)))
        elif c is None:
            X.bad(st, e, "%s: %s although a write preserve may be in effect" % (X.root, short(e.name)))
        elif not ps.get("tab"):
            X.bad(st, e, "%s: %s after examining the write preserves of another storage" % (X.root, short(e.name)))

    def abort(X, st, e):
        st.ps["ab"] = 1

    def res(X, st, e):
        st.ps["why"] = X.const(st, X.V(st, e.args[0]))

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if not W.conflict(ps) or W.types(st) != {W.SHORT} and not ps.get("ab"):
            return
        if not ps.get("ab"):
            X.badfn(st, fn, "%s: does not abort the reader although a write preserve in effect was found" % X.root)
        if c is not None and c != K.S("ERR_CC"):
            X.badfn(st, fn, "%s: returns %s although a write preserve in effect was found" % (X.root, K.status_name(c)))
        if ps.get("why") != K.RC("CC_OCC_WP_VERIFY"):
            X.badfn(st, fn, "%s: the reason of the abort does not say that it was a write preserve" % X.root)

    def tab(X, st, e):
        table(K, X, st, e)
    calls = {n: look for n in LOOKS}
    calls.update({SK + "wp::find_wp_meta": tab, SK + "wp::find_wp": tab, SK + "short_tx::abort": abort,
                  SK + "session::set_result": res})
    for r in ops.READS:
        K.run("C09.reads", reads.__doc__, r, minimum=6, stop=ops.STOP | q("session::set_result"), call=calls, branch=W.branch, exit=ex,
              root=r, merge_block=200, merge_exits=100)


def writes(K):
    """insert, update and delete of a short transaction are refused while the storage carries a write preserve"""
    W = ops.Watch(K)
    CONF = K.S("WARN_CONFLICT_ON_WRITE_PRESERVE")

    def look(X, st, e):
        if W.SHORT not in W.types(st):
            return
        X.ob()
        ps = st.ps
        if not ps.get("min0"):
            X.bad(st, e, "%s: %s although the storage may carry a write preserve" % (X.root, short(e.name)))
        elif not ps.get("tab"):
            X.bad(st, e, "%s: %s after examining the write preserves of another storage" % (X.root, short(e.name)))

    def tab(X, st, e):
        table(K, X, st, e)

    def ex(X, st, v, fn):
        X.ob()
        ps = st.ps
        c = X.const(st, v)
        if W.types(st) == {W.SHORT} and ps.get("min0") is False and c is not None and c != CONF and X.root != "upsert":
            X.badfn(st, fn, "%s: returns %s although the storage carries a write preserve" % (X.root, K.status_name(c)))
        if c == CONF and (ps.get("min0") is not False or W.types(st) != {W.SHORT}):
            X.badfn(st, fn, "%s: is refused for a write preserve that was not found" % X.root)
        if c == CONF and X.root == "upsert":
            X.badfn(st, fn, "upsert: does not depend on existing data but is refused for a write preserve")
    for r in ops.WRITES:
        calls = {SK + "wp::find_wp_meta": tab, SK + "wp::find_wp": tab}
        if r != "upsert":
            calls.update({n: look for n in LOOKS})
        K.run("C09.writes", writes.__doc__, r, minimum=4, stop=ops.STOP, call=calls, branch=W.branch, exit=ex, root=r, merge_block=200, merge_exits=100)
