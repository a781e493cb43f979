"""What a data operation learns about its session, storage and record, path by path; shared by several properties."""
from rulekit import *

WRITES = ("insert", "upsert", "update", "delete_record")
POINTS = ("search_key", "exist_key")
CURSORS = ("next", "read_key_from_scan", "read_value_from_scan", "close_scan", "scannable_total_index_size")
READS = POINTS + ("open_scan",)
KEYS = {"open_scan": (2, 4)}
STOP = q("""get put scan iscan_open local_write_set::search local_write_set::erase session::push_to_write_set write_set_obj::set_op
write_set_obj::set_val write_set_obj::set_lobs try_deleted_to_inserting garbage::set_dirty short_tx::abort long_tx::abort
read_only_tx::abort session::update_node_set wp::find_page_set_meta wp::find_wp_meta wp::find_wp read_record tid_word::lock
tid_word::unlock write_set_obj::get_value write_set_obj::get_key session::push_to_read_set_for_stx
local_read_set_for_ltx::push check_constraint_key_length session::process_before_start_step
session::process_before_finish_step local_write_set::push write_set_obj::write_set_obj
long_tx::version_function_with_optimistic_check long_tx::version_function_without_optimistic_check
long_tx::version_traverse_and_read long_tx::check_read_area long_tx::wp_verify_and_forwarding
long_tx::update_local_read_range session::find_high_priority_short node_set::emplace_back
wp::wp_meta::get_wped wp::wp_meta::find_min_ep epoch::get_global_epoch Record::get_key version::get_value
session::insert_to_ltx_storage_read_set scan_handler::check_valid_scan_handle session::push_to_range_read_by_short_set
session::check_exist_wp_set scan_handler::create_scan_cache scan_handler::create_scan_context scan_handler::delete_scan_cache
scan_handler::delete_scan_context check_empty_scan_range Record::get_value range_read_set_for_ltx::insert""") | {
    "yakushima::iscan_open", "yakushima::iscan_next", "yakushima::iscan_close"}
# anything of these changes the database or what the transaction remembers, or looks at data
EFFECTS = q("""session::push_to_write_set local_write_set::push local_write_set::erase write_set_obj::set_op write_set_obj::set_val
write_set_obj::set_lobs put try_deleted_to_inserting session::push_to_read_set_for_stx local_read_set_for_ltx::push
session::push_to_range_read_by_short_set session::insert_to_ltx_storage_read_set node_set::emplace_back
session::update_node_set range_read_set_for_ltx::insert long_tx::update_local_read_range long_tx::wp_verify_and_forwarding read_record
long_tx::version_traverse_and_read long_tx::version_function_with_optimistic_check scan iscan_open
scan_handler::create_scan_cache scan_handler::create_scan_context scan_handler::delete_scan_cache
scan_handler::delete_scan_context""") | {"yakushima::iscan_open", "yakushima::iscan_next", "yakushima::iscan_close"}
ABORTS = q("short_tx::abort long_tx::abort read_only_tx::abort")


def two(o, b, t, good):
    """A status with two outcomes was compared: is it the good one?"""
    if o != "==" or b is None or b.kind != "c":
        return None
    return t if b.args[0] == good else not t


class Watch:
    """Detectors filling in the path's knowledge (ps)."""

    def __init__(self, K):
        self.K = K
        self.OKV = K.S("OK")
        self.AREA = K.S("ERR_READ_AREA_VIOLATION")
        self.PRE = K.S("WARN_PREMATURE")
        ty = SK + "transaction_options::transaction_type"
        self.SHORT, self.LONG, self.RO = (K.eng.enum(ty, n) for n in ("SHORT", "LONG", "READ_ONLY"))

    def types(self, st):
        have = {self.SHORT, self.LONG, self.RO}
        for t, c in st.eq.items():
            if ld_is(t, "tx_type_"):
                have &= {c}
        for t, cs in st.ne.items():
            if ld_is(t, "tx_type_"):
                have -= set(cs)
        return have

    @staticmethod
    def at_field(t, f):
        return is_aload(t) and loc_is(t.args[3], f) or ld_is(t, f)

    def glob(self, t):
        return is_result(t, SK + "epoch::get_global_epoch") or is_aload(t) and t.args[3].kind == "g"

    def branch(self, X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        ps = st.ps
        OK = self.OKV
        if o == "==" and a.kind == "c" and b.kind != "c":
            a, b = b, a
        if self.at_field(a, "tx_began_"):
            if o == "t":
                ps["began"] = t
            elif o == "==" and b.kind == "c":
                ps["began"] = t == bool(b.args[0])
        if a.kind == "r":
            n = short(a.args[0])
            r = two(o, b, t, OK)
            if n == "check_constraint_key_length" and r is not None:
                for k in [k for k, v in ps.items() if k.startswith("kl") and v is a]:
                    ps["key" + k[2:]] = r
            elif n == "find_wp_meta" and r is not None:
                ps["storage"] = r
            elif n == "check_read_area" and r is not None:
                ps["area"] = r
            elif n == "check_valid_scan_handle" and r is not None:
                ps["handle"] = r
            elif n in ("emplace_back", "update_node_set") and r is not None:
                if b.args[0] == self.K.S("ERR_CC"):
                    ps["node"] = not t
                elif n == "update_node_set" and b.args[0] == OK:
                    ps["mine"] = t
                elif b.args[0] == OK:
                    ps["node"] = t
                elif t:
                    ps["node"] = False
            elif n == "find_high_priority_short" and o == "==" and b.kind == "c":
                ps["high"] = t if b.args[0] == self.PRE else not t if b.args[0] == OK else None
            elif n == "check_exist_wp_set":
                ps["wpset"] = t if o == "t" else (t == bool(b.args[0]) if b.kind == "c" else None)
            elif n == "find_min_ep":
                if o == "t":
                    ps["min0"] = not t
                elif o == "==" and b is ZERO:
                    ps["min0"] = t
                elif o == "<" and self.glob(b):
                    # min < global: says nothing about equality
                    ps["strict"] = 1
                    if t:
                        ps["wpnow"] = True
            elif n == "get" and a.args[0] == SK + "get":
                if r is not None and b.args[0] == OK:
                    ps["got"] = t
                elif o == "==" and b.kind == "c" and t:
                    ps["got"] = False
            elif n == "read_record" and o == "==" and b.kind == "c":
                if t:
                    ps["rr"] = b.args[0]
                else:
                    ps["rrne"] = tuple(sorted(set(ps.get("rrne", ())) | {b.args[0]}))
            elif n == "search" and a.args[0] == SK + "local_write_set::search":
                if o == "t":
                    ps["own"] = t
                elif o == "==" and b is ZERO:
                    ps["own"] = not t
            elif n == "try_deleted_to_inserting" and o == "==" and b.kind == "c":
                if t:
                    ps["conv"] = b.args[0]
        if o == "<" and self.glob(a) and b.kind == "r" and short(b.args[0]) == "find_min_ep":
            ps["wpnow"] = not t
        if ld_is(a, "reason_code_") and o == "==" and b.kind == "c":
            # another thread of the transaction met an error
            ps["doomed"] = t != (b.args[0] == self.K.RC("UNKNOWN"))
        if o == "<" and self.glob(a) and self.at_field(b, "valid_epoch_"):
            ps["early"] = t
        for k, w in getattr(X, "more", {}).items():
            w(X, st, e, o, a, b, t)

    def after(self):
        def kl(X, st, e):
            v = X.arg(st, e, 0)
            for i in range(8):
                if v is not None and is_param(v, i):
                    st.ps["kl%d" % i] = e.val
        return {SK + "check_constraint_key_length": kl}

    def conflict(self, ps):
        """A write preserve in effect was found (True), none (False), or not known (None)."""
        if ps.get("min0"):
            return False
        if ps.get("wpnow") is False:
            return False
        if ps.get("min0") is False and ps.get("wpnow"):
            return True
        return None

