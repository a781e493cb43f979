"""Shared by C30 and C14: how committing transactions expose and log their writes."""
from rulekit import *

SSTOP = q("""short_tx::abort session::clean_up garbage::set_dirty lpwal::flush_log session::commit_sequence get
session::set_result session::call_commit_callback tid_word::lock tid_word::unlock Record::set_tid Record::set_latest
Record::set_value Record::get_value Record::unlock epoch::get_global_epoch wp::find_wp_meta wp::wp_meta::find_min_ep
wp::wp_meta::get_wped local_write_set::search node_set::node_verify local_write_set::sort_if_ol
session::lock_short_expose_ongoing session::unlock_short_expose_ongoing_and_refresh_epoch lpwal::handler::push_log
write_set_obj::get_value Record::get_key read_record result_info::set_key_storage_name session::set_mrc_tid
write_set_obj::set_rec_ptr version::set_tid version::set_value version::version version::set_next""")
LSTOP = SSTOP | q("""long_tx::abort long_tx::wp_verify_and_forwarding ongoing_tx::remove_id ongoing_tx::exist_id
wp::find_page_set_meta long_tx::update_local_read_range ongoing_tx::waiting_bypass ongoing_tx::exist_wait_for
read_plan::remove_elem wp::wp_meta::register_wp_result_and_remove_wp long_tx::verify long_tx::update_read_area
long_tx::check_wait_for_preceding_bt long_tx::register_read_by long_tx::verify_kvs_error long_tx::verify_insert
range_read_by_long::push point_read_by_long::push""")


def wso_of(loc):
    """Location of the write set entry whose record `loc` designates."""
    if loc is None:
        return None
    if loc.kind == "d" and loc.args[0].kind == "ld":
        f = loc.args[0].args[0]
        if f.kind == "f" and short(f.args[1]) == "rec_ptr_":
            return f.args[0]
        if f.kind == "f" and f.args[1] == "#0":
            return mk("f", f.args[0], "#1")
    return None


def is_wval(t):
    return mentions(t, lambda x: (x.kind == "o" and x.args[0] == SK + "write_set_obj::get_value")
                    or (x.kind == "f" and short(x.args[1]) == "val_"))


def split(t):
    """(base, overridden fields) of a record value."""
    over = {}
    while t.kind == "rec":
        for f, v in t.args[1]:
            over.setdefault(short(f), v)
        t = t.args[0]
    return t, over


def rec_tid(t, rec):
    """Is t the stamp currently stored in record location rec?"""
    if t.kind == "ld" and loc_is(t.args[0], "tidw_"):
        return rec is None or t.args[0].args[0] is rec
    if is_aload(t) and loc_is(t.args[3], "tidw_"):
        return rec is None or t.args[3].args[0] is rec
    return False
