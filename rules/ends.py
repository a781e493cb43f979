"""What of a session's per-transaction state has been dropped on a path; shared by C10 and C21."""
from rulekit import *

SETS = ("node_set_ range_read_set_for_ltx_ ltx_storage_read_set_ range_read_by_short_set_ read_set_for_stx_ read_set_for_ltx_ wp_set_ "
        "cont_for_occ_ cont_for_bt_ storage_map_ overtaken_ltx_set_ sequence_set_ allocated_ allocated_i_").split()
FLAGS = "tx_began_ valid_epoch_ long_tx_id_ read_version_max_epoch_ was_considering_forwarding_at_once_ is_forwarding_".split()
WHAT = {"node_set_": "the visited index nodes", "range_read_set_for_ltx_": "the ranges read", "ltx_storage_read_set_": "the read ranges per storage",
        "range_read_by_short_set_": "the ranges read", "read_set_for_stx_": "the read set", "read_set_for_ltx_": "the read set",
        "wp_set_": "the write preserves", "cont_for_occ_": "the write set", "cont_for_bt_": "the write set",
        "storage_map_": "the storages written", "overtaken_ltx_set_": "the transactions it has overtaken",
        "sequence_set_": "the sequence updates", "allocated_": "the open scans", "allocated_i_": "the open scans",
        "tx_began_": "the mark of a running transaction", "valid_epoch_": "the epoch of the transaction", "long_tx_id_": "the identifier of the transaction",
        "read_version_max_epoch_": "the newest version read", "was_considering_forwarding_at_once_": "the mark of having overtaken others",
        "is_forwarding_": "the mark of being ordered before others", "read_area_": "the read area"}
COMMON = ("tx_began_", "allocated_", "allocated_i_")
NEED = {"SHORT": COMMON + ("node_set_", "range_read_by_short_set_", "read_set_for_stx_", "cont_for_occ_", "storage_map_", "sequence_set_"),
        "LONG": COMMON + ("range_read_set_for_ltx_", "ltx_storage_read_set_", "read_set_for_ltx_", "wp_set_", "cont_for_bt_", "storage_map_",
                          "overtaken_ltx_set_", "sequence_set_", "read_area_", "valid_epoch_", "long_tx_id_", "read_version_max_epoch_",
                          "was_considering_forwarding_at_once_", "is_forwarding_"),
        "READ_ONLY": COMMON + ("valid_epoch_", "long_tx_id_")}


def names(loc):
    while loc is not None and loc.kind == "f":
        yield short(loc.args[1])
        loc = loc.args[0]


class Drop:
    def __init__(self, K):
        self.ty = {n: K.eng.enum("shirakami::transaction_options::transaction_type", n) for n in ("SHORT", "LONG", "READ_ONLY")}

    def anycall(self, X, st, e):
        n = short(e.name)
        if not e.recv:
            return
        loc = e.recv[1]
        if n in ("clear", "swap", "erase") and e.name.startswith("std::") or n == "operator=":
            for f in names(loc):
                if f in SETS or f == "read_area_":
                    st.ps["d " + f] = 1

    def write(self, X, st, e):
        for f in names(e.loc):
            if f in FLAGS:
                if X.const(st, e.val) == 0:
                    st.ps["d " + f] = 1
                else:
                    st.ps.pop("d " + f, None)
            elif f in SETS or f == "read_area_":
                if e.loc.kind == "f" and short(e.loc.args[1]) in (f, "set_") and e.val.kind in ("init", "rec"):
                    st.ps["d " + f] = 1
            break

    def branch(self, X, st, e):
        o, a, b, t = atom(e.val, e.extra)
        if o == "==" and t and a.kind == "it" and b.kind == "it":
            for f in names(a.args[0]):
                if f in ("allocated_", "allocated_i_"):
                    st.ps["d " + f] = 1

    def missing(self, st, kind):
        for t, c in st.eq.items():
            if ld_is(t, "tx_type_") and c != self.ty[kind]:
                return []
        return [f for f in NEED[kind] if not st.ps.get("d " + f)]
