"""Which harnesses decide which property."""

CM = "src/cycle_map.rs"
PM = "src/partial_cycle_map.rs"
GM = "src/group_map.rs"

STATES_CM = ("one-to-one map: every map of at most 3 pairs out of 4 left and 4 right items, every hash "
             "function on these items")
STATES_PM = ("partial map: every map of at most 3 left and 3 right items (absent, single, or paired "
             "by index) out of 4 + 4 items, every hash function on these items")
STATES_GM = ("group map: groups of sizes 2, 1 and 0 out of 4 left and 4 right items, "
             "every hash function on these items")
CHOICES = ("every argument out of the 4 left / 4 right items, absent ones included; every free slot "
           "(first or last) and rehash that hashbrown's contract allows, tables of at most 4 elements")
LISTS_PM = ("lists of kinds (absent, left, right, both, pair), up to 3 indices, three hash functions "
            "(all differ / same top bits / all equal); maps of one or two entries: every hash function")


def masks(name, *more):
    return [name + "_masks_%d" % i for i in (0, 1, 2)] + [name + "_" + m for m in more]


def halves(name, *more):
    return [name + "_masks_%d_%s" % (i, k) for i in (0, 1, 2) for k in ("low", "high")] + [name + "_" + m for m in more]


PROPS = {
    "C01": dict(
        quick=["cm_lookups", "cm_constructors"],
        bounds=[STATES_CM, CHOICES]),
    "C02": dict(
        quick=["cm_insert", "cm_extend", "cm_from_iter"],
        bounds=[STATES_CM, CHOICES, "extend/collect: two arbitrary pairs, onto a map of one pair / an empty map"]),
    "C03": dict(
        quick=["cm_remove", "cm_remove_via_left", "cm_remove_via_right", "cm_clear"],
        bounds=[STATES_CM, CHOICES]),
    "C04": dict(
        quick=["cm_swap_left", "cm_swap_right", "cm_swap_left_checked", "cm_swap_right_checked",
               "cm_swap_left_or_insert_old", "cm_swap_left_or_insert_new",
               "cm_swap_right_or_insert_old", "cm_swap_right_or_insert_new"],
        bounds=[STATES_CM, CHOICES]),
    "C05": dict(
        quick=["cm_retain", "cm_retain_2"],
        bounds=["maps of 3 pairs: every predicate; smaller maps: a choice of predicates", CHOICES]),
    "C06": dict(
        quick=["cm_drain", "cm_drain_filter_0", "cm_drain_filter_1", "cm_drain_filter_all"],
        bounds=[STATES_CM, "drain: dropped after any number of items; drain_filter: maps of 3 pairs, every "
                "predicate, dropped after 0, 1 or all items", CHOICES]),
    "C07": dict(
        quick=["cm_iter", "cm_iter_left", "cm_iter_right", "cm_iter_rest"],
        bounds=[STATES_CM, "every prefix of the iteration, continued on a clone every other step"]),
    "P01": dict(
        quick=["pm_lookups", "pm_constructors"],
        bounds=[STATES_PM, CHOICES]),
    "P02": dict(
        quick=["pm_insert", "pm_insert_left", "pm_insert_right", "pm_extend_pairs", "pm_extend_ops",
               "pm_from_iter_pairs", "pm_from_iter_ops"],
        bounds=[STATES_PM, CHOICES, "extend/collect: two arbitrary entries, onto a map of one pair / an empty map"]),
    "P03": dict(
        quick=["pm_pair", "pm_pair_forced", "pm_pair_forced_remove", "pm_unpair"],
        bounds=[STATES_PM, CHOICES]),
    "P04": dict(
        quick=["pm_remove", "pm_remove_left", "pm_remove_right", "pm_remove_via_left",
               "pm_remove_via_right", "pm_clear"],
        bounds=[STATES_PM, CHOICES]),
    "P05": dict(
        quick=["pm_swap_left", "pm_swap_right", "pm_swap_left_checked", "pm_swap_right_checked",
               "pm_swap_left_or_insert_old", "pm_swap_left_or_insert_new",
               "pm_swap_right_or_insert_old", "pm_swap_right_or_insert_new"],
        bounds=[STATES_PM, CHOICES]),
    "P06": dict(
        quick=["pm_retain_masks_3"] + masks("pm_retain", "some", "tiny")
        + masks("pm_retain_paired", "some", "tiny") + masks("pm_retain_unpaired", "some", "tiny"),
        thorough=["pm_retain_large"],
        pinned=True,
        bounds=[LISTS_PM, "every predicate on the map of one pair and one index with both items single", CHOICES]),
    "P07": dict(
        quick=["pm_drain_0", "pm_drain_1", "pm_drain_2", "pm_drain_all",
               "pm_drain_filter_tiny_0", "pm_drain_filter_tiny_1", "pm_drain_filter_tiny_all",
               "pm_drain_filter_some_0", "pm_drain_filter_some_1", "pm_drain_filter_some_all"],
        thorough=["pm_drain_filter_masks_%s_%d" % (k, i) for k in ("0", "1", "all") for i in range(4)]
        + ["pm_drain_filter_large_" + k for k in ("0", "1", "all")],
        bounds=[LISTS_PM, "dropped after 0, 1, 2 (drain) or all entries", CHOICES]),
    "P08": dict(
        quick=["pm_iter", "pm_iter_hashes", "pm_iter_paired", "pm_iter_paired_hashes", "pm_iter_unpaired",
               "pm_iter_unpaired_hashes", "pm_iter_sides", "pm_iter_sides_hashes", "pm_iter_rest"],
        bounds=[LISTS_PM, "every prefix of the iteration, continued on a clone every other step"]),
    "G01": dict(
        quick=["gm_lookups", "gm_constructors"],
        bounds=["group map: every map of at most 3 left and 3 right items, up to renaming",
                "every hash function on 4 left and 4 right items", CHOICES]),
    "G02": dict(
        quick=["gm_insert", "gm_insert_again", "gm_insert_remove", "gm_insert_left", "gm_insert_right"],
        pinned=["gm_insert_again"],
        bounds=[STATES_GM, CHOICES]),
    "G07": dict(
        quick=["gm_extend_pairs", "gm_extend_items_1", "gm_extend_items_2", "gm_extend_items_3",
               "gm_extend_items_4", "gm_from_iter_pairs", "gm_from_iter_items"],
        bounds=["two arbitrary entries, onto a map with a group of one and an empty group / an empty map", CHOICES]),
    "G03": dict(
        quick=["gm_pair", "gm_swap_right", "gm_swap_right_remove"],
        bounds=[STATES_GM, CHOICES]),
    "G04": dict(
        quick=["gm_remove", "gm_remove_left", "gm_remove_right", "gm_clear"],
        bounds=[STATES_GM, CHOICES]),
    "G05": dict(
        quick=halves("gm_retain_paired", "some", "tiny") + halves("gm_retain_unpaired", "some", "tiny"),
        jobs=6,
        pinned=True,
        bounds=["groups of sizes 2 and 1 (resp. 2, 0 and 0): every predicate, three hash functions; further "
                "maps of up to 3 groups: one predicate each; maps of one group: every hash function", CHOICES]),
    "G06": dict(
        quick=["gm_iter", "gm_iter_paired", "gm_iter_unpaired", "gm_iter_sides", "gm_iter_group", "gm_iter_rest"],
        bounds=[STATES_GM, "every prefix of the iteration, continued on a clone every other step"]),
    "E01": dict(
        quick=["cm_equality", "pm_equality", "gm_equality"],
        pinned=["pm_equality"],
        bounds=["two arbitrary maps: up to 3 arbitrary pairs each (one-to-one), up to 2 left and 2 right items "
                "each (others); the second map uses another hash builder", CHOICES]),
    "E02": dict(
        quick=["cm_clone", "cm_clone_from", "pm_clone", "pm_clone_from", "gm_clone_from", "gm_clone_insert", "gm_clone_remove", "gm_clone_remove_right"],
        bounds=["one arbitrary change after cloning: insertion or removal", STATES_CM, STATES_PM, STATES_GM]),
    "E03": dict(
        quick=["cm_capacity", "cm_room", "cm_room_2", "pm_capacity", "cm_constructors", "pm_constructors", "gm_constructors"],
        bounds=["capacities from 0 to usize::MAX (multiples of powers of two)", STATES_CM,
                "partial map: one layout", CHOICES]),
    "S01": dict(
        quick=["sd_serialize", "sd_serialize_error", "sd_deserialize_1", "sd_deserialize_2", "sd_deserialize_3",
               "sd_deserialize_error", "sd_round_trip_1", "sd_round_trip_2", "sd_round_trip_3"],
        bounds=["one-to-one map of at most 3 pairs; up to 3 arbitrary entries out of 4 + 4 items; "
                "announced numbers: none, or up to usize::MAX (multiples of powers of two)", CHOICES]),
    "D01": dict(
        quick=["ow_cm_insert", "ow_cm_remove", "ow_cm_remove_via", "ow_cm_swap_left",
               "ow_cm_swap_right", "ow_cm_swap_left_checked", "ow_cm_swap_right_checked", "ow_cm_swap_left_or_insert",
               "ow_cm_swap_right_or_insert", "ow_cm_retain", "ow_cm_drain", "ow_cm_drain_filter_0",
               "ow_cm_drain_filter_1", "ow_cm_drain_filter_all", "ow_cm_clear", "ow_cm_clone",
               "ow_cm_extend"],
        memory=True,
        bounds=["every map of at most 3 pairs (retain, drain_filter: of exactly 3), every hash function, every predicate", CHOICES]),
    "D02": dict(
        quick=["ow_pm_insert", "ow_pm_insert_one", "ow_pm_pair", "ow_pm_pair_forced",
               "ow_pm_pair_forced_remove", "ow_pm_remove", "ow_pm_remove_one", "ow_pm_remove_via",
               "ow_pm_swap_left", "ow_pm_swap_right", "ow_pm_swap_left_checked", "ow_pm_swap_right_checked",
               "ow_pm_swap_left_or_insert", "ow_pm_swap_right_or_insert", "ow_pm_retain_0", "ow_pm_retain_1",
               "ow_pm_retain_2", "ow_pm_retain_paired_0", "ow_pm_retain_paired_1", "ow_pm_retain_paired_2",
               "ow_pm_retain_unpaired_0", "ow_pm_retain_unpaired_1", "ow_pm_retain_unpaired_2", "ow_pm_drain",
               "ow_pm_drain_filter_0", "ow_pm_drain_filter_1", "ow_pm_drain_filter_all", "ow_pm_clear",
               "ow_pm_clone", "ow_pm_extend"],
        memory=True,
        bounds=["every map of at most two left and two right items (retain, drain, drain_filter: a pair and two single items; retain: three hash functions), every predicate", CHOICES]),
    "D03": dict(
        quick=["ow_gm_insert", "ow_gm_insert_remove", "ow_gm_insert_left", "ow_gm_insert_right",
               "ow_gm_pair", "ow_gm_swap_right", "ow_gm_swap_right_remove", "ow_gm_remove",
               "ow_gm_remove_left", "ow_gm_remove_right", "ow_gm_retain_paired", "ow_gm_retain_unpaired",
               "ow_gm_clear", "ow_gm_clone", "ow_gm_extend"],
        memory=True,
        bounds=["groups of sizes 2, 1 and 0 (retain_unpaired: 1, 0 and 0), every hash function, every predicate", CHOICES]),
    "O01": dict(
        quick=["op_queries", "op_maps", "op_clones", "op_conversions", "op_comparison"],
        bounds=["every value of every shape; items are two bytes each, with equality on one of them"]),
    "F01": dict(
        quick=["fm_one", "fm_one_iter", "fm_partial", "fm_partial_iter", "fm_group", "fm_group_iter",
               "fm_optional_pair"],
        bounds=["a one-to-one map of 3 pairs, partial maps of a pair and two single items, a group map with groups of sizes 2 and 0, every "
                "hash function; iterators after 0, 1 or 2 items; items are recognised in what is formatted, the "
                "text around them is not looked at", CHOICES]),
}

# Functions outside the encoding, for every property
OUTSIDE = [
    "hashbrown 0.12.3 is replaced by a bounded model of its contract (../model), which is run against the "
    "real one natively; the capacity of a table is bounded, and so is the number of items",
    "item types: one Copy type with a borrowed form; Hash, Eq and Borrow agree and do not panic",
    "unwinding: a panic in user code (predicates, Hash, Eq, Drop) is not modelled",
]
