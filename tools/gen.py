#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after a change; no check runs it."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

CM, PM, GM, OP, SE = ("src/cycle_map.rs", "src/partial_cycle_map.rs", "src/group_map.rs",
                      "src/optionals.rs", "src/serde.rs")
IN, HI, CO, PR = "inputs", "histories", "configurations", "programs"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, hook=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["observe_at"] = observe or ["return values and later lookups of the public API"]
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


ST_CM = [("left_set, right_set", "one table per side; every entry stores the hash of its partner and an id", CM),
         ("counter", "the id of the next pair", CM)]
ST_PM = [("left_set, right_set", "one table per side; an entry stores an id and, if it is paired, its partner's hash", PM),
         ("counter", "the id of the next item", PM)]
ST_GM = [("left_set", "left items with the hash and id of their right item", GM),
         ("right_set", "right items with the set of (hash, id) of their left items", GM),
         ("left_counter, right_counter", "the ids of the next items", GM)]
HOOK = "cfg(cycle_map_verif): read-only walk over the tables, to state that ids and stored hashes stay consistent; verif_skip moves the id counters on, as a longer history would"
TESTS = ("The tests use a few dozen small integers and strings with one hash function, without colliding hashes "
         "and in one order of operations; ")

prop("C01", "One-to-one map: lookups report exactly the stored pairs",
     "In a one-to-one map, looking up any left item finds exactly the right item it was stored with and the other way round, "
     "whether the key is an item or its borrowed form; absent items are reported absent, and two items are reported as paired "
     "if and only if they were stored together. The number of pairs and emptiness agree with that. Colliding hashes make no difference.",
     [IN, HI, CO], "every map, every key (present or absent), every hash function, collisions included",
     TESTS + "a lookup that trusts a hash or an id alone answers wrongly only under collisions that no test has.",
     [CM], [("lookup by hash, then by partner's hash and id", CM + ": get_left, get_right, contains_*, are_paired"),
            ("comparison of hash and id", CM + ": hash_and_id")], ST_CM)
prop("C02", "One-to-one map: insertion keeps the bijection and returns what it displaced",
     "After inserting a pair, its two items are paired with each other, every pair that contained an equal left or right item is gone as a whole, "
     "all other pairs are untouched, and the call returns exactly the displaced pairs. Extending or collecting from a list gives the same map "
     "as inserting its pairs one by one, so of conflicting pairs the last one wins.",
     [IN, HI], "every map and every pair, with any combination of items that are already there, any hash function",
     TESTS + "there are four ways in which the new items can meet old pairs, times collisions and rehashing.",
     [CM], [("removal of both old pairs, then insertion under a fresh id", CM + ": insert, Extend, FromIterator")], ST_CM, HOOK)
prop("C03", "One-to-one map: removal takes exactly the named pair",
     "Removing by left item, by right item or by pair removes exactly the pair in question and returns its stored items; a removal by pair does nothing "
     "unless the two items are paired with each other; clearing removes everything. Nothing else changes.",
     [IN, HI], "every map, every argument, any hash function",
     TESTS + "removing by stored hash and id can take the wrong entry of the other side only when hashes collide.",
     [CM], [("removal on both sides", CM + ": remove, remove_via_left, remove_via_right, clear")], ST_CM, HOOK)
prop("C04", "One-to-one map: swapping an item keeps its partner and reports what it displaced",
     "Swapping replaces an item by a new one that inherits its partner, returns the old item, and removes and returns the pair that contained an item equal to the new one, "
     "if there was another one. If the old item is absent (or, in the checked variants, not paired with the expected item) nothing changes and nothing is "
     "returned, or the new pair is inserted in the inserting variants. No other pair is touched.",
     [IN, HI], "every map and every old, new and expected item, equal or not, present or not, any hash function",
     TESTS + "eight operations with three arguments have dozens of aliasing cases; several were wrong and none of the tests noticed.",
     [CM], [("lookup, displacement, re-keying of the entry", CM + ": swap_left, swap_right, swap_*_checked, swap_*_or_insert")], ST_CM, HOOK)
prop("C05", "One-to-one map: retain asks about every pair once and keeps the accepted ones",
     "Retaining calls the predicate exactly once for every pair, always with two items that are paired with each other, and afterwards the map holds exactly "
     "the pairs for which the answer was true.",
     [IN], "every map and every predicate",
     TESTS + "whether removing during iteration skips or repeats an entry depends on table layout.",
     [CM], [("removal while iterating the raw table", CM + ": retain")], ST_CM, HOOK)
prop("C06", "One-to-one map: draining is exact, even if it is cut short",
     "Draining yields stored pairs, each at most once, and announces the right number of remaining items; draining by a predicate calls it once for every pair and yields only "
     "accepted pairs. Wherever the caller stops and drops the iterator, the map ends up without any drained (accepted) pair, with all others intact, and remains usable.",
     [IN, HI, PR], "every map, every predicate, dropped after any number of items",
     TESTS + "they drain to the end; stopping early left half pairs in the map.",
     [CM], [("draining iterators and their Drop", CM + ": drain, drain_filter, DrainIter, DrainFilterIter")], ST_CM, HOOK)
prop("C07", "One-to-one map: iterators show everything once, with exact lengths",
     "Iterating over pairs, left items or right items shows every stored one exactly once, each pair with its true partner. At every point the reported remaining length is exact, "
     "a copy of the iterator continues identically, and after the end nothing follows.",
     [IN, HI], "every map, every prefix of the iteration",
     TESTS + "lengths are looked at before the first step and clones not at all.",
     [CM], [("iteration over the left table with lookup of the partner", CM + ": iter, iter_left, iter_right, Iter, SingleIter")], ST_CM)

prop("P01", "Partial map: lookups report exactly the items and pairs that are there",
     "In a map whose items may be unpaired, membership, the paired or unpaired status, and the partner of every item are reported exactly as stored, "
     "for items and borrowed keys alike; absent items are absent and unpaired items have no partner. The two counts and emptiness agree with that, whatever hashes collide.",
     [IN, HI, CO], "every map, every key, every hash function, collisions included",
     TESTS + "an unpaired item whose hash or id coincides with another's is never tested.",
     [PM], [("lookups", PM + ": get_*, contains_*, is_*_paired, are_paired, len_*")], ST_PM)
prop("P02", "Partial map: insertion keeps pairing consistent and returns what it displaced",
     "Inserting a pair or a single item stores exactly the given instances; an equal item that was there leaves together with its partner, and both are returned. "
     "Everything else stays, paired as before. Extending or collecting from pairs or optional pairs equals inserting them one by one.",
     [IN, HI], "every map and every item or pair, any hash function",
     TESTS + "combinations of paired, unpaired and absent on both sides multiply with collisions.",
     [PM], [("insertion", PM + ": insert, insert_left, insert_right, Extend, FromIterator")], ST_PM, HOOK)
prop("P03", "Partial map: pairing and unpairing change exactly the named relation",
     "Pairing succeeds only if both items are there and unpaired; forced pairing also separates them from other partners, which stay (or are removed) and are reported; "
     "unpairing succeeds only for items that are paired with each other and keeps both. No other item or pair changes.",
     [IN, HI], "every map and every two items, any hash function",
     TESTS + "unpairing items of two different pairs whose hashes collide broke up both.",
     [PM], [("pairing", PM + ": pair, pair_forced, pair_forced_remove, unpair")], ST_PM, HOOK)
prop("P04", "Partial map: removal takes exactly what is named",
     "Removing an item alone leaves its partner in the map, unpaired; removing via an item takes the partner along; removing a pair needs the two to be paired; clearing removes everything. "
     "The stored items are returned, and nothing else changes.",
     [IN, HI], "every map, every argument, any hash function",
     TESTS + "a partner that keeps a stale pairing shows only in later operations.",
     [PM], [("removal", PM + ": remove, remove_left, remove_right, remove_via_left, remove_via_right, clear")], ST_PM, HOOK)
prop("P05", "Partial map: swapping an item keeps its partner and reports what it displaced",
     "Swapping replaces an item by a new one in the same pairing state and with the same partner, returns the old item, and removes and returns an equal item that was elsewhere, with its partner. "
     "If the old item is absent (or not paired as expected, in the checked variants) nothing happens, or the new pair is inserted in the inserting variants, which never panic. "
     "Nothing else changes.",
     [IN, HI], "every map and every old, new and expected item, any hash function",
     TESTS + "aliasing of the arguments with paired and unpaired items lost items and panicked.",
     [PM], [("swaps", PM + ": swap_left, swap_right, swap_*_checked, swap_*_or_insert")], ST_PM, HOOK)
prop("P06", "Partial map: retaining asks about each entry once and keeps the accepted ones",
     "Retaining (all entries, pairs only, or single items only) calls the predicate exactly once for every entry of the kind in question and always shows it as it is stored. "
     "Afterwards exactly the accepted entries and those of other kinds are there.",
     [IN], "every map and every predicate",
     TESTS + "and the existing ones assert the opposite of the documentation.",
     [PM], [("removal while iterating", PM + ": retain, retain_paired, retain_unpaired")], ST_PM, HOOK)
prop("P07", "Partial map: draining is exact, even if it is cut short",
     "Draining yields every pair and every unpaired item of both sides once, with exact remaining lengths; draining by predicate asks about every entry once and yields the accepted ones. "
     "Wherever the iterator is dropped, the affected entries are gone, the others are intact, and the map remains usable.",
     [IN, HI, PR], "every map, every predicate, dropped after any number of entries",
     TESTS + "unpaired right items were left out and pairs were torn apart, in tested code.",
     [PM], [("draining iterators and their Drop", PM + ": drain, drain_filter, DrainIter, DrainFilterIter")], ST_PM, HOOK)
prop("P08", "Partial map: iterators show everything once, with exact lengths",
     "The iterators over all entries, pairs, unpaired items and each side show exactly what is stored, once, in its true pairing state. At every point the remaining length is exact, "
     "a copy continues identically, and nothing follows the end.",
     [IN, HI], "every map, every prefix of the iteration",
     TESTS + "unpaired right items were skipped and lengths counted what is never shown.",
     [PM], [("iterators", PM + ": iter, iter_paired, iter_unpaired, iter_left, iter_right")], ST_PM)

prop("G01", "Group map: lookups report exactly the stored groups",
     "In a many-to-one map every left item has exactly one right item, and asking a right item for its left items gives exactly those that name it; "
     "membership, counts, emptiness and whether two items belong together agree with that, for items and borrowed keys, whatever hashes collide.",
     [IN, HI, CO], "every map, every key, every hash function",
     TESTS + "groups whose members' hashes collide across groups never occur.",
     [GM], [("lookups", GM + ": get_right, get_left_iter, contains_*, are_paired, is_right_paired, len_*")], ST_GM)
prop("G02", "Group map: insertion moves or adds exactly the named items",
     "Inserting a pair puts its left item into the group of its right item, keeping items that are there already; the removing variant replaces both items and returns what it displaced; "
     "inserting a left item needs its right item to be there; inserting a right item replaces its old group. Everything else stays as it is.",
     [IN, HI], "every map and every pair, any hash function",
     TESTS + "moving between groups updates three places that must agree under collisions.",
     [GM], [("insertion", GM + ": insert, insert_remove, insert_left, insert_right")], ST_GM, HOOK)
prop("G03", "Group map: pairing and swapping right items move whole groups correctly",
     "Pairing moves a left item to the group of a right item that is there, and says whether it could. Swapping a right item hands its whole group to the new item, whose own old group disappears; "
     "without an old item the new one is simply inserted. No left item is lost or left behind in a wrong group.",
     [IN, HI], "every map and every items, equal or not, present or not, any hash function",
     TESTS + "a swap onto an item that is there corrupted the map.",
     [GM], [("re-linking of groups", GM + ": pair, swap_right, swap_right_remove")], ST_GM, HOOK)
prop("G04", "Group map: removal takes exactly the named item or group",
     "Removing a left item takes it out of its group only; removing a right item takes its whole group along and returns it; removing by pair needs the two to belong together; "
     "clearing removes everything. Nothing else changes.",
     [IN, HI], "every map, every argument, any hash function",
     TESTS + "members that are found by hash and id can be confused when hashes collide.",
     [GM], [("removal", GM + ": remove, remove_left, remove_right, clear")], ST_GM, HOOK)
prop("G05", "Group map: retaining asks about each entry once and keeps the accepted ones",
     "Retaining pairs asks about every left item with its right item once, and retaining unpaired items about every right item without left items once. "
     "Afterwards exactly the accepted entries and those of the other kind are there, and groups list only left items that are there.",
     [IN], "every map and every predicate",
     TESTS + "dropped items stayed listed in their groups.",
     [GM], [("removal while iterating", GM + ": retain_paired, retain_unpaired")], ST_GM, HOOK)
prop("G06", "Group map: iterators show everything once, with exact lengths",
     "The iterators over all entries, pairs, unpaired right items, each side, and the members of one group show exactly what is stored, once. At every point the remaining length is exact, "
     "a copy continues identically, and nothing follows the end.",
     [IN, HI], "every map, every prefix of the iteration",
     TESTS + "lengths in mid-iteration and clones were wrong.",
     [GM], [("iterators", GM + ": iter, iter_paired, iter_unpaired, iter_left, iter_right, get_left_iter")], ST_GM)
prop("G07", "Group map: extending and collecting equal inserting one by one",
     "Extending a group map with pairs, or with right items that may come with a left item, and collecting such a list into a new map, give the same map as inserting the entries one by one in order.",
     [IN, HI], "every list of entries and every map, any hash function",
     TESTS + "the order in which repeated items arrive matters.",
     [GM], [("loops over insert and insert_right", GM + ": Extend, FromIterator")], ST_GM, HOOK)
prop("E01", "Equality of maps means equal contents, whatever the history or hasher",
     "Two maps are equal if and only if they hold equal items, related in the same way, no matter in which order they were built, how their tables are laid out, or which hash function each of them uses.",
     [IN, HI, CO], "every two maps, with equal or different hash builders",
     TESTS + "maps that differ in one unpaired item or in one pairing only, or that hash differently, are not compared.",
     [CM, PM, GM], [("comparison by lookup", CM + ", " + PM + ", " + GM + ": PartialEq::eq")])
prop("E02", "A cloned map is equal and independent",
     "A clone of a map answers every question as the original does, and later changes to either are invisible in the other.",
     [IN, HI], "every map and every change afterwards",
     TESTS + "few look at the original after changing the clone.",
     [CM, PM, GM], [("Clone for the maps and their entries", CM + ", " + PM + ", " + GM + ": Clone")], None, HOOK)
prop("E03", "Capacity operations keep their promises and never change contents",
     "A constructor with a capacity provides at least that much and new maps are empty; reserving makes room for that many more items (so that as many insertions into a one-to-one map make neither side grow), or reports failure without a change in the fallible variants; "
     "shrinking never goes below what was asked for or what is stored, nor grows, and does not leave more capacity than a new map for as much would have. None of them changes what is in the map.",
     [IN, CO], "every map, capacities up to the largest integer",
     TESTS + "reserving rehashes every entry on both sides, with the hash of the right side's own items.",
     [CM, PM, GM], [("capacity management", CM + ", " + PM + ", " + GM + ": with_capacity*, reserve*, try_reserve*, shrink_to*")], None, HOOK)
prop("S01", "Serialized maps come back equal, and hostile input cannot break the map",
     "Serializing a one-to-one map announces as many entries as it writes and writes every pair once, and reading them back gives an equal map. Any sequence of entries, with repeated items and any announced length, "
     "gives the map that inserting them in order gives; an error in the input is passed on, and the announced length alone never leads to an enormous allocation.",
     [IN], "every map, every sequence of entries, every announced length, an error at every position",
     TESTS + "one map goes through one format.",
     [SE], [("visitor and serializer", SE + ": visit_seq, serialize")])
prop("O01", "Optional pairs behave as two independent options",
     "An optional pair is the same information as an option on each side: conversions to and from pairs of options lose and swap nothing, queries see exactly the sides that are there, "
     "mapping, converting and cloning change each side with its own function only and keep which sides are there, and comparison agrees with comparing the two options.",
     [IN], "every value of every shape",
     "The tests touch single values of some shapes, and not every combination of shape and operation.",
     [OP], [("case distinctions", OP + ": map, map_left, map_right, convert, cloned, From, PartialEq")])
DROPS = "The tests use types whose double drop or leak goes unnoticed, and no memory checker."
prop("D01", "One-to-one map: items are dropped or handed out exactly once",
     "Whatever is done with a one-to-one map, every item that was put in leaves it exactly once: it is returned to the caller, or dropped when it is displaced, removed, drained or the map goes away. "
     "No item is dropped twice, forgotten or used after it was dropped, and no operation reads or writes memory it does not own.",
     [IN, HI, PR], "every operation on every map, iterators dropped at any point", DROPS,
     [CM], [("unsafe code around raw tables and raw iterators", CM + ": insert, swap_*, drain, drain_filter, retain, clone")])
prop("D02", "Partial map: items are dropped or handed out exactly once",
     "Whatever is done with a map whose items may be unpaired, every item that was put in leaves it exactly once: it is returned to the caller, or dropped when it is displaced, removed, drained or the map goes away. "
     "No item is dropped twice, forgotten or used after it was dropped, and no operation reads or writes memory it does not own.",
     [IN, HI, PR], "every operation on every map, iterators dropped at any point", DROPS,
     [PM], [("unsafe code around raw tables and raw iterators", PM + ": insert*, pair_forced*, swap_*, drain, drain_filter, retain*, clone")])
prop("D03", "Group map: items are dropped or handed out exactly once",
     "Whatever is done with a group map, every item that was put in leaves it exactly once: it is returned to the caller, or dropped when it is displaced, removed or the map goes away. "
     "No item is dropped twice, forgotten or used after it was dropped, and no operation reads or writes memory it does not own.",
     [IN, HI, PR], "every operation on every map", DROPS,
     [GM], [("unsafe code around raw tables and raw iterators", GM + ": insert*, swap_right*, remove*, retain_*, clone")])
prop("U01", "A panic in user code leaves the maps memory-safe",
     "If an item's hash, comparison or drop, or a predicate panics in the middle of an operation, using and dropping the map afterwards stays memory-safe: nothing is dropped twice and no freed memory is used.",
     [IN, PR], "every operation, a panic at every call of user code",
     "No test panics in user code.",
     [CM, PM, GM], [("order of updates to the two tables", CM + ", " + PM + ", " + GM)])
prop("F01", "Debug output lists exactly the contents",
     "Formatting a map or an iterator for debugging lists exactly what it would yield, once, and changes nothing.",
     [IN], "every map", "The tests compare at most a few strings.",
     [CM, PM, GM, OP], [("Debug implementations", CM + ", " + PM + ", " + GM + ", " + OP)])

NA = {
    "U01": "unwinding cannot be encoded: Kani (like CBMC behind it) ends an execution at the first panic, so there is no symbolic "
           "execution of what follows a caught panic; the other engines here do not take this Rust code",
}

TECH = "bounded model checking of the Rust code (Kani/CBMC, kissat), symbolic inputs, hashes and table layouts"


HOW = {
    "C01": "every lookup with an arbitrary key against the specification, on every map; constructors give empty maps",
    "C02": "result and afterwards every lookup and INV against the specification, which takes both old pairs out and puts the new one in",
    "C03": "as C02, for the removals and clear",
    "C04": "as C02; the inserting variants are split by whether the old item is there",
    "C05": "the predicate records every call (arguments must be a pair of the specification, not asked before) and answers from a symbolic mask; afterwards as C02",
    "C06": "items taken until a symbolic (drain) or fixed (drain_filter) position, then dropped; exact lengths; afterwards the map is compared with what must be left",
    "C07": "`walk`: steps through the iterator; len, size_hint, clone, end; every item shown once (counted in an array)",
    "P01": "as C01", "P02": "as C02, and single items", "P03": "as C02, for pair, pair_forced, unpair", "P04": "as C03, and single removals", "P05": "as C04",
    "P06": "as C05, deviating behaviour pinned (F1-F3)", "P07": "as C06", "P08": "as C07",
    "G01": "as C01", "G02": "as C02", "G03": "as C02, for pair and swap_right", "G04": "as C03", "G05": "as C05, deviating behaviour pinned (F4, F5)", "G06": "as C07, members of a group included",
    "G07": "specification: the entries inserted one by one",
    "E01": "two independent arbitrary maps with different hash builders: == both ways against equality of the specifications",
    "E02": "clone (or clone_from onto a map with another hash builder), then change one of the two arbitrarily, then compare both with their specifications",
    "E03": "arbitrary usize arguments; capacity promises of the documentation; contents and INV afterwards; insertions after reserving count how often tables grow (natively: how often memory is asked for)",
    "S01": "a Serializer and a Deserializer written in the harness: symbolic entries, announced length, position of an error",
    "F01": "Debug of the items notes which item is formatted; compared with what the iterator yields, in its order; `core::fmt` itself is executed symbolically",
    "O01": "all values of all shapes against pairs of options",
    "D02": "as D01", "D03": "as D01",
    "D01": "items that count their drops on every path, and CBMC's pointer checks (memory safety) switched on",
}


def fill(text, name, lines):
    a, rest = text.split("<!-- %s -->\n" % name, 1)
    b = rest.split("<!-- end -->", 1)[1]
    return a + "<!-- %s -->\n" % name + "".join(x + "\n" for x in lines) + "<!-- end -->" + b


def design(na):
    path = os.path.join(HERE, "DESIGN.md")
    t = open(path).read()
    rows = ["| id | harnesses | how it is decided | cost (quick) |", "|---|---|---|---|"]
    try:
        cost = json.load(open(os.path.join(HERE, "tools", "cost.json")))
    except OSError:
        cost = {}
    for i, p in PROPS.items():
        if not os.path.exists(os.path.join(HERE, "evidence", i + ".json")):
            continue
        e = json.load(open(os.path.join(HERE, "evidence", i + ".json")))
        if e["tier"] == "quick" and not e["violations"]:
            cost[i] = "%d s, %d conditions, %d to the solver" % (e["wall_s"], e["coverage"]["transitions"], e["coverage"]["queries"])
    json.dump(cost, open(os.path.join(HERE, "tools", "cost.json"), "w"), indent=1)
    for i, p in PROPS.items():
        more = p.get("thorough", [])
        rows.append("| %s | %s%s | %s | %s |" % (i, ", ".join(p["quick"]), "; thorough: " + ", ".join(more) if more else "", HOW[i], cost.get(i, "")))
    t = fill(t, "properties", rows)
    t = fill(t, "na", ["* **%s**: %s" % (x["property"], x["reason"]) for x in na])
    rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    root = os.path.join(HERE, "seeded")
    try:
        caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    except OSError:
        caught = {}
    for i in sorted(os.listdir(root)) if os.path.exists(root) else []:
        m = json.load(open(os.path.join(root, i, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "not yet run")))
    t = fill(t, "seeded", rows)
    open(path, "w").write(t)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import subprocess
    hook = subprocess.run(["git", "-C", os.path.join(HERE, "..", "repo"), "log", "--format=%H", "--grep=^verif:"],
                          capture_output=True, text=True).stdout.split()
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in PROPS:
            pinned = PROPS[i].get("pinned")
            note = ("Holds for all values within the bounds: " + "; ".join(PROPS[i]["bounds"]) + ". Trusted: Kani, CBMC, kissat, "
                    "and the contract model of hashbrown 0.12.3 in model/ (run against the real one natively on every check). "
                    "Counterexamples are replayed on the real build before they are reported."
                    + (" Known findings are listed in known_findings.json." if pinned else ""))
            checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                               thorough_cmd="python3 check.py %s --tier thorough" % i,
                               technique=TECH, level="model_checking", level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check yet: harnesses for it are not written")))
    design(na)
    m = dict(version=1, setup_cmd="python3 setup.py",
             hooks=dict(guard="cfg(cycle_map_verif)", enable='RUSTFLAGS="--cfg cycle_map_verif"', source_commits=hook),
             checks=checks, not_applicable=na,
             notes="Every check builds the harnesses against /repo's working tree in build/ and needs no setup; setup_cmd only checks that the tools are there.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
