C, P, G = "cycle_map.rs", "partial_cycle_map.rs", "group_map.rs"
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("c01-paired-by-hash", "C01", [(C, "                left.id == right.id && l_hash == right.hash && r_hash == left.hash",
  "                l_hash == right.hash && r_hash == left.hash")],
 "two pairs whose left items collide and whose right items collide",
 "are_paired says that items of different pairs are paired, so remove() by pair takes a pair that was not named",
 '''
use cycle_map::CycleMap;
fn main() {
    let mut map: CycleMap<u32, char, Same> = CycleMap::with_hasher(Same);
    map.insert(1, 'a');
    map.insert(2, 'b');
    assert!(map.are_paired(&1, &'a'));
    assert!(!map.are_paired(&1, &'b'));
    assert_eq!(map.remove(&2, &'a'), None);
    assert_eq!(map.len(), 2);
}
''')

bug("c02-counter-reuse", "C02", [(C, """            id: self.counter,
        };
        self.counter += 1;
        self.left_set.insert(""", """            id: self.counter,
        };
        if digest.is_none() {
            self.counter += 1;
        }
        self.left_set.insert(""")],
 "an insertion that displaces a pair, another insertion, and colliding hashes",
 "two pairs get the same id, and one of them is taken for the other",
 '''
use cycle_map::CycleMap;
fn main() {
    let mut map: CycleMap<u32, char, Same> = CycleMap::with_hasher(Same);
    map.insert(1, 'a');
    map.insert(1, 'b');
    map.insert(2, 'c');
    map.insert(3, 'd');
    for (l, r) in [(1, 'b'), (2, 'c'), (3, 'd')] {
        assert_eq!(map.get_right(&l), Some(&r));
        assert_eq!(map.get_left(&r), Some(&l));
    }
}
''')

bug("c03-partner-by-hash", "C03", [(C, "            .remove_entry(right_pairing.hash, hash_and_id(r_hash, right_pairing.id))",
 "            .remove_entry(right_pairing.hash, |p| p.hash == r_hash)")],
 "two pairs with colliding items on both sides, removed via the right item",
 "remove_via_right takes another pair's left item along, which tears two pairs apart",
 '''
use cycle_map::CycleMap;
fn main() {
    for first in ['a', 'b', 'c'] {
        let mut map: CycleMap<u32, char, Same> = CycleMap::with_hasher(Same);
        map.insert(1, 'a');
        map.insert(2, 'b');
        map.insert(3, 'c');
        let l = *map.get_left(&first).unwrap();
        assert_eq!(map.remove_via_right(&first), Some((l, first)));
    }
}
''')

bug("c04-swap-same-hash", "C04", [(C, """        self.right_set.get(new_hash, equivalent_key(new))?;
        if new != old {""", """        self.right_set.get(new_hash, equivalent_key(new))?;
        if new_hash != make_hash::<R, S>(&self.hash_builder, old) {""")],
 "swapping a right item for one that is in the map and has the same hash",
 "the pair that contained the new item stays, so the map holds two equal right items",
 '''
use cycle_map::{CycleMap, OptionalPair::*};
fn main() {
    let mut map: CycleMap<u32, char, Same> = CycleMap::with_hasher(Same);
    map.insert(1, 'a');
    map.insert(2, 'b');
    assert_eq!(map.swap_right(&'a', 'b'), SomeBoth('a', (2, 'b')));
    assert_eq!(map.len(), 1);
}
''')

bug("c05-retain-by-hash", "C05", [(C, "            .remove_entry(l_hash, hash_and_id(r_hash, id))?;",
 "            .remove_entry(l_hash, |p| p.hash == r_hash)?;")],
 "retain with a rejected pair that collides on both sides with an accepted one",
 "retain removes the left item of another pair",
 '''
use cycle_map::CycleMap;
fn main() {
    for bad in [1, 2, 3] {
        let mut map: CycleMap<u32, char, Same> = CycleMap::with_hasher(Same);
        map.insert(1, 'a');
        map.insert(2, 'b');
        map.insert(3, 'c');
        map.retain(|l, _| *l != bad);
        for (l, r) in [(1, 'a'), (2, 'b'), (3, 'c')] {
            assert_eq!(map.contains_left(&l), l != bad);
            assert_eq!(map.contains_right(&r), l != bad);
        }
    }
}
''')

bug("c06-drop-once", "C06", [(C, "        while let Some(item) = self.next() {", "        if let Some(item) = self.next() {")],
 "a drain_filter iterator that is dropped while two or more accepted pairs are still to come",
 "accepted pairs stay in the map",
 '''
use cycle_map::CycleMap;
fn main() {
    let mut map: CycleMap<u32, u32> = (0..20).map(|i| (i, i + 100)).collect();
    {
        let mut it = map.drain_filter(|l, _| l % 2 == 0);
        it.next();
    }
    assert_eq!(map.len(), 10);
    assert!(map.iter_left().all(|l| l % 2 == 1));
}
''')

bug("c07-len-total", "C07", [(C, """impl<L, R, S> ExactSizeIterator for Iter<'_, L, R, S>
where
    L: Hash + Eq,
    R: Hash + Eq,
    S: BuildHasher,
{
    fn len(&self) -> usize {
        self.left_iter.len()""", """impl<L, R, S> ExactSizeIterator for Iter<'_, L, R, S>
where
    L: Hash + Eq,
    R: Hash + Eq,
    S: BuildHasher,
{
    fn len(&self) -> usize {
        self.map_ref.len()""")],
 "asking for the length after some pairs have been visited",
 "the remaining length of the pair iterator stays that of the whole map",
 '''
use cycle_map::CycleMap;
fn main() {
    let map: CycleMap<u32, u32> = (0..5).map(|i| (i, i + 100)).collect();
    let mut it = map.iter();
    let mut left = 5;
    while it.next().is_some() {
        left -= 1;
        assert_eq!(it.len(), left);
    }
}
''')

bug("p02-single-same-id", "P02", [(P, """            value: left,
            hash: None,
            id: self.counter,
        };
        self.counter += 1;
""", """            value: left,
            hash: None,
            id: self.counter,
        };
""")],
 "a single left item, then a pair, then pairing the single item, with colliding hashes",
 "a single item and a pair share an id; pairing the item later makes lookups return the wrong partner",
 '''
use cycle_map::PartialCycleMap;
fn main() {
    let mut map: PartialCycleMap<u32, char, Same> = PartialCycleMap::with_hasher(Same);
    map.insert_left(1);
    map.insert(2, 'b');
    map.insert_right('a');
    assert!(map.pair(&1, &'a'));
    assert_eq!(map.get_right(&1), Some(&'a'));
    assert_eq!(map.get_right(&2), Some(&'b'));
    assert_eq!(map.get_left(&'a'), Some(&1));
    assert_eq!(map.get_left(&'b'), Some(&2));
}
''')

bug("p03-forced-reuse", "P03", [(P, """                    left.id = self.counter;
                    right.id = self.counter;
                    self.counter += 1;
                    self.left_set
""", """                    left.id = old_r_id;
                    self.left_set
""")],
 "pair_forced on two items that both have partners, with colliding hashes",
 "the pair keeps the id of the right item's old partner, which is then not told from the new one",
 '''
use cycle_map::{PartialCycleMap, OptionalPair::*};
fn main() {
    for (l, r) in [(1, 'b'), (2, 'a'), (3, 'a'), (1, 'c'), (2, 'c'), (3, 'b')] {
        let mut map: PartialCycleMap<u32, char, Same> = PartialCycleMap::with_hasher(Same);
        map.insert(1, 'a');
        map.insert(2, 'b');
        map.insert(3, 'c');
        let (old_l, old_r) = (*map.get_left(&r).unwrap(), *map.get_right(&l).unwrap());
        assert_eq!(map.pair_forced(&l, &r), SomeBoth(&old_l, &old_r));
        assert!(map.are_paired(&l, &r));
        assert!(!map.is_left_paired(&old_l));
        assert!(!map.is_right_paired(&old_r));
    }
}
''')

bug("p03-unpair-same-id", "P03", [(P, """                        right.hash = None;
                        right.id = self.counter;
                        self.counter += 1;
                        true
""", """                        right.hash = None;
                        true
""")],
 "unpairing two items, pairing the left one anew, and separating that pair again, with colliding hashes",
 "the two right items share an id, so separating the left item from its partner touches or reports the other one",
 '''
use cycle_map::{PartialCycleMap, OptionalPair::*};
fn main() {
    for swap in [false, true] {
        let mut map: PartialCycleMap<u32, char, Same> = PartialCycleMap::with_hasher(Same);
        let (a, b) = if swap { ('b', 'a') } else { ('a', 'b') };
        map.insert_right('b');
        map.insert(1, a);
        map.insert_right('a');
        map.insert(1, a);
        map.insert_right(b);
        assert!(map.unpair(&1, &a));
        assert!(map.pair(&1, &b));
        map.insert_right('c');
        assert_eq!(map.pair_forced(&1, &'c'), SomeRight(&b));
        assert!(map.are_paired(&1, &'c'));
        assert!(!map.is_right_paired(&a));
        assert!(!map.is_right_paired(&b));
    }
}
''')

bug("p04-wrong-partner", "P04", [(P, "            self.left_set.get_mut(hash, just_id(item.id)).unwrap().hash = None;",
 "            self.left_set\n                .get_mut(hash, |p| p.hash == Some(r_hash))\n                .unwrap()\n                .hash = None;")],
 "removing a right item alone while another pair collides with its pair on both sides",
 "remove_right marks the left item of another pair as unpaired",
 '''
use cycle_map::PartialCycleMap;
fn main() {
    for r in ['a', 'b', 'c'] {
        let mut map: PartialCycleMap<u32, char, Same> = PartialCycleMap::with_hasher(Same);
        map.insert(1, 'a');
        map.insert(2, 'b');
        map.insert(3, 'c');
        assert_eq!(map.remove_right(&r), Some(r));
        for (x, y) in [(1, 'a'), (2, 'b'), (3, 'c')] {
            assert_eq!(map.is_left_paired(&x), y != r);
        }
    }
}
''')

bug("p05-swap-keeps-old", "P05", [(P, """        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
        let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
""", """        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
        if new == *old {
            return SomeLeft(new);
        }
        let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
""")],
 "swapping a right item for an equal one that can be told apart",
 "the old item stays in the map and the new one is handed back",
 '''
use cycle_map::PartialCycleMap;
#[derive(Debug, Clone)]
struct Item(u32, &'static str);
impl PartialEq for Item { fn eq(&self, other: &Item) -> bool { self.0 == other.0 } }
impl Eq for Item {}
impl std::hash::Hash for Item { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let mut map: PartialCycleMap<u32, Item> = PartialCycleMap::new();
    map.insert(1, Item(5, "old"));
    let old = map.swap_right(&Item(5, "key"), Item(5, "new"));
    assert_eq!(old.get_left().unwrap().1, "old");
    assert_eq!(map.get_right(&1).unwrap().1, "new");
}
''')

bug("p06-retain-unpaired", "P06", [(P, """        for tup in to_drop {
            match tup {
                (Some(l), None, id) => {
                    self.left_set.remove_entry(l, |p| p.id == id);
                }
                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }
                _ => {
                    unreachable!("We""", """        for tup in to_drop {
            match tup {
                (Some(l), None, id) => {
                    self.left_set.remove_entry(l, |p| p.id == id);
                }
                (None, Some(r), _) => {
                    self.right_set.remove_entry(r, |p| p.hash.is_none());
                }
                _ => {
                    unreachable!("We""")],
 "retain_unpaired with two single right items of the same hash, only one of which is to go",
 "the other item is removed",
 '''
use cycle_map::PartialCycleMap;
fn main() {
    // retain_unpaired removes the items for which the predicate holds or those for which it does
    // not hold: whichever, it must not remove an item for which the answer was the opposite.
    for x in ['a', 'b', 'c'] {
        let mut map: PartialCycleMap<u32, char, Same> = PartialCycleMap::with_hasher(Same);
        for r in ['a', 'b', 'c'] {
            map.insert_right(r);
        }
        map.retain_unpaired(|op| op.get_right() == Some(&&x));
        let here: Vec<bool> = ['a', 'b', 'c'].iter().map(|r| map.contains_right(r) == (*r == x)).collect();
        assert!(here.iter().all(|b| *b) || here.iter().all(|b| !*b));
    }
}
''')

bug("p07-drain-filter-pairs", "P07", [(P, """        if self.reset_right_iter {
            self.right_iter = unsafe { self.right_ref.iter() };
            self.reset_right_iter = false;
        }
        for right""", """        if self.reset_right_iter {
            self.right_iter = unsafe { self.right_ref.iter() };
        }
        for right""")],
 "drain_filter with single right items that the predicate rejects before it accepts another one",
 "the predicate is asked again about right items it rejected already",
 '''
use cycle_map::PartialCycleMap;
use std::collections::HashMap;
fn main() {
    let mut map: PartialCycleMap<u32, u32> = PartialCycleMap::new();
    for r in 0..20 {
        map.insert_right(r);
    }
    let mut asked: HashMap<u32, u32> = HashMap::new();
    map.drain_filter(|op| {
        let r = **op.get_right().unwrap();
        *asked.entry(r).or_default() += 1;
        r % 3 == 0
    }).for_each(drop);
    assert_eq!(asked.len(), 20);
    assert!(asked.values().all(|n| *n == 1));
}
''')

bug("g02-same-left-id", "G02", [(G, """                self.left_set
                    .insert(l_hash, left_item, make_hasher(&self.hash_builder));
                self.left_counter.0 += 1;
            }
            (Some(l), Some(r)) => {""", """                self.left_set
                    .insert(l_hash, left_item, make_hasher(&self.hash_builder));
            }
            (Some(l), Some(r)) => {""")],
 "two colliding left items added to a group that is there already",
 "the two left items share an id, so the group lists only one of them",
 '''
use cycle_map::GroupMap;
fn main() {
    let mut map: GroupMap<u32, char, Same> = GroupMap::with_hasher(Same);
    map.insert(1, 'a');
    map.insert(2, 'a');
    map.insert(3, 'a');
    let mut lefts: Vec<u32> = map.get_left_iter(&'a').unwrap().copied().collect();
    lefts.sort();
    assert_eq!(lefts, [1, 2, 3]);
}
''')

bug("g03-pair-again", "G03", [(G, """            let old_right = self
                .right_set
                .get_mut(triple.0, right_with_right_id(triple.1))
                .unwrap();
            old_right.pairs.remove(&(l_hash, triple.2));
            let new_right = self
                .right_set
                .get_mut(r_hash, equivalent_key_right(right))
                .unwrap();
            new_right.pairs.insert((l_hash, triple.2));
""", """            let new_right = self
                .right_set
                .get_mut(r_hash, equivalent_key_right(right))
                .unwrap();
            new_right.pairs.insert((l_hash, triple.2));
            let old_right = self
                .right_set
                .get_mut(triple.0, right_with_right_id(triple.1))
                .unwrap();
            old_right.pairs.remove(&(l_hash, triple.2));
""")],
 "pairing a left item with the right item it belongs to already",
 "the left item is struck off its own group",
 '''
use cycle_map::GroupMap;
fn main() {
    let mut map: GroupMap<u32, char> = GroupMap::new();
    map.insert(1, 'a');
    map.insert(2, 'a');
    assert!(map.pair(&1, &'a'));
    assert!(map.are_paired(&1, &'a'));
    assert_eq!(map.get_left_iter(&'a').unwrap().count(), 2);
}
''')

bug("g04-wrong-group", "G04", [(G, """            .remove_entry(l_hash, equivalent_key_left(item))?;
        let pair = (l_hash, left_item.id);
        self.right_set
            .get_mut(left_item.hash, right_with_left_pair(&pair))
""", """            .remove_entry(l_hash, equivalent_key_left(item))?;
        let pair = (l_hash, left_item.id);
        self.right_set
            .get_mut(left_item.hash, |r| !r.pairs.is_empty())
""")],
 "removing a left item whose right item collides with one of another group",
 "the item stays listed in its group, which then looks paired and cannot be iterated over or removed",
 '''
use cycle_map::GroupMap;
fn main() {
    for l in [1, 2, 3] {
        let mut map: GroupMap<u32, char, Same> = GroupMap::with_hasher(Same);
        map.insert(1, 'a');
        map.insert(2, 'b');
        map.insert(3, 'c');
        assert_eq!(map.remove_left(&l), Some(l));
        for (x, r) in [(1, 'a'), (2, 'b'), (3, 'c')] {
            assert_eq!(map.is_right_paired(&r), x != l);
        }
    }
}
''')

bug("g07-extend-skips", "G07", [(G, """            } else {
                self.insert_right(right);
            }""", """            } else if !self.contains_right(&right) {
                self.insert_right(right);
            }""")],
 "extending with a lone right item that is in the map with a group",
 "the old group stays, though inserting the right item replaces it",
 '''
use cycle_map::GroupMap;
fn main() {
    let mut map: GroupMap<u32, char> = GroupMap::new();
    map.insert(1, 'a');
    map.extend([(Some(2), 'b'), (None, 'a')]);
    let mut other: GroupMap<u32, char> = GroupMap::new();
    other.insert(1, 'a');
    other.insert(2, 'b');
    other.insert_right('a');
    assert_eq!(map.len_left(), other.len_left());
    assert!(map == other);
}
''')

bug("e01-equal-items", "E01", [(C, "        self.iter().all(|(l, r)| other.are_paired(l, r))",
 "        self.iter()\n            .all(|(l, r)| other.contains_left(l) && other.contains_right(r))")],
 "two maps with the same items, paired differently",
 "maps that pair the same items differently compare equal",
 '''
use cycle_map::CycleMap;
fn main() {
    let a: CycleMap<u32, char> = [(1, 'a'), (2, 'b')].into_iter().collect();
    let b: CycleMap<u32, char> = [(1, 'b'), (2, 'a')].into_iter().collect();
    let c: CycleMap<u32, char> = [(2, 'b'), (1, 'a')].into_iter().collect();
    assert!(a == c);
    assert!(a != b);
}
''')

bug("e02-clone-counter", "E02", [(C, "            counter: self.counter,\n            hash_builder: self.hash_builder.clone(),",
 "            counter: self.left_set.len() as u64,\n            hash_builder: self.hash_builder.clone(),")],
 "a map from which pairs were removed, cloned and inserted into, with colliding hashes",
 "the clone gives ids twice, so it takes one pair for another where the original does not",
 '''
use cycle_map::CycleMap;
fn main() {
    let mut map: CycleMap<u32, char, Same> = CycleMap::with_hasher(Same);
    map.insert(1, 'a');
    map.insert(2, 'b');
    map.remove_via_left(&1);
    let mut copy = map.clone();
    copy.insert(3, 'c');
    assert_eq!(copy.get_right(&2), Some(&'b'));
    assert_eq!(copy.get_right(&3), Some(&'c'));
    assert_eq!(copy.get_left(&'b'), Some(&2));
    assert_eq!(copy.get_left(&'c'), Some(&3));
}
''')

bug("e03-reserve-hasher", "E03", [(C, """        self.left_set
            .reserve(additional, make_hasher(&self.hash_builder));
        self.right_set
            .reserve(additional, make_hasher(&self.hash_builder));
""", """        self.left_set
            .reserve(additional, make_hasher(&self.hash_builder));
        self.right_set.reserve(additional, |p| p.hash);
""")],
 "reserving so much for a map with items that its right table moves",
 "the right items are filed under the hashes of their partners, and are not found any more",
 '''
use cycle_map::CycleMap;
fn main() {
    let mut map: CycleMap<u32, u64> = (0..10).map(|i| (i, u64::from(i) + 100)).collect();
    map.reserve(1000);
    for i in 0..10u32 {
        assert_eq!(map.get_left(&(u64::from(i) + 100)), Some(&i));
    }
}
''')

bug("s01-swallow-error", "S01", [("serde.rs", "        while let Some(entry) = access.next_element::<(L, R)>()? {",
 "        while let Ok(Some(entry)) = access.next_element::<(L, R)>() {")],
 "input with an element that cannot be read, from a source that does not check for leftovers itself",
 "the rest of the input is lost without an error",
 '''
use cycle_map::CycleMap;
use serde::de::value::{Error, SeqDeserializer};
use serde::Deserialize;
use serde::de::IntoDeserializer;
#[derive(Clone)]
enum Entry { Good(u32, u32), Bad }
impl<'de> IntoDeserializer<'de, Error> for Entry {
    type Deserializer = EntryDe;
    fn into_deserializer(self) -> EntryDe { EntryDe(self) }
}
struct EntryDe(Entry);
impl<'de> serde::Deserializer<'de> for EntryDe {
    type Error = Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Entry::Good(a, b) => v.visit_seq(SeqDeserializer::<_, Error>::new(vec![a, b].into_iter())),
            Entry::Bad => Err(serde::de::Error::custom("bad")),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn main() {
    let input = vec![Entry::Good(1, 2), Entry::Bad, Entry::Good(3, 4)];
    let mut de = SeqDeserializer::<_, Error>::new(input.into_iter());
    let map = CycleMap::<u32, u32>::deserialize(&mut Seq(&mut de));
    assert!(map.is_err());
}
// Passes the sequence on without asking afterwards whether it was read to its end.
struct Seq<'a, A>(&'a mut A);
impl<'de, 'a, A: serde::de::SeqAccess<'de>> serde::Deserializer<'de> for &mut Seq<'a, A> {
    type Error = A::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, A::Error> {
        v.visit_seq(&mut *self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
''')

bug("o01-neither-some", "O01", [("optionals.rs", "            Neither => None,\n            SomeLeft(item) => Some((Some(item), None)),",
 "            Neither => Some((None, None)),\n            SomeLeft(item) => Some((Some(item), None)),")],
 "converting an empty optional pair to an option",
 "an empty optional pair becomes Some((None, None)) instead of None",
 '''
use cycle_map::OptionalPair;
fn main() {
    let op: OptionalPair<u32, u32> = OptionalPair::Neither;
    let back: Option<(Option<u32>, Option<u32>)> = op.into();
    assert_eq!(back, None);
}
''')

bug("d01-clear-leaks", "D01", [(C, """    pub fn clear(&mut self) {
        self.left_set.clear();
        self.right_set.clear();""", """    pub fn clear(&mut self) {
        self.left_set.clear();
        self.right_set.clear_no_drop();""")],
 "clearing a map whose right items own something",
 "the right items are forgotten instead of dropped",
 '''
use cycle_map::CycleMap;
use std::rc::Rc;
fn main() {
    let item = Rc::new(5);
    let mut map: CycleMap<u32, Rc<u32>> = CycleMap::new();
    map.insert(1, item.clone());
    map.clear();
    assert!(map.is_empty());
    drop(map);
    assert_eq!(Rc::strong_count(&item), 1);
}
''')

bug("d03-clear-leaks", "D03", [(G, """    pub fn clear(&mut self) {
        self.left_set.clear();
        self.right_set.clear();""", """    pub fn clear(&mut self) {
        self.left_set.clear_no_drop();
        self.right_set.clear();""")],
 "clearing a group map whose left items own something",
 "the left items are forgotten instead of dropped",
 '''
use cycle_map::GroupMap;
use std::rc::Rc;
fn main() {
    let item = Rc::new(5);
    let mut map: GroupMap<Rc<u32>, u32> = GroupMap::new();
    map.insert(item.clone(), 1);
    map.clear();
    assert!(map.is_empty());
    drop(map);
    assert_eq!(Rc::strong_count(&item), 1);
}
''')

bug("d02-retain-leaks", "D02", [(P, """        for tup in to_drop {
            match tup {
                (Some(l), None, id) => {
                    self.left_set.remove_entry(l, |p| p.id == id);
                }
                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }
                _ => {
                    unreachable!("We""", """        for tup in to_drop {
            match tup {
                (Some(l), None, id) => {
                    if let Some(bucket) = self.left_set.find(l, |p| p.id == id) {
                        unsafe { self.left_set.erase_no_drop(&bucket) }
                    }
                }
                (None, Some(r), id) => {
                    self.right_set.remove_entry(r, |p| p.id == id);
                }
                _ => {
                    unreachable!("We""")],
 "retain_unpaired removing a single left item that owns something",
 "the removed left item is forgotten instead of dropped",
 '''
use cycle_map::PartialCycleMap;
use std::rc::Rc;
fn main() {
    for keep in [true, false] {
        let item = Rc::new(5);
        let mut map: PartialCycleMap<Rc<u32>, u32> = PartialCycleMap::new();
        map.insert_left(item.clone());
        map.retain_unpaired(|_| keep);
        drop(map);
        assert_eq!(Rc::strong_count(&item), 1);
    }
}
''')

bug("c02-id-byte", "C02", [(C, """            hash: l_hash,
            id: self.counter,
        };
        self.counter += 1;""", """            hash: l_hash,
            id: self.counter,
        };
        self.counter = (self.counter + 1) & 0xff;""")],
 "256 insertions while one of the first pairs is still there, and colliding hashes",
 "ids come round again while they are in use, and one pair is taken for another",
 '''
use cycle_map::CycleMap;
fn main() {
    let mut map: CycleMap<u32, char, Same> = CycleMap::with_hasher(Same);
    map.insert(1, 'a');
    for _ in 0..255 {
        map.insert(2, 'b');
        map.remove_via_left(&2);
    }
    map.insert(3, 'c');
    assert_eq!(map.get_right(&1), Some(&'a'));
    assert_eq!(map.get_right(&3), Some(&'c'));
    assert_eq!(map.get_left(&'a'), Some(&1));
    assert_eq!(map.get_left(&'c'), Some(&3));
}
''')

bug("p02-extend-skips", "P02", [(P, """        for (l, r) in iter {
            self.insert(l, r);
        }""", """        for (l, r) in iter {
            if !self.are_paired(&l, &r) {
                self.insert(l, r);
            }
        }""")],
 "extending with a pair that is there already, in instances that can be told apart",
 "the old instances stay, though an insertion stores the given ones",
 '''
use cycle_map::PartialCycleMap;
#[derive(Debug, Clone)]
struct Item(u32, &'static str);
impl PartialEq for Item { fn eq(&self, other: &Item) -> bool { self.0 == other.0 } }
impl Eq for Item {}
impl std::hash::Hash for Item { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let mut map: PartialCycleMap<u32, Item> = PartialCycleMap::new();
    map.insert(1, Item(5, "old"));
    map.extend([(1, Item(5, "new"))]);
    assert_eq!(map.get_right(&1).unwrap().1, "new");
}
''')

bug("g01-any-right", "G01", [(G, """            .get(left_item.hash, right_with_right_id(left_item.r_id))
        {
            None => None,""", """            .get(left_item.hash, |r| !r.pairs.is_empty())
        {
            None => None,""")],
 "two groups whose right items collide",
 "get_right returns the right item of another group",
 '''
use cycle_map::GroupMap;
fn main() {
    let mut map: GroupMap<u32, char, Same> = GroupMap::with_hasher(Same);
    map.insert(1, 'a');
    map.insert(2, 'b');
    assert_eq!(map.get_right(&1), Some(&'a'));
    assert_eq!(map.get_right(&2), Some(&'b'));
}
''')

bug("g06-once-paired", "G06", [(G, "            if item.pairs.is_empty() {\n                return Some(&item.value);", "            if item.pairs.capacity() == 0 {\n                return Some(&item.value);")],
 "a right item whose left items have all been removed or moved",
 "iter_unpaired leaves out right items that had left items before",
 '''
use cycle_map::GroupMap;
fn main() {
    let mut map: GroupMap<u32, char> = GroupMap::new();
    map.insert(1, 'a');
    map.insert_right('b');
    map.remove_left(&1);
    let mut rights: Vec<char> = map.iter_unpaired().copied().collect();
    rights.sort();
    assert_eq!(rights, ['a', 'b']);
}
''')

bug("p08-clone-restarts", "P08", [(P, """impl<L, R, S> Clone for UnpairedIter<'_, L, R, S> {
    fn clone(&self) -> Self {
        Self {
            left_iter: self.left_iter.clone(),
            right_iter: self.right_iter.clone(),""", """impl<L, R, S> Clone for UnpairedIter<'_, L, R, S> {
    fn clone(&self) -> Self {
        Self {
            left_iter: self.left_iter.clone(),
            right_iter: unsafe { self.map_ref.right_set.iter() },""")],
 "cloning (or asking for the length of) an iterator that has visited a right item",
 "the copy visits the right items again",
 '''
use cycle_map::PartialCycleMap;
fn main() {
    let mut map: PartialCycleMap<u32, char> = PartialCycleMap::new();
    map.insert_right('a');
    map.insert_right('b');
    let mut it = map.iter_unpaired();
    it.next();
    assert_eq!(it.len(), 1);
    assert_eq!(it.clone().count(), 1);
}
''')

bug("s01-capacity-as-length", "S01", [("serde.rs", "serializer.serialize_seq(Some(self.len()))?;", "serializer.serialize_seq(Some(self.capacity()))?;")],
 "a format that writes the announced length",
 "more entries are announced than written",
 '''
use cycle_map::CycleMap;
use serde::ser::{Impossible, Serialize, Serializer};
use std::fmt;
// Only notes how many elements are announced and written.
struct Count;
struct Seq(usize, usize);
#[derive(Debug)]
struct Error;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("error") } }
impl std::error::Error for Error {}
impl serde::ser::Error for Error { fn custom<T: fmt::Display>(_: T) -> Error { Error } }
impl serde::ser::SerializeSeq for Seq {
    type Ok = (usize, usize);
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Error> { self.1 += 1; Ok(()) }
    fn end(self) -> Result<(usize, usize), Error> { Ok((self.0, self.1)) }
}
type No = Impossible<(usize, usize), Error>;
macro_rules! no { ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<(usize, usize), Error> { Err(Error) })* } }
impl Serializer for Count {
    type Ok = (usize, usize);
    type Error = Error;
    type SerializeSeq = Seq;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_seq(self, len: Option<usize>) -> Result<Seq, Error> { Ok(Seq(len.ok_or(Error)?, 0)) }
    no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
          serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32);
          serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]);
          serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
          serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(usize, usize), Error> { Err(Error) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(usize, usize), Error> { Err(Error) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(usize, usize), Error> { Err(Error) }
    fn serialize_tuple(self, _: usize) -> Result<No, Error> { Err(Error) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Error> { Err(Error) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> { Err(Error) }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Error> { Err(Error) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Error> { Err(Error) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> { Err(Error) }
}
fn main() {
    let map: CycleMap<u32, u32> = (0..5).map(|i| (i, i)).collect();
    assert_eq!(map.serialize(Count).unwrap(), (5, 5));
}
''')

bug("e03-try-reserve-left", "E03", [(P, """        self.right_set
            .try_reserve(additional, make_hasher(&self.hash_builder))?;
        Ok(())""", """        if self.capacity_right() < additional {
            self.right_set
                .try_reserve(additional, make_hasher(&self.hash_builder))?;
        }
        Ok(())""")],
 "reserving room for fewer items than the capacity, but more than is left of it",
 "try_reserve_right succeeds without making the room that it promises",
 '''
use cycle_map::PartialCycleMap;
fn main() {
    let mut map: PartialCycleMap<u32, u32> = PartialCycleMap::with_capacity(28);
    let room = map.capacity_right() as u32;
    for i in 0..room {
        map.insert_right(i);
    }
    assert_eq!(map.capacity_right(), room as usize);
    map.try_reserve_right(20).unwrap();
    assert!(map.capacity_right() - map.len_right() >= 20);
}
''')

bug("g05-retain-any", "G05", [(G, "            .remove_entry(r_hash, right_with_right_id(id))?;", "            .remove_entry(r_hash, |r| r.id == id || r.pairs.is_empty())?;")],
 "retain_unpaired with two colliding single right items, only one of which is to go",
 "the other item is removed",
 '''
use cycle_map::GroupMap;
fn main() {
    // Whichever answers mean removal: an item with the opposite answer must not be removed.
    for x in ['a', 'b', 'c'] {
        let mut map: GroupMap<u32, char, Same> = GroupMap::with_hasher(Same);
        for r in ['a', 'b', 'c'] {
            map.insert_right(r);
        }
        map.retain_unpaired(|r| *r == x);
        let here: Vec<bool> = ['a', 'b', 'c'].iter().map(|r| map.contains_right(r) == (*r == x)).collect();
        assert!(here.iter().all(|b| *b) || here.iter().all(|b| !*b));
    }
}
''')

bug("f01-unpaired-shown", "F01", [(G, "        fmt.debug_set().entries(self.iter()).finish()", "        fmt.debug_set()\n            .entries(self.iter_paired())\n            .entries(self.iter_unpaired().map(|r| (None::<&L>, r)))\n            .entries(self.iter_unpaired().filter(|r| self.get_left_iter(*r).is_some()))\n            .finish()")],
 "showing a group map that has a right item without left items",
 "the right item is listed twice",
 '''
use cycle_map::GroupMap;
fn main() {
    let mut map: GroupMap<u32, char> = GroupMap::new();
    map.insert(1, 'a');
    map.insert_right('z');
    let shown = format!("{:?}", map);
    assert_eq!(shown.matches('z').count(), 1, "{}", shown);
}
''')

bug("e03-reserve-right", "E03", [(C, """        self.right_set
            .reserve(additional, make_hasher(&self.hash_builder));""", """        let room = self.right_set.capacity() - self.right_set.len();
        self.right_set.reserve(
            additional.saturating_sub(room),
            make_hasher(&self.hash_builder),
        );""")],
 "reserving more than there is room for, but not much more, in a map that is not full",
 "the right set keeps less room than was reserved, so insertions allocate again",
 '''
use cycle_map::CycleMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static ASKED: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        ASKED.fetch_add(1, Ordering::SeqCst);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, at: *mut u8, layout: Layout) {
        System.dealloc(at, layout)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
fn main() {
    let mut map: CycleMap<u32, u32> = CycleMap::with_capacity(28);
    for i in 0..14 {
        map.insert(i, i);
    }
    let more = (map.capacity() - map.len()) as u32 + 4;
    map.reserve(more as usize);
    let before = ASKED.load(Ordering::SeqCst);
    for i in 100..100 + more {
        map.insert(i, i);
    }
    assert_eq!(ASKED.load(Ordering::SeqCst), before);
}
''')

bug("e02-clone-from", "E02", [(C, """        Self {
            left_set: self.left_set.clone(),
            right_set: self.right_set.clone(),
            counter: self.counter,
            hash_builder: self.hash_builder.clone(),
        }
    }
}""", """        let mut map = Self::with_hasher(self.hash_builder.clone());
        map.clone_from(self);
        map
    }

    // Keeps the allocations of `self`
    fn clone_from(&mut self, source: &Self) {
        self.left_set.clone_from(&source.left_set);
        self.right_set.clone_from(&source.right_set);
        self.counter = source.counter;
    }
}""")],
 "clone_from between maps whose hash builders differ",
 "the map has the items of the other one, filed under hashes that it does not find again",
 '''
use cycle_map::CycleMap;
fn main() {
    // Two maps with random hash builders of their own
    let a: CycleMap<u32, u32, std::collections::hash_map::RandomState> = (0..20).fold(CycleMap::default(), |mut m, i| {
        m.insert(i, i + 100);
        m
    });
    let mut b: CycleMap<u32, u32, std::collections::hash_map::RandomState> = CycleMap::default();
    b.insert(7, 7);
    b.clone_from(&a);
    for i in 0..20 {
        assert_eq!(b.get_right(&i), Some(&(i + 100)));
    }
}
''')

bug("c07-count-all", "C07", [(C, """                Some((left, right))
            },
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.left_iter.size_hint()
    }""", """                Some((left, right))
            },
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.left_iter.len();
        (len, Some(len))
    }
    // No need to look every partner up
    fn count(self) -> usize {
        self.map_ref.len()
    }""")],
 "counting what is left of an iterator that has already yielded something",
 "count() counts the pairs already yielded, too",
 '''
use cycle_map::CycleMap;
fn main() {
    let map: CycleMap<u32, u32> = (0..5).map(|i| (i, i)).collect();
    let mut iter = map.iter();
    iter.next();
    iter.next();
    assert_eq!(iter.count(), 3);
}
''')
