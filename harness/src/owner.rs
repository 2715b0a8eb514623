//! Ownership: every item that is put into a map leaves it exactly once. Items count their drops; the
//! solver's checks of every pointer access are switched on for these harnesses.
use crate::base::*;
use cycle_map::optionals::OptionalPair;
use cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use std::borrow::Borrow;
use std::hash::{Hash, Hasher};

/// Which items exist, by number
static mut LIVE: u64 = 0;
/// A dropped item was dropped again
static mut TWICE: bool = false;
/// A dropped item was looked at
static mut AFTER: bool = false;

/// An item, and a number that no other item has
pub struct O {
    q: Q,
    n: u8,
    /// Natively, an address that tools can see the use of
    #[cfg(not(kani))]
    heap: Box<u8>,
}
impl O {
    fn new(q: u8, n: u8) -> O {
        unsafe { LIVE |= 1 << n };
        O {
            q: Q(q),
            n,
            #[cfg(not(kani))]
            heap: Box::new(n),
        }
    }
    #[inline]
    fn used(&self) {
        unsafe {
            if LIVE >> self.n & 1 == 0 {
                AFTER = true;
            }
        }
        #[cfg(not(kani))]
        if *self.heap != self.n {
            unsafe { AFTER = true };
        }
    }
}
impl Drop for O {
    #[inline]
    fn drop(&mut self) {
        unsafe {
            if LIVE >> self.n & 1 == 0 {
                TWICE = true;
                // The memory isn't given back twice
                #[cfg(not(kani))]
                std::mem::forget(std::mem::replace(&mut self.heap, Box::new(0)));
            }
            LIVE &= !(1 << self.n);
        }
    }
}
impl PartialEq for O {
    #[inline]
    fn eq(&self, other: &O) -> bool {
        self.used();
        other.used();
        self.q.0 == other.q.0
    }
}
impl Eq for O {}
impl Hash for O {
    #[inline]
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.used();
        state.write_u8(self.q.0)
    }
}
impl Clone for O {
    fn clone(&self) -> O {
        self.used();
        O::new(self.q.0, self.n + 32)
    }
}
impl Borrow<Q> for O {
    fn borrow(&self) -> &Q {
        self.used();
        &self.q
    }
}
impl PartialEq<O> for Q {
    fn eq(&self, other: &O) -> bool {
        other.used();
        self.0 == other.q.0
    }
}

// Numbers: 0.. left and 8.. right items that are there before, 16.. new ones, 24.. arguments that
// are lent, clones 32 higher
fn l0(i: u8) -> O {
    O::new(i, i)
}
fn r0(j: u8) -> O {
    O::new(R0 + j, 8 + j)
}
fn l1(i: u8) -> O {
    O::new(i, 16)
}
fn r1(j: u8) -> O {
    O::new(R0 + j, 17)
}
fn l2(i: u8) -> O {
    O::new(i, 18)
}
fn r2(j: u8) -> O {
    O::new(R0 + j, 19)
}
fn al(i: u8) -> O {
    O::new(i, 24)
}
fn ar(j: u8) -> O {
    O::new(R0 + j, 25)
}

fn start() {
    unsafe {
        LIVE = 0;
        TWICE = false;
        AFTER = false;
    }
    setup(true);
    backwards(false);
}
/// Everything, the map included, is gone
fn end() {
    unsafe {
        assert!(!TWICE, "API: an item is dropped twice");
        assert!(!AFTER, "API: an item is used after it was dropped");
        assert!(LIVE == 0, "API: an item is never dropped");
    }
}

type Cm = CycleMap<O, O, S>;
type Pm = PartialCycleMap<O, O, S>;
type Gm = GroupMap<O, O, S>;

fn cm(present: u8) -> Cm {
    start();
    let mut map = Cm::with_capacity_and_hasher(room(), S(0));
    let mut i = 0;
    while i < P {
        pref(i);
        if present >> i & 1 == 1 {
            map.insert(l0(i as u8), r0(i as u8));
        }
        i += 1;
    }
    setup(false);
    map
}
fn pm_add(map: &mut Pm, i: usize, kind: u8) {
    pref(i);
    let i = i as u8;
    if kind == 1 || kind == 3 || kind == 4 {
        map.insert_left(l0(i));
    }
    if kind == 2 || kind == 3 || kind == 4 {
        map.insert_right(r0(i));
    }
    if kind == 4 {
        map.pair(&al(i), &ar(i));
    }
}
fn pm(kinds: &[u8]) -> Pm {
    start();
    let mut map = Pm::with_capacity_and_hasher(room(), S(0));
    let mut i = 0;
    while i < kinds.len() {
        pm_add(&mut map, i, kinds[i]);
        i += 1;
    }
    setup(false);
    map
}
fn gm(ups: &[u8], rights: u8) -> Gm {
    start();
    let mut map = Gm::with_capacity_and_hasher(room(), S(0));
    let mut j = 0;
    while j < rights {
        pref(j as usize);
        map.insert_right(r0(j));
        j += 1;
    }
    let mut i = 0;
    while i < ups.len() {
        pref(i);
        map.insert_left(l0(i as u8), &ar(ups[i]));
        i += 1;
    }
    setup(false);
    map
}
fn cm_any(s: &mut Src) -> Cm {
    cm(s.bits(P as u32))
}
/// Up to two indices
fn pm_any(s: &mut Src) -> Pm {
    let (a, b) = (s.below(5), s.below(5));
    pm(&[a, b])
}
/// Groups of two, one and none
fn gm_any(_: &mut Src) -> Gm {
    gm(&[0, 0, 1], 3)
}
/// Takes `k` items
fn take<I: Iterator>(mut it: I, k: u8) {
    let mut n = 0;
    while n < k {
        drop(it.next());
        n += 1;
    }
}
/// Lookups afterwards use no item that is gone
fn look_cm(map: &Cm, s: &mut Src) {
    let p = s.ix();
    if let Some(x) = map.get_right(&Q(p)) {
        x.used();
    }
    if let Some(x) = map.get_left(&Q(R0 + p)) {
        x.used();
    }
}
fn look_pm(map: &Pm, s: &mut Src) {
    let p = s.ix();
    if let Some(x) = map.get_right(&Q(p)) {
        x.used();
    }
    if let Some(x) = map.get_left(&Q(R0 + p)) {
        x.used();
    }
}
fn look_gm(map: &Gm, s: &mut Src) {
    let p = s.ix();
    if let Some(x) = map.get_right(&Q(p)) {
        x.used();
    }
    map.contains_right(&ar(p));
}

/// Builds a map, runs an operation, looks at the map and drops it
macro_rules! owned {
    ($build:expr, $look:expr, $Map:ty, $op:expr) => {
        |s| {
            let mut map: $Map = $build(s);
            let op: fn(&mut $Map, &mut Src) = $op;
            op(&mut map, s);
            $look(&map, s);
            drop(map);
            end();
        }
    };
}
macro_rules! on_cm {
    ($op:expr) => {
        owned!(cm_any, look_cm, Cm, $op)
    };
}
macro_rules! on_pm {
    ($op:expr) => {
        owned!(pm_any, look_pm, Pm, $op)
    };
}
macro_rules! on_gm {
    ($op:expr) => {
        owned!(gm_any, look_gm, Gm, $op)
    };
}

harnesses! {
    ow_cm_insert => on_cm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.insert(l1(i), r1(j))) });
    ow_cm_remove => on_cm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.remove(&al(i), &ar(j))) });
    ow_cm_remove_via => on_cm!(|m, s| {
        let (i, j) = (s.ix(), s.ix());
        drop(m.remove_via_left(&al(i)));
        drop(m.remove_via_right(&ar(j)));
    });
    ow_cm_swap_left => on_cm!(|m, s| { let (i, n) = (s.ix(), s.ix()); drop(m.swap_left(&al(i), l1(n))) });
    ow_cm_swap_right => on_cm!(|m, s| { let (j, n) = (s.ix(), s.ix()); drop(m.swap_right(&ar(j), r1(n))) });
    ow_cm_swap_left_checked => on_cm!(|m, s| {
        let (i, j, n) = (s.ix(), s.ix(), s.ix());
        drop(m.swap_left_checked(&al(i), &ar(j), l1(n)))
    });
    ow_cm_swap_right_checked => on_cm!(|m, s| {
        let (i, j, n) = (s.ix(), s.ix(), s.ix());
        drop(m.swap_right_checked(&ar(j), &al(i), r1(n)))
    });
    ow_cm_swap_left_or_insert => on_cm!(|m, s| {
        let (i, n, o) = (s.ix(), s.ix(), s.ix());
        drop(m.swap_left_or_insert(&al(i), l1(n), r1(o)))
    });
    ow_cm_swap_right_or_insert => on_cm!(|m, s| {
        let (j, n, o) = (s.ix(), s.ix(), s.ix());
        drop(m.swap_right_or_insert(&ar(j), r1(n), l1(o)))
    });
    ow_cm_retain => |s| {
        let p = s.ix();
        subsets(|mask| {
            let mut m = cm(7);
            m.retain(|a, _| mask >> (a.q.0 & 3) & 1 == 1);
            finish_cm(m, p);
        })
    };
    ow_cm_drain => on_cm!(|m, s| { let k = s.below(4); take(m.drain(), k) });
    ow_cm_drain_filter_0 => |s| { let p = s.ix(); subsets(|mask| cm_drain_filter(mask, 0, p)) };
    ow_cm_drain_filter_1 => |s| { let p = s.ix(); subsets(|mask| cm_drain_filter(mask, 1, p)) };
    ow_cm_drain_filter_all => |s| { let p = s.ix(); subsets(|mask| cm_drain_filter(mask, N as u8, p)) };
    ow_cm_clear => on_cm!(|m, s| if s.flag() { m.clear() } else { m.shrink_to_fit() });
    ow_cm_clone => on_cm!(|m, s| { let mut c = m.clone(); let i = s.ix(); drop(c.remove_via_left(&al(i))) });
    ow_cm_extend => |s| {
        let mut m = cm(1);
        let (i, j, i2, j2) = (s.ix(), s.ix(), s.ix(), s.ix());
        m.extend([(l1(i), r1(j)), (l2(i2), r2(j2))]);
        look_cm(&m, s);
        drop(m);
        end();
    };

    ow_pm_insert => on_pm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.insert(l1(i), r1(j))) });
    ow_pm_insert_one => on_pm!(|m, s| {
        let i = s.ix();
        if s.flag() { drop(m.insert_left(l1(i))) } else { drop(m.insert_right(r1(i))) }
    });
    ow_pm_pair => on_pm!(|m, s| {
        let (i, j) = (s.ix(), s.ix());
        if s.flag() { m.pair(&al(i), &ar(j)); } else { m.unpair(&al(i), &ar(j)); }
    });
    ow_pm_pair_forced => on_pm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.pair_forced(&al(i), &ar(j))) });
    ow_pm_pair_forced_remove => on_pm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.pair_forced_remove(&al(i), &ar(j))) });
    ow_pm_remove => on_pm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.remove(&al(i), &ar(j))) });
    ow_pm_remove_one => on_pm!(|m, s| {
        let i = s.ix();
        if s.flag() { drop(m.remove_left(&al(i))) } else { drop(m.remove_right(&ar(i))) }
    });
    ow_pm_remove_via => on_pm!(|m, s| {
        let i = s.ix();
        if s.flag() { drop(m.remove_via_left(&al(i))) } else { drop(m.remove_via_right(&ar(i))) }
    });
    ow_pm_swap_left => on_pm!(|m, s| { let (i, n) = (s.ix(), s.ix()); drop(m.swap_left(&al(i), l1(n))) });
    ow_pm_swap_right => on_pm!(|m, s| { let (j, n) = (s.ix(), s.ix()); drop(m.swap_right(&ar(j), r1(n))) });
    ow_pm_swap_left_checked => on_pm!(|m, s| {
        let (i, j, n) = (s.ix(), s.ix(), s.ix());
        drop(m.swap_left_checked(&al(i), &ar(j), l1(n)))
    });
    ow_pm_swap_right_checked => on_pm!(|m, s| {
        let (i, j, n) = (s.ix(), s.ix(), s.ix());
        drop(m.swap_right_checked(&ar(j), &al(i), r1(n)))
    });
    ow_pm_swap_left_or_insert => on_pm!(|m, s| {
        let (i, n, o) = (s.ix(), s.ix(), s.ix());
        drop(m.swap_left_or_insert(&al(i), l1(n), r1(o)))
    });
    ow_pm_swap_right_or_insert => on_pm!(|m, s| {
        let (j, n, o) = (s.ix(), s.ix(), s.ix());
        drop(m.swap_right_or_insert(&ar(j), r1(n), l1(o)))
    });
    ow_pm_retain_0 => |s| { pattern(0); pm_subsets(s, |m, mask| m.retain(|e| mask >> pm_class(&e) & 1 == 1)) };
    ow_pm_retain_1 => |s| { pattern(1); pm_subsets(s, |m, mask| m.retain(|e| mask >> pm_class(&e) & 1 == 1)) };
    ow_pm_retain_2 => |s| { pattern(2); pm_subsets(s, |m, mask| m.retain(|e| mask >> pm_class(&e) & 1 == 1)) };
    ow_pm_retain_paired_0 => |s| { pattern(0); pm_subsets(s, |m, mask| m.retain_paired(|_, _| mask >> 3 & 1 == 1)) };
    ow_pm_retain_paired_1 => |s| { pattern(1); pm_subsets(s, |m, mask| m.retain_paired(|_, _| mask >> 3 & 1 == 1)) };
    ow_pm_retain_paired_2 => |s| { pattern(2); pm_subsets(s, |m, mask| m.retain_paired(|_, _| mask >> 3 & 1 == 1)) };
    ow_pm_retain_unpaired_0 => |s| { pattern(0); pm_subsets(s, |m, mask| m.retain_unpaired(|e| mask >> pm_class(&e) & 1 == 1)) };
    ow_pm_retain_unpaired_1 => |s| { pattern(1); pm_subsets(s, |m, mask| m.retain_unpaired(|e| mask >> pm_class(&e) & 1 == 1)) };
    ow_pm_retain_unpaired_2 => |s| { pattern(2); pm_subsets(s, |m, mask| m.retain_unpaired(|e| mask >> pm_class(&e) & 1 == 1)) };
    ow_pm_drain => |s| {
        let mut m = pm(&[4, 3]);
        let k = s.below(4);
        take(m.drain(), k);
        look_pm(&m, s);
        drop(m);
        end();
    };
    ow_pm_drain_filter_0 => |s| pm_subsets(s, |m, mask| take(m.drain_filter(|e| mask >> pm_class(&e) & 1 == 1), 0));
    ow_pm_drain_filter_1 => |s| pm_subsets(s, |m, mask| take(m.drain_filter(|e| mask >> pm_class(&e) & 1 == 1), 1));
    ow_pm_drain_filter_all => |s| pm_subsets(s, |m, mask| take(m.drain_filter(|e| mask >> pm_class(&e) & 1 == 1), 4));
    ow_pm_clear => on_pm!(|m, s| if s.flag() { m.clear() } else { m.shrink_to_fit() });
    ow_pm_clone => on_pm!(|m, s| { let mut c = m.clone(); let i = s.ix(); drop(c.remove_via_left(&al(i))) });
    ow_pm_extend => |s| {
        let mut m = pm(&[4]);
        let (i, j) = (s.ix(), s.ix());
        m.extend([(l1(i), r1(j))]);
        let (i, j) = (s.ix(), s.ix());
        m.extend([match s.below(4) {
            0 => OptionalPair::Neither,
            1 => OptionalPair::SomeLeft(l2(i)),
            2 => OptionalPair::SomeRight(r2(j)),
            _ => OptionalPair::SomeBoth(l2(i), r2(j)),
        }]);
        look_pm(&m, s);
        drop(m);
        end();
    };

    ow_gm_insert => on_gm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.insert(l1(i), r1(j))) });
    ow_gm_insert_remove => on_gm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.insert_remove(l1(i), r1(j))) });
    ow_gm_insert_left => on_gm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.insert_left(l1(i), &ar(j))) });
    ow_gm_insert_right => on_gm!(|m, s| { let j = s.ix(); drop(m.insert_right(r1(j))) });
    ow_gm_pair => on_gm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.pair(&al(i), &ar(j))) });
    ow_gm_swap_right => on_gm!(|m, s| { let (j, n) = (s.ix(), s.ix()); drop(m.swap_right(&ar(j), r1(n))) });
    ow_gm_swap_right_remove => on_gm!(|m, s| { let (j, n) = (s.ix(), s.ix()); drop(m.swap_right_remove(&ar(j), r1(n))) });
    ow_gm_remove => on_gm!(|m, s| { let (i, j) = (s.ix(), s.ix()); drop(m.remove(&al(i), &ar(j))) });
    ow_gm_remove_left => on_gm!(|m, s| { let i = s.ix(); drop(m.remove_left(&al(i))) });
    ow_gm_remove_right => on_gm!(|m, s| { let j = s.ix(); drop(m.remove_right(&ar(j))) });
    ow_gm_retain_paired => |s| gm_subsets(s, &[0, 0, 1], |m, mask| m.retain_paired(|a, _| mask >> (a.q.0 & 3) & 1 == 1));
    ow_gm_retain_unpaired => |s| gm_subsets(s, &[0], |m, mask| m.retain_unpaired(|b| mask >> (b.q.0 & 3) & 1 == 1));
    ow_gm_clear => on_gm!(|m, _| m.clear());
    ow_gm_clone => on_gm!(|m, s| { let mut c = m.clone(); let i = s.ix(); drop(c.remove_right(&ar(i))) });
    ow_gm_extend => |s| {
        let mut m = gm(&[0], 2);
        let (i, j) = (s.ix(), s.ix());
        m.extend([(l1(i), r1(j))]);
        look_gm(&m, s);
        drop(m);
        end();
    };
}

/// Which bit of a mask says what happens to an entry
fn pm_class(e: &OptionalPair<&O, &O>) -> u8 {
    match e {
        OptionalPair::Neither => 0,
        OptionalPair::SomeLeft(_) => 1,
        OptionalPair::SomeRight(_) => 2,
        OptionalPair::SomeBoth(..) => 3,
    }
}
fn finish_cm(m: Cm, p: u8) {
    if let Some(x) = m.get_right(&Q(p)) {
        x.used();
    }
    if let Some(x) = m.get_left(&Q(R0 + p)) {
        x.used();
    }
    drop(m);
    end();
}
fn cm_drain_filter(mask: u8, k: u8, p: u8) {
    let mut m = cm(7);
    take(m.drain_filter(|a, _| mask >> (a.q.0 & 3) & 1 == 1), k);
    finish_cm(m, p);
}
/// A pair and two single items, every predicate, any hash function
fn pm_subsets(s: &mut Src, op: fn(&mut Pm, u8)) {
    let p = s.ix();
    subsets(|mask| {
        let mut m = pm(&[4, 3]);
        op(&mut m, mask << 1);
        if let Some(x) = m.get_right(&Q(p)) {
            x.used();
        }
        if let Some(x) = m.get_left(&Q(R0 + p)) {
            x.used();
        }
        drop(m);
        end();
    })
}
fn gm_subsets(s: &mut Src, ups: &[u8], op: fn(&mut Gm, u8)) {
    let p = s.ix();
    subsets(|mask| {
        let mut m = gm(ups, 3);
        op(&mut m, mask);
        if let Some(x) = m.get_right(&Q(p)) {
            x.used();
        }
        drop(m);
        end();
    })
}
