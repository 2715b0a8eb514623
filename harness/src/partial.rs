//! `PartialCycleMap`
use crate::base::*;
use crate::one::{done, spec_swap_l, spec_swap_r};
use cycle_map::partial_cycle_map::PartialCycleMap;
use cycle_map::OptionalPair::{self, *};

pub type Map = PartialCycleMap<K, K, S>;
type Op = OptionalPair<K, K>;

/// What is there with index `i`: nothing, a left item, a right item, both, or a pair
pub const NONE: u8 = 0;
pub const LEFT: u8 = 1;
pub const RIGHT: u8 = 2;
pub const BOTH: u8 = 3;
pub const PAIR: u8 = 4;

pub fn add(map: &mut Map, m: &mut M, i: usize, kind: u8) {
    let x = i as u8;
    pref(i);
    if kind == LEFT || kind >= BOTH {
        map.insert_left(l(x, 0));
        m.put_l(x, 0);
    }
    if kind >= RIGHT {
        map.insert_right(r(x, 0));
        m.put_r(x, 0);
    }
    if kind == PAIR {
        map.pair(&l(x, 9), &r(x, 9));
        m.link(x, x);
    }
}

/// An arbitrary map
pub fn pre(s: &mut Src) -> (Map, M) {
    let mut map = Map::with_capacity_and_hasher(room(), S(0));
    let mut m = M::new();
    setup(true);
    backwards(false);
    let mut i = 0;
    while i < P {
        if i == P - 1 {
            history(&mut map, used_up(s));
        }
        let kind = s.below(5);
        add(&mut map, &mut m, i, kind);
        i += 1;
    }
    setup(false);
    (map, m)
}

/// The map had other items before
pub fn history(map: &mut Map, n: u64) {
    #[cfg(not(kani))]
    if n <= 300 || cfg!(not(cycle_map_verif)) {
        assume(n < 1 << 17);
        for _ in 0..n {
            map.insert_left(l(P as u8, 8));
            map.remove_left(&l(P as u8, 8));
        }
        return;
    }
    #[cfg(cycle_map_verif)]
    map.verif_skip(n);
    let _ = (map, n);
}

/// The map with items of the given kinds
pub fn with(kinds: &[u8]) -> (Map, M) {
    let mut map = Map::with_capacity_and_hasher(room(), S(0));
    let mut m = M::new();
    setup(true);
    backwards(false);
    let mut i = 0;
    while i < kinds.len() {
        add(&mut map, &mut m, i, kinds[i]);
        i += 1;
    }
    setup(false);
    (map, m)
}

/// The map is exactly `m`
pub fn check<B>(map: &PartialCycleMap<K, K, B>, m: &M, s: &mut Src)
where
    B: std::hash::BuildHasher,
{
    assert!(map.len_left() == m.len_l(), "API: number of left items");
    assert!(map.len_right() == m.len_r(), "API: number of right items");
    assert!(map.is_empty() == (m.len_l() + m.len_r() == 0), "API: is_empty");
    probe(s, |p| {
        assert!(map.contains_left(&l(p, 9)) == m.has_l(p), "API: contains_left");
        assert!(map.is_left_paired(&l(p, 9)) == (m.lp[p as usize] != NO), "API: is_left_paired");
        let g = map.get_right(&Q(p));
        match g {
            None => assert!(m.lp[p as usize] == NO, "API: right item lost"),
            Some(x) => {
                let q = m.lp[p as usize];
                assert!(q != NO && is_r(x, q, m.r[q as usize]), "API: wrong right item")
            }
        }
    });
    probe(s, |q| {
        assert!(map.contains_right(&r(q, 9)) == m.has_r(q), "API: contains_right");
        assert!(map.is_right_paired(&r(q, 9)) == (m.rp[q as usize] != NO), "API: is_right_paired");
        let g = map.get_left(&Q(R0 + q));
        match g {
            None => assert!(m.rp[q as usize] == NO, "API: left item lost"),
            Some(x) => {
                let p = m.rp[q as usize];
                assert!(p != NO && is_l(x, p, m.l[p as usize]), "API: wrong left item")
            }
        }
    });
}

/// The right instances of unpaired items are in the map
pub fn check_instances<B>(map: &PartialCycleMap<K, K, B>, m: &M, s: &mut Src)
where
    B: std::hash::BuildHasher,
{
    let p = s.ix();
    for k in map.iter_left() {
        if k.q.0 == p {
            assert!(k.tag == m.l[p as usize], "API: another instance of a left item");
        }
    }
    for k in map.iter_right() {
        if k.q.0 == R0 + p {
            assert!(k.tag == m.r[p as usize], "API: another instance of a right item");
        }
    }
}

/// The internal state is one that the next operation can start from
pub fn inv<B>(map: &PartialCycleMap<K, K, B>, m: &M, s: &mut Src) {
    #[cfg(cycle_map_verif)]
    {
        if !s.inv {
            return;
        }
        let p = s.ix();
        let p2 = s.ix();
        let q = s.ix();
        let (mut lc, mut lh, mut li) = (0u8, None, 0);
        let (mut rc, mut rh, mut ri) = (0u8, None, 0);
        let mut li2 = None;
        map.verif_left(|k, h, id| {
            if k.q.0 == p {
                lc += 1;
                lh = h;
                li = id;
            }
            if k.q.0 == p2 {
                li2 = Some(id);
            }
        });
        let mut ri2 = None;
        map.verif_right(|k, h, id| {
            if k.q.0 == R0 + q {
                rc += 1;
                rh = h;
                ri = id;
            }
            if k.q.0 == R0 + p2 {
                ri2 = Some(id);
            }
        });
        let c = map.verif_counter();
        assert!(lc == m.has_l(p) as u8 && rc == m.has_r(q) as u8, "INV: entries");
        if lc == 1 {
            let j = m.lp[p as usize];
            assert!(lh == if j == NO { None } else { Some(hash_r(j)) }, "INV: stored hash of the right item");
            assert!(li < c, "INV: id of a left item is not fresh");
            assert!(p == p2 || li2 != Some(li), "INV: left items share an id");
        }
        if rc == 1 {
            let i = m.rp[q as usize];
            assert!(rh == if i == NO { None } else { Some(hash_l(i)) }, "INV: stored hash of the left item");
            assert!(ri < c, "INV: id of a right item is not fresh");
            assert!(q == p2 || ri2 != Some(ri), "INV: right items share an id");
        }
        if lc == 1 && rc == 1 {
            // Else pairing an item anew could make two items of one side share an id
            assert!((li == ri) == m.paired(p, q), "INV: ids");
        }
    }
}

pub fn post(mut map: Map, m: &M, s: &mut Src) {
    check(&map, m, s);
    check_instances(&map, m, s);
    inv(&map, m, s);
    follow(&mut map, &mut m.clone(), s);
    done(map);
}

/// `res` is what was taken out via the left item `i`
pub fn is_taken_l(res: &Op, i: u8, t: Taken) -> bool {
    match res {
        Neither => t == NOTHING,
        SomeLeft(a) => t.partner == NO && is_l(a, i, t.tag) && t.tag != NO,
        SomeRight(_) => false,
        SomeBoth(a, b) => t.partner != NO && is_l(a, i, t.tag) && is_r(b, t.partner, t.ptag),
    }
}
/// `res` is what was taken out via the right item `j`
pub fn is_taken_r(res: &Op, j: u8, t: Taken) -> bool {
    match res {
        Neither => t == NOTHING,
        SomeLeft(_) => false,
        SomeRight(b) => t.partner == NO && is_r(b, j, t.tag) && t.tag != NO,
        SomeBoth(a, b) => t.partner != NO && is_l(a, t.partner, t.ptag) && is_r(b, j, t.tag),
    }
}

pub fn insert(map: &mut Map, m: &mut M, s: &mut Src, tag: u8) {
    let i = s.ix();
    let j = s.ix();
    let from_l = m.take_via_l(i);
    let from_r = m.take_via_r(j);
    m.put_pair(i, tag, j, tag + 1);
    let (a, b) = map.insert(l(i, tag), r(j, tag + 1));
    assert!(is_taken_l(&a, i, from_l), "API: what insert displaced on the left");
    assert!(is_taken_r(&b, j, from_r), "API: what insert displaced on the right");
}

pub fn insert_left(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let t = m.take_via_l(i);
    m.put_l(i, 1);
    assert!(is_taken_l(&map.insert_left(l(i, 1)), i, t), "API: what insert_left displaced");
}

pub fn insert_right(map: &mut Map, m: &mut M, s: &mut Src) {
    let j = s.ix();
    let t = m.take_via_r(j);
    m.put_r(j, 1);
    assert!(is_taken_r(&map.insert_right(r(j, 1)), j, t), "API: what insert_right displaced");
}

pub fn pair(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let can = m.has_l(i) && m.has_r(j) && m.lp[i as usize] == NO && m.rp[j as usize] == NO;
    if can {
        m.link(i, j);
    }
    assert!(map.pair(&l(i, 9), &r(j, 9)) == can, "API: pair's answer");
}

/// The old partners of `i` and `j` when these are paired by force
fn spec_force(m: &mut M, i: u8, j: u8) -> (u8, u8) {
    if !m.has_l(i) || !m.has_r(j) || m.paired(i, j) {
        return (NO, NO);
    }
    let old_r = m.unlink_l(i);
    let old_l = m.unlink_r(j);
    m.link(i, j);
    (old_l, old_r)
}

pub fn pair_forced(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let (old_l, old_r) = spec_force(m, i, j);
    let res = map.pair_forced(&l(i, 9), &r(j, 9));
    match res.get_left() {
        None => assert!(old_l == NO, "API: pair_forced hides a left item"),
        Some(a) => assert!(old_l != NO && is_l(a, old_l, m.l[old_l as usize]), "API: pair_forced's left item"),
    }
    match res.get_right() {
        None => assert!(old_r == NO, "API: pair_forced hides a right item"),
        Some(b) => assert!(old_r != NO && is_r(b, old_r, m.r[old_r as usize]), "API: pair_forced's right item"),
    }
}

pub fn pair_forced_remove(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let (old_l, old_r) = spec_force(m, i, j);
    let mut tl = NO;
    let mut tr = NO;
    if old_l != NO {
        tl = m.l[old_l as usize];
        m.l[old_l as usize] = NO;
    }
    if old_r != NO {
        tr = m.r[old_r as usize];
        m.r[old_r as usize] = NO;
    }
    let res = map.pair_forced_remove(&l(i, 9), &r(j, 9));
    match res.get_left() {
        None => assert!(old_l == NO, "API: pair_forced_remove hides a left item"),
        Some(a) => assert!(old_l != NO && is_l(a, old_l, tl), "API: pair_forced_remove's left item"),
    }
    match res.get_right() {
        None => assert!(old_r == NO, "API: pair_forced_remove hides a right item"),
        Some(b) => assert!(old_r != NO && is_r(b, old_r, tr), "API: pair_forced_remove's right item"),
    }
}

pub fn unpair(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let can = m.paired(i, j);
    if can {
        m.unlink_l(i);
    }
    assert!(map.unpair(&l(i, 9), &r(j, 9)) == can, "API: unpair's answer");
}

pub fn remove(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let t = if m.paired(i, j) { m.take_via_l(i) } else { NOTHING };
    match map.remove(&l(i, 9), &r(j, 9)) {
        None => assert!(t == NOTHING, "API: remove did nothing"),
        Some(p) => assert!(taken_l(&p, i, t), "API: remove"),
    }
}

pub fn remove_left(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    m.unlink_l(i);
    let t = m.l[i as usize];
    m.l[i as usize] = NO;
    match map.remove_left(&l(i, 9)) {
        None => assert!(t == NO, "API: remove_left did nothing"),
        Some(a) => assert!(is_l(&a, i, t), "API: remove_left"),
    }
}

pub fn remove_right(map: &mut Map, m: &mut M, s: &mut Src) {
    let j = s.ix();
    m.unlink_r(j);
    let t = m.r[j as usize];
    m.r[j as usize] = NO;
    match map.remove_right(&r(j, 9)) {
        None => assert!(t == NO, "API: remove_right did nothing"),
        Some(a) => assert!(is_r(&a, j, t), "API: remove_right"),
    }
}

pub fn remove_via_left(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let t = m.take_via_l(i);
    assert!(is_taken_l(&map.remove_via_left(&l(i, 9)), i, t), "API: remove_via_left");
}

pub fn remove_via_right(map: &mut Map, m: &mut M, s: &mut Src) {
    let j = s.ix();
    let t = m.take_via_r(j);
    assert!(is_taken_r(&map.remove_via_right(&r(j, 9)), j, t), "API: remove_via_right");
}

pub fn clear(map: &mut Map, m: &mut M, _s: &mut Src) {
    map.clear();
    *m = M::new();
}

fn swapped_l(res: &OptionalPair<K, Op>, old: u8, new: u8, t: u8, eq: Taken) {
    match res {
        Neither => assert!(t == NO, "API: nothing was swapped"),
        SomeLeft(k) => assert!(is_l(k, old, t) && eq == NOTHING, "API: swapped item"),
        SomeRight(_) => panic!("API: something was displaced, but nothing was swapped"),
        SomeBoth(k, p) => {
            assert!(is_l(k, old, t) && eq != NOTHING && is_taken_l(p, new, eq), "API: swapped and displaced items")
        }
    }
}

fn swapped_r(res: &OptionalPair<K, Op>, old: u8, new: u8, t: u8, eq: Taken) {
    match res {
        Neither => assert!(t == NO, "API: nothing was swapped"),
        SomeLeft(k) => assert!(is_r(k, old, t) && eq == NOTHING, "API: swapped item"),
        SomeRight(_) => panic!("API: something was displaced, but nothing was swapped"),
        SomeBoth(k, p) => {
            assert!(is_r(k, old, t) && eq != NOTHING && is_taken_r(p, new, eq), "API: swapped and displaced items")
        }
    }
}

pub fn swap_left(map: &mut Map, m: &mut M, s: &mut Src) {
    let old = s.ix();
    let new = s.ix();
    let (t, eq) = spec_swap_l(m, old, new, 1);
    swapped_l(&map.swap_left(&l(old, 9), l(new, 1)), old, new, t, eq);
}

pub fn swap_right(map: &mut Map, m: &mut M, s: &mut Src) {
    let old = s.ix();
    let new = s.ix();
    let (t, eq) = spec_swap_r(m, old, new, 1);
    swapped_r(&map.swap_right(&r(old, 9), r(new, 1)), old, new, t, eq);
}

pub fn swap_left_checked(map: &mut Map, m: &mut M, s: &mut Src) {
    let old = s.ix();
    let expected = s.ix();
    let new = s.ix();
    let (t, eq) = if m.paired(old, expected) {
        spec_swap_l(m, old, new, 1)
    } else {
        (NO, NOTHING)
    };
    let res = map.swap_left_checked(&l(old, 9), &r(expected, 9), l(new, 1));
    swapped_l(&res, old, new, t, eq);
}

pub fn swap_right_checked(map: &mut Map, m: &mut M, s: &mut Src) {
    let old = s.ix();
    let expected = s.ix();
    let new = s.ix();
    let (t, eq) = if m.paired(expected, old) {
        spec_swap_r(m, old, new, 1)
    } else {
        (NO, NOTHING)
    };
    let res = map.swap_right_checked(&r(old, 9), &l(expected, 9), r(new, 1));
    swapped_r(&res, old, new, t, eq);
}

pub fn swap_left_or_insert(map: &mut Map, m: &mut M, s: &mut Src, present: bool) {
    let old = s.ix();
    let new = s.ix();
    let other = s.ix();
    assume(m.has_l(old) == present);
    if present {
        let (t, eq) = spec_swap_l(m, old, new, 1);
        swapped_l(&map.swap_left_or_insert(&l(old, 9), l(new, 1), r(other, 2)), old, new, t, eq);
    } else {
        let from_l = m.take_via_l(new);
        let from_r = m.take_via_r(other);
        m.put_pair(new, 1, other, 2);
        let res = map.swap_left_or_insert(&l(old, 9), l(new, 1), r(other, 2));
        match res.get_left() {
            None => assert!(from_l == NOTHING, "API: a displaced left item is hidden"),
            Some(k) => assert!(is_l(k, new, from_l.tag), "API: displaced left item"),
        }
        match res.get_right() {
            None => assert!(from_r == NOTHING, "API: a displaced right item is hidden"),
            Some(p) => assert!(from_r != NOTHING && is_taken_r(p, other, from_r), "API: displaced right item"),
        }
    }
}

pub fn swap_right_or_insert(map: &mut Map, m: &mut M, s: &mut Src, present: bool) {
    let old = s.ix();
    let new = s.ix();
    let other = s.ix();
    assume(m.has_r(old) == present);
    if present {
        let (t, eq) = spec_swap_r(m, old, new, 1);
        swapped_r(&map.swap_right_or_insert(&r(old, 9), r(new, 1), l(other, 2)), old, new, t, eq);
    } else {
        let from_l = m.take_via_l(other);
        let from_r = m.take_via_r(new);
        m.put_pair(other, 2, new, 1);
        let res = map.swap_right_or_insert(&r(old, 9), r(new, 1), l(other, 2));
        match res.get_left() {
            None => assert!(from_r == NOTHING, "API: a displaced right item is hidden"),
            Some(k) => assert!(is_r(k, new, from_r.tag), "API: displaced right item"),
        }
        match res.get_right() {
            None => assert!(from_l == NOTHING, "API: a displaced left item is hidden"),
            Some(p) => assert!(from_l != NOTHING && is_taken_l(p, other, from_l), "API: displaced left item"),
        }
    }
}

/// Two bits per index: is the pair or left item selected, is the unpaired right item selected
fn sel_l(mask: u8, i: u8) -> bool {
    mask >> i & 1 == 1
}
fn sel_r(mask: u8, j: u8) -> bool {
    mask >> (P as u8 + j) & 1 == 1
}

/// An entry of the map, as iterators show it
fn is_entry(m: &M, op: &OptionalPair<&K, &K>) -> bool {
    match op {
        Neither => false,
        SomeLeft(a) => {
            let i = a.q.0;
            (i as usize) < N && m.has_l(i) && m.lp[i as usize] == NO && a.tag == m.l[i as usize]
        }
        SomeRight(b) => {
            let j = b.q.0.wrapping_sub(R0);
            (j as usize) < N && m.has_r(j) && m.rp[j as usize] == NO && b.tag == m.r[j as usize]
        }
        SomeBoth(a, b) => is_pair_of(m, a, b),
    }
}
fn is_pair_of(m: &M, a: &K, b: &K) -> bool {
    let i = a.q.0;
    let j = b.q.0.wrapping_sub(R0);
    (i as usize) < N && (j as usize) < N && m.paired(i, j) && a.tag == m.l[i as usize] && b.tag == m.r[j as usize]
}
fn select(mask: u8, op: &OptionalPair<&K, &K>) -> bool {
    match op {
        Neither => false,
        SomeLeft(a) | SomeBoth(a, _) => sel_l(mask, a.q.0),
        SomeRight(b) => sel_r(mask, b.q.0.wrapping_sub(R0)),
    }
}
fn as_refs(op: &Op) -> OptionalPair<&K, &K> {
    match op {
        Neither => Neither,
        SomeLeft(a) => SomeLeft(a),
        SomeRight(b) => SomeRight(b),
        SomeBoth(a, b) => SomeBoth(a, b),
    }
}
/// Does `op` show the left item `p`, or the unpaired right item `p`?
fn shows(op: &OptionalPair<&K, &K>, p: u8) -> (u8, u8) {
    match op {
        Neither => (0, 0),
        SomeLeft(a) | SomeBoth(a, _) => ((a.q.0 == p) as u8, 0),
        SomeRight(b) => (0, (b.q.0 == R0 + p) as u8),
    }
}
fn single_r(m: &M, j: u8) -> bool {
    m.has_r(j) && m.rp[j as usize] == NO
}

/// Takes every selected entry out; entries of kinds that aren't asked about stay
fn take_selected(m: &mut M, mask: u8, pairs: bool, lefts: bool, rights: bool) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < N {
        let x = i as u8;
        if m.has_l(x) && sel_l(mask, x) && if m.lp[i] != NO { pairs } else { lefts } {
            m.take_via_l(x);
            n += 1;
        }
        if single_r(m, x) && sel_r(mask, x) && rights {
            m.take_via_r(x);
            n += 1;
        }
        i += 1;
    }
    n
}

/// `doc`: entries are dropped when the predicate says false, as documented; else when it says true
pub fn retain(kinds: &[u8], mask: u8, p: u8, doc: bool, s: &mut Src) {
    let (mut map, mut m) = with(kinds);
    let (mut cl, mut cr) = (0, 0);
    map.retain(|op| {
        assert!(is_entry(&m, op), "API: retain shows something that is not in the map");
        let (a, b) = shows(op, p);
        cl += a;
        cr += b;
        select(mask, op)
    });
    assert!(cl == m.has_l(p) as u8, "API: retain does not ask about every left item once");
    if doc {
        assert!(cr == single_r(&m, p) as u8, "API: retain does not ask about every right item once");
    } else {
        assert!(cr == 0, "API: retain asks about unpaired right items");
    }
    take_selected(&mut m, if doc { !mask } else { mask }, true, true, doc);
    post(map, &m, s);
}

pub fn retain_paired(kinds: &[u8], mask: u8, p: u8, doc: bool, s: &mut Src) {
    let (mut map, mut m) = with(kinds);
    let mut calls = 0;
    map.retain_paired(|a, b| {
        assert!(is_pair_of(&m, a, b), "API: retain_paired shows items that are not a pair");
        if a.q.0 == p {
            calls += 1;
        }
        sel_l(mask, a.q.0)
    });
    assert!(calls == (m.lp[p as usize] != NO) as u8, "API: retain_paired does not ask about every pair once");
    take_selected(&mut m, if doc { !mask } else { mask }, true, false, false);
    post(map, &m, s);
}

pub fn retain_unpaired(kinds: &[u8], mask: u8, p: u8, doc: bool, s: &mut Src) {
    let (mut map, mut m) = with(kinds);
    let (mut cl, mut cr) = (0, 0);
    map.retain_unpaired(|op| {
        assert!(is_entry(&m, op) && !matches!(op, SomeBoth(_, _)), "API: retain_unpaired shows something else");
        let (a, b) = shows(op, p);
        cl += a;
        cr += b;
        select(mask, op)
    });
    let single_l = m.has_l(p) && m.lp[p as usize] == NO;
    assert!(cl == single_l as u8, "API: retain_unpaired does not ask about every left item once");
    assert!(cr == single_r(&m, p) as u8, "API: retain_unpaired does not ask about every right item once");
    take_selected(&mut m, if doc { !mask } else { mask }, false, true, true);
    post(map, &m, s);
}

pub fn drain_filter(kinds: &[u8], mask: u8, k: usize, p: u8, s: &mut Src) {
    let (mut map, before) = with(kinds);
    let mut m = before;
    let total = take_selected(&mut m, mask, true, true, true);
    let (mut cl, mut cr, mut sl, mut sr) = (0, 0, 0, 0);
    let mut n = 0;
    {
        let mut it = map.drain_filter(|op| {
            assert!(is_entry(&before, &op), "API: drain_filter shows something that is not in the map");
            let (a, b) = shows(&op, p);
            cl += a;
            cr += b;
            select(mask, &op)
        });
        while n < k {
            let (lo, hi) = it.size_hint();
            let rest = if n < total { total - n } else { 0 };
            assert!(lo <= rest && (hi.is_none() || hi.unwrap() >= rest), "API: drain_filter's size_hint");
            match it.next() {
                None => assert!(n >= total, "API: drain_filter ends early"),
                Some(op) => {
                    let op = as_refs(&op);
                    assert!(n < total && is_entry(&before, &op), "API: drain_filter yields something else");
                    assert!(select(mask, &op), "API: drain_filter yields something that was not selected");
                    let (a, b) = shows(&op, p);
                    sl += a;
                    sr += b;
                }
            }
            n += 1;
        }
    }
    assert!(cl == before.has_l(p) as u8, "API: drain_filter does not ask about every left item once");
    assert!(cr == single_r(&before, p) as u8, "API: drain_filter does not ask about every right item once");
    assert!(sl <= 1 && sr <= 1, "API: drain_filter yields something twice");
    if k >= total {
        let l = before.has_l(p) && sel_l(mask, p);
        let r = single_r(&before, p) && sel_r(mask, p);
        assert!(sl == l as u8 && sr == r as u8, "API: drain_filter leaves something out");
    }
    post(map, &m, s);
}

pub fn drain(kinds: &[u8], k: usize, p: u8, s: &mut Src) {
    let (mut map, m) = with(kinds);
    let total = m.len_l() + m.len_r() - m.pairs();
    let (mut sl, mut sr) = (0, 0);
    let mut n = 0;
    {
        let mut it = map.drain();
        while n < k {
            let rest = if n < total { total - n } else { 0 };
            assert!(it.len() == rest && it.size_hint() == (rest, Some(rest)), "API: drain's length");
            match it.next() {
                None => assert!(n >= total, "API: drain ends early"),
                Some(op) => {
                    let op = as_refs(&op);
                    assert!(n < total && is_entry(&m, &op), "API: drain yields something else");
                    let (a, b) = shows(&op, p);
                    sl += a;
                    sr += b;
                }
            }
            n += 1;
        }
    }
    assert!(sl <= 1 && sr <= 1, "API: drain yields something twice");
    if k >= total {
        assert!(sl == m.has_l(p) as u8 && sr == single_r(&m, p) as u8, "API: drain leaves something out");
    }
    post(map, &M::new(), s);
}

fn same_op(a: &OptionalPair<&K, &K>, b: &OptionalPair<&K, &K>) -> bool {
    let eq = |x: Option<&&K>, y: Option<&&K>| match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => std::ptr::eq(*x, *y),
        _ => false,
    };
    eq(a.get_left(), b.get_left()) && eq(a.get_right(), b.get_right())
}

fn iter(map: &Map, m: &M, p: u8) {
    let (mut sl, mut sr) = (0, 0);
    walk(map.iter(), m.len_l() + m.len_r() - m.pairs(), same_op, |op| {
        assert!(is_entry(m, &op), "API: iter yields something else");
        let (a, b) = shows(&op, p);
        sl += a;
        sr += b;
    });
    assert!(sl == m.has_l(p) as u8 && sr == single_r(m, p) as u8, "API: iter does not yield everything once");
}

fn iter_paired(map: &Map, m: &M, p: u8) {
    let mut seen = 0;
    walk(map.iter_paired(), m.pairs(), same_pair, |(a, b)| {
        assert!(is_pair_of(m, a, b), "API: iter_paired yields something else");
        if a.q.0 == p {
            seen += 1;
        }
    });
    assert!(seen == (m.lp[p as usize] != NO) as u8, "API: iter_paired does not yield every pair once");
}

fn iter_unpaired(map: &Map, m: &M, p: u8) {
    let (mut sl, mut sr) = (0, 0);
    walk(map.iter_unpaired(), m.len_l() + m.len_r() - 2 * m.pairs(), same_op, |op| {
        assert!(is_entry(m, &op) && !matches!(op, SomeBoth(_, _)), "API: iter_unpaired yields something else");
        let (a, b) = shows(&op, p);
        sl += a;
        sr += b;
    });
    let single_l = m.has_l(p) && m.lp[p as usize] == NO;
    assert!(sl == single_l as u8 && sr == single_r(m, p) as u8, "API: iter_unpaired does not yield everything once");
}

fn iter_sides(map: &Map, m: &M, p: u8) {
    let mut seen = 0;
    walk(map.iter_left(), m.len_l(), same_ref, |a| {
        if a.q.0 == p {
            assert!(m.has_l(p) && is_l(a, p, m.l[p as usize]), "API: iter_left yields something else");
            seen += 1;
        }
    });
    assert!(seen == m.has_l(p) as u8, "API: iter_left does not yield every item once");
    let mut seen = 0;
    walk(map.iter_right(), m.len_r(), same_ref, |a| {
        if a.q.0 == R0 + p {
            assert!(m.has_r(p) && is_r(a, p, m.r[p as usize]), "API: iter_right yields something else");
            seen += 1;
        }
    });
    assert!(seen == m.has_r(p) as u8, "API: iter_right does not yield every item once");
}

fn iter_rest(kinds: &[u8], s: &mut Src) {
    pattern(2);
    let (map, _) = with(kinds);
    match s.below(5) {
        0 => ends(map.iter(), s, same_op),
        1 => ends(map.iter_paired(), s, same_pair),
        2 => ends(map.iter_unpaired(), s, same_op),
        3 => ends(map.iter_left(), s, same_ref),
        _ => ends(map.iter_right(), s, same_ref),
    }
    done(map);
}

fn iterate(map: &mut Map, m: &mut M, s: &mut Src) {
    let p = s.ix();
    iter(map, m, p);
    iter_paired(map, m, p);
    iter_unpaired(map, m, p);
    iter_sides(map, m, p);
}

fn on(f: fn(&Map, &M, u8), kinds: &[u8], p: u8) {
    let (map, m) = with(kinds);
    f(&map, &m, p);
    done(map);
}

fn lookups(s: &mut Src) {
    let (map, m) = pre(s);
    check(&map, &m, s);
    let i = s.ix();
    let j = s.ix();
    assert!(map.are_paired(&l(i, 9), &r(j, 9)) == m.paired(i, j), "API: are_paired");
    let by_item = map.get_right(&l(i, 9)).map(|x| x as *const K);
    assert!(by_item == map.get_right(&Q(i)).map(|x| x as *const K), "API: get_right by item");
    let by_item = map.get_left(&r(j, 9)).map(|x| x as *const K);
    assert!(by_item == map.get_left(&Q(R0 + j)).map(|x| x as *const K), "API: get_left by item");
    done(map);
}

/// A map whose items are hashed with another salt
fn other(s: &mut Src, salt: u64) -> (Map, M) {
    let mut map = Map::with_hasher(S(salt));
    let mut m = M::new();
    setup(true);
    backwards(true);
    let mut i = 0;
    while i < 2 {
        let x = i as u8;
        pref(i);
        if s.flag() {
            map.insert_left(l(x, 5));
            m.put_l(x, 5);
        }
        if s.flag() {
            map.insert_right(r(x, 5));
            m.put_r(x, 5);
        }
        i += 1;
    }
    // At most the pairs (0, 0), (1, 1) or the pairs (0, 1), (1, 0)
    let cross = s.flag() as u8;
    let mut i = 0;
    while i < 2 {
        let x = i as u8;
        let y = x ^ cross;
        if m.has_l(x) && m.has_r(y) && s.flag() {
            map.pair(&l(x, 9), &r(y, 9));
            m.link(x, y);
        }
        i += 1;
    }
    setup(false);
    (map, m)
}

/// `doc`: maps are equal if they hold the same, as documented. Else: the present answer, which is
/// also "equal" if everything in `a` is the same in `b` and one side has as many items.
fn equality(s: &mut Src, doc: bool) {
    let (a, ma) = other(s, 0);
    let (b, mb) = other(s, 0x3 << 57 | 0x15);
    let mut subset = true;
    let mut i = 0;
    while i < 2 {
        let x = i as u8;
        if ma.has_l(x) {
            subset &= mb.has_l(x) && ma.lp[i] == mb.lp[i];
        }
        if ma.has_r(x) {
            subset &= mb.has_r(x) && ma.rp[i] == mb.rp[i];
        }
        i += 1;
    }
    let (l, r) = (ma.len_l() == mb.len_l(), ma.len_r() == mb.len_r());
    let same = subset && if doc { l && r } else { l || r };
    assert!((a == b) == same, "API: equality");
    #[cfg(not(kani))]
    assert!((a != b) == !same, "API: inequality");
    done(a);
    done(b);
}

fn clone(s: &mut Src) {
    let (a, ma) = pre(s);
    let mut b = a.clone();
    let mut mb = ma;
    if s.flag() {
        insert_right(&mut b, &mut mb, s);
    } else {
        remove_left(&mut b, &mut mb, s);
    }
    check(&a, &ma, s);
    check(&b, &mb, s);
    check_instances(&b, &mb, s);
    inv(&b, &mb, s);
    done(a);
    done(b);
}

fn clone_from(s: &mut Src) {
    let (a, ma) = pre(s);
    let mut b = Map::with_hasher(S(0x3 << 57 | 0x15));
    setup(true);
    b.insert(l(1, 5), r(2, 5));
    b.insert_right(r(0, 5));
    setup(false);
    b.clone_from(&a);
    post(b, &ma, s);
    done(a);
}

/// An arbitrary `OptionalPair` and what inserting it does
fn any_op(s: &mut Src, m: &mut M, tag: u8) -> Op {
    let i = s.ix();
    let j = s.ix();
    match s.bits(2) {
        0 => Neither,
        1 => {
            m.take_via_l(i);
            m.put_l(i, tag);
            SomeLeft(l(i, tag))
        }
        2 => {
            m.take_via_r(j);
            m.put_r(j, tag);
            SomeRight(r(j, tag))
        }
        _ => {
            m.take_via_l(i);
            m.take_via_r(j);
            m.put_pair(i, tag, j, tag);
            SomeBoth(l(i, tag), r(j, tag))
        }
    }
}
fn any_pair(s: &mut Src, m: &mut M, tag: u8) -> (K, K) {
    let i = s.ix();
    let j = s.ix();
    m.take_via_l(i);
    m.take_via_r(j);
    m.put_pair(i, tag, j, tag);
    (l(i, tag), r(j, tag))
}

fn extend_ops(s: &mut Src) {
    let (mut map, mut m) = with(&[PAIR]);
    let x = any_op(s, &mut m, 1);
    let y = any_op(s, &mut m, 2);
    map.extend(feed([x, y], s));
    post(map, &m, s);
}

fn extend_pairs(s: &mut Src) {
    let (mut map, mut m) = with(&[PAIR]);
    let x = any_pair(s, &mut m, 1);
    let y = any_pair(s, &mut m, 2);
    map.extend(feed([x, y], s));
    post(map, &m, s);
}

fn from_iter_ops(s: &mut Src) {
    let mut m = M::new();
    let x = any_op(s, &mut m, 1);
    let y = any_op(s, &mut m, 2);
    let map: PartialCycleMap<K, K> = feed([x, y], s).collect();
    check(&map, &m, s);
    check_instances(&map, &m, s);
    done(map);
}

fn from_iter_pairs(s: &mut Src) {
    let mut m = M::new();
    let x = any_pair(s, &mut m, 1);
    let y = any_pair(s, &mut m, 2);
    let map: PartialCycleMap<K, K> = feed([x, y], s).collect();
    check(&map, &m, s);
    check_instances(&map, &m, s);
    done(map);
}

fn capacity(s: &mut Src) {
    #[cfg(not(kani))]
    for n in 0..40 {
        reserved(&mut s.clone(), Some(n));
    }
    reserved(s, None);
}

/// `given`: the number to reserve or to shrink to, else an arbitrary one
fn reserved(s: &mut Src, given: Option<usize>) {
    let (mut map, m) = with(&[PAIR, LEFT, BOTH]);
    let n = (s.bits(5) as usize) << (s.below(8) * 8 + s.bits(3));
    let n = given.unwrap_or(n);
    sensible(n);
    let (bl, br) = (map.capacity_left(), map.capacity_right());
    assert!(bl >= m.len_l() && br >= m.len_r(), "API: less capacity than items");
    let least = |x: usize| if n < x { n } else { x };
    #[cfg(not(kani))]
    let full = |n: usize| Map::with_capacity_and_hasher(n.min(1000), S(0)).capacity_left();
    match s.below(7) {
        0 => {
            assume(n <= 64);
            map.reserve_left(n);
            assert!(map.capacity_left() >= m.len_l() + n, "API: reserve_left does not reserve");
            assert!(map.capacity_right() == br, "API: reserve_left changes the right side");
        }
        1 => {
            assume(n <= 64);
            map.reserve_right(n);
            assert!(map.capacity_right() >= m.len_r() + n, "API: reserve_right does not reserve");
            assert!(map.capacity_left() == bl, "API: reserve_right changes the left side");
        }
        2 => {
            match map.try_reserve_left(n) {
                Ok(()) => assert!(map.capacity_left() - m.len_l() >= n, "API: try_reserve_left does not reserve"),
                Err(_) => assert!(n > 64 && map.capacity_left() == bl, "API: try_reserve_left fails"),
            }
            assert!(map.capacity_right() == br, "API: try_reserve_left changes the right side");
        }
        3 => {
            match map.try_reserve_right(n) {
                Ok(()) => assert!(map.capacity_right() - m.len_r() >= n, "API: try_reserve_right does not reserve"),
                Err(_) => assert!(n > 64 && map.capacity_right() == br, "API: try_reserve_right fails"),
            }
            assert!(map.capacity_left() == bl, "API: try_reserve_right changes the left side");
        }
        4 => {
            map.shrink_to_left(n);
            let c = map.capacity_left();
            assert!(c >= least(bl) && c <= bl, "API: shrink_to_left");
            #[cfg(not(kani))]
            assert!(c <= full(n.max(m.len_l())), "API: shrink_to_left keeps too much");
            assert!(map.capacity_right() == br, "API: shrink_to_left changes the right side");
        }
        5 => {
            map.shrink_to_right(n);
            let c = map.capacity_right();
            assert!(c >= least(br) && c <= br, "API: shrink_to_right");
            #[cfg(not(kani))]
            assert!(c <= full(n.max(m.len_r())), "API: shrink_to_right keeps too much");
            assert!(map.capacity_left() == bl, "API: shrink_to_right changes the left side");
        }
        _ => {
            map.shrink_to_fit();
            assert!(map.capacity_left() <= bl && map.capacity_right() <= br, "API: shrink_to_fit");
            #[cfg(not(kani))]
            assert!(map.capacity_left() <= full(m.len_l()) && map.capacity_right() <= full(m.len_r()), "API: shrink_to_fit keeps too much");
        }
    }
    post(map, &m, s);
}

fn constructors(s: &mut Src) {
    let n = s.bits(5) as usize;
    constructed(n, s);
    #[cfg(not(kani))]
    for n in 0..40 {
        constructed(n, &mut s.clone());
    }
}

fn constructed(n: usize, s: &mut Src) {
    let m = M::new();
    let map = Map::with_capacity_and_hasher(n, S(7));
    assert!(map.capacity_left() >= n && map.capacity_right() >= n, "API: with_capacity_and_hasher");
    assert!(map.hasher().0 == 7, "API: hasher");
    check(&map, &m, s);
    let map = PartialCycleMap::<K, K>::with_capacity(n);
    assert!(map.capacity_left() >= n && map.capacity_right() >= n, "API: with_capacity");
    check(&map, &m, s);
    let map = PartialCycleMap::<K, K>::new();
    check(&map, &m, s);
    let map = Map::default();
    check(&map, &m, s);
    assert!(map.capacity_left() == 0 && map.capacity_right() == 0, "API: a new map allocates");
}

macro_rules! on_pre {
    ($op:expr) => {
        |s| {
            let (mut map, mut m) = pre(s);
            $op(&mut map, &mut m, s);
            post(map, &m, s);
        }
    };
}

/// Calls `f` with every set of entries of the map `[PAIR, BOTH]`
fn masks(mut f: impl FnMut(u8)) {
    subsets(|x| f(x & 3 | (x & 4) << (P as u8 - 1)));
}
/// Calls `f` with maps and a few sets of entries, with fixed hashes
fn some(mut f: impl FnMut(&[u8], u8)) {
    pattern(0);
    f(&[], 0);
    pattern(1);
    f(&[RIGHT, PAIR], 2);
    pattern(2);
    f(&[PAIR, BOTH, PAIR], 1 | 2);
    pattern(1);
    f(&[BOTH, PAIR, RIGHT], 2 | 1 << P);
    pattern(0);
    f(&[PAIR, PAIR, PAIR], 2);
    pattern(2);
    f(&[BOTH, LEFT, BOTH], 3 | 4 << P);
}
/// Calls `f` with tiny maps, with arbitrary hashes
fn tiny(mut f: impl FnMut(&[u8], u8)) {
    f(&[PAIR], 1);
    f(&[BOTH], 1);
    f(&[BOTH], 1 << P);
    f(&[LEFT, RIGHT], 1);
}

follow_ups!(Map, M, check, [
    |a, b, s| insert(a, b, s, 1),
    insert_left,
    insert_right,
    pair,
    pair,
    pair_forced,
    pair_forced_remove,
    unpair,
    remove,
    remove_left,
    remove_right,
    remove_via_left,
    remove_via_right,
    swap_left,
    swap_right,
    swap_left_checked,
    swap_right_checked,
    iterate,
]);

harnesses! {
    pm_lookups => lookups;
    pm_insert => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| insert(a, b, s, 1));
    pm_insert_left => on_pre!(insert_left);
    pm_insert_right => on_pre!(insert_right);
    pm_pair => on_pre!(pair);
    pm_pair_forced => on_pre!(pair_forced);
    pm_pair_forced_remove => on_pre!(pair_forced_remove);
    pm_unpair => on_pre!(unpair);
    pm_remove => on_pre!(remove);
    pm_remove_left => on_pre!(remove_left);
    pm_remove_right => on_pre!(remove_right);
    pm_remove_via_left => on_pre!(remove_via_left);
    pm_remove_via_right => on_pre!(remove_via_right);
    pm_clear => on_pre!(clear);
    pm_swap_left => on_pre!(swap_left);
    pm_swap_right => on_pre!(swap_right);
    pm_swap_left_checked => on_pre!(swap_left_checked);
    pm_swap_right_checked => on_pre!(swap_right_checked);
    pm_swap_left_or_insert_old => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| swap_left_or_insert(a, b, s, true));
    pm_swap_left_or_insert_new => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| swap_left_or_insert(a, b, s, false));
    pm_swap_right_or_insert_old => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| swap_right_or_insert(a, b, s, true));
    pm_swap_right_or_insert_new => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| swap_right_or_insert(a, b, s, false));
    pm_retain_paired_masks_0 => |s| {
        let p = s.ix();
        pattern(0);
        masks(|mask| retain_paired(&[PAIR, BOTH], mask, p, false, s));
    };
    pm_retain_paired_masks_1 => |s| {
        let p = s.ix();
        pattern(1);
        masks(|mask| retain_paired(&[PAIR, BOTH], mask, p, false, s));
    };
    pm_retain_paired_masks_2 => |s| {
        let p = s.ix();
        pattern(2);
        masks(|mask| retain_paired(&[PAIR, BOTH], mask, p, false, s));
    };
    pm_retain_paired_some => |s| {
        let p = s.ix();
        some(|kinds, mask| retain_paired(kinds, mask, p, false, s));
    };
    pm_retain_paired_tiny => |s| {
        let p = s.ix();
        tiny(|kinds, mask| retain_paired(kinds, mask, p, false, s));
    };
    pm_retain_paired_masks_0_doc => |s| {
        let p = s.ix();
        pattern(0);
        masks(|mask| retain_paired(&[PAIR, BOTH], mask, p, true, s));
    };
    pm_retain_paired_masks_1_doc => |s| {
        let p = s.ix();
        pattern(1);
        masks(|mask| retain_paired(&[PAIR, BOTH], mask, p, true, s));
    };
    pm_retain_paired_masks_2_doc => |s| {
        let p = s.ix();
        pattern(2);
        masks(|mask| retain_paired(&[PAIR, BOTH], mask, p, true, s));
    };
    pm_retain_paired_some_doc => |s| {
        let p = s.ix();
        some(|kinds, mask| retain_paired(kinds, mask, p, true, s));
    };
    pm_retain_paired_tiny_doc => |s| {
        let p = s.ix();
        tiny(|kinds, mask| retain_paired(kinds, mask, p, true, s));
    };
    pm_retain_unpaired_masks_0 => |s| {
        let p = s.ix();
        pattern(0);
        masks(|mask| retain_unpaired(&[PAIR, BOTH], mask, p, false, s));
    };
    pm_retain_unpaired_masks_1 => |s| {
        let p = s.ix();
        pattern(1);
        masks(|mask| retain_unpaired(&[PAIR, BOTH], mask, p, false, s));
    };
    pm_retain_unpaired_masks_2 => |s| {
        let p = s.ix();
        pattern(2);
        masks(|mask| retain_unpaired(&[PAIR, BOTH], mask, p, false, s));
    };
    pm_retain_unpaired_some => |s| {
        let p = s.ix();
        some(|kinds, mask| retain_unpaired(kinds, mask, p, false, s));
    };
    pm_retain_unpaired_tiny => |s| {
        let p = s.ix();
        tiny(|kinds, mask| retain_unpaired(kinds, mask, p, false, s));
    };
    pm_retain_unpaired_masks_0_doc => |s| {
        let p = s.ix();
        pattern(0);
        masks(|mask| retain_unpaired(&[PAIR, BOTH], mask, p, true, s));
    };
    pm_retain_unpaired_masks_1_doc => |s| {
        let p = s.ix();
        pattern(1);
        masks(|mask| retain_unpaired(&[PAIR, BOTH], mask, p, true, s));
    };
    pm_retain_unpaired_masks_2_doc => |s| {
        let p = s.ix();
        pattern(2);
        masks(|mask| retain_unpaired(&[PAIR, BOTH], mask, p, true, s));
    };
    pm_retain_unpaired_some_doc => |s| {
        let p = s.ix();
        some(|kinds, mask| retain_unpaired(kinds, mask, p, true, s));
    };
    pm_retain_unpaired_tiny_doc => |s| {
        let p = s.ix();
        tiny(|kinds, mask| retain_unpaired(kinds, mask, p, true, s));
    };
    pm_retain_masks_0 => |s| {
        let p = s.ix();
        pattern(0);
        retain(&[PAIR, BOTH], 0, p, false, s);
        pattern(1);
        retain(&[PAIR, BOTH], 0 | 1 << P + 1, p, false, s);
    };
    pm_retain_masks_1 => |s| {
        let p = s.ix();
        pattern(1);
        retain(&[PAIR, BOTH], 1, p, false, s);
        pattern(2);
        retain(&[PAIR, BOTH], 1 | 1 << P + 1, p, false, s);
    };
    pm_retain_masks_2 => |s| {
        let p = s.ix();
        pattern(2);
        retain(&[PAIR, BOTH], 2, p, false, s);
        pattern(0);
        retain(&[PAIR, BOTH], 2 | 1 << P + 1, p, false, s);
    };
    pm_retain_masks_3 => |s| {
        let p = s.ix();
        pattern(0);
        retain(&[PAIR, BOTH], 3, p, false, s);
        pattern(1);
        retain(&[PAIR, BOTH], 3 | 1 << P + 1, p, false, s);
    };
    pm_retain_some => |s| {
        let p = s.ix();
        pattern(2);
        retain(&[RIGHT, PAIR], 2, p, false, s);
        retain(&[], 0, p, false, s);
        retain(&[PAIR], 1, p, false, s);
    };
    pm_retain_large => |s| {
        let p = s.ix();
        pattern(2);
        retain(&[PAIR, LEFT, PAIR], 3, p, false, s);
    };
    pm_retain_tiny => |s| {
        let p = s.ix();
        retain(&[BOTH], 1, p, false, s);
        retain(&[BOTH], 1 << P, p, false, s);
    };
    pm_retain_masks_0_doc => |s| {
        let p = s.ix();
        pattern(0);
        retain(&[PAIR, BOTH], 0, p, true, s);
        pattern(1);
        retain(&[PAIR, BOTH], 0 | 1 << P + 1, p, true, s);
    };
    pm_retain_masks_1_doc => |s| {
        let p = s.ix();
        pattern(1);
        retain(&[PAIR, BOTH], 1, p, true, s);
        pattern(2);
        retain(&[PAIR, BOTH], 1 | 1 << P + 1, p, true, s);
    };
    pm_retain_masks_2_doc => |s| {
        let p = s.ix();
        pattern(2);
        retain(&[PAIR, BOTH], 2, p, true, s);
        pattern(0);
        retain(&[PAIR, BOTH], 2 | 1 << P + 1, p, true, s);
    };
    pm_retain_masks_3_doc => |s| {
        let p = s.ix();
        pattern(0);
        retain(&[PAIR, BOTH], 3, p, true, s);
        pattern(1);
        retain(&[PAIR, BOTH], 3 | 1 << P + 1, p, true, s);
    };
    pm_retain_some_doc => |s| {
        let p = s.ix();
        pattern(2);
        retain(&[RIGHT, PAIR], 2, p, true, s);
        retain(&[], 0, p, true, s);
        retain(&[PAIR], 1, p, true, s);
    };
    pm_retain_large_doc => |s| {
        let p = s.ix();
        pattern(2);
        retain(&[PAIR, LEFT, PAIR], 3, p, true, s);
    };
    pm_retain_tiny_doc => |s| {
        let p = s.ix();
        retain(&[BOTH], 1, p, true, s);
        retain(&[BOTH], 1 << P, p, true, s);
    };
    pm_drain_filter_tiny_0 => |s| {
        let p = s.ix();
        tiny(|kinds, mask| drain_filter(kinds, mask, 0, p, s));
    };
    pm_drain_filter_tiny_1 => |s| {
        let p = s.ix();
        tiny(|kinds, mask| drain_filter(kinds, mask, 1, p, s));
    };
    pm_drain_filter_tiny_all => |s| {
        let p = s.ix();
        tiny(|kinds, mask| drain_filter(kinds, mask, N + 1, p, s));
    };
    pm_drain_filter_masks_0_0 => |s| {
        let p = s.ix();
        pattern(0);
        drain_filter(&[PAIR, BOTH], 0, 0, p, s);
        pattern(1);
        drain_filter(&[PAIR, BOTH], 0 | 1 << P + 1, 0, p, s);
    };
    pm_drain_filter_masks_0_1 => |s| {
        let p = s.ix();
        pattern(1);
        drain_filter(&[PAIR, BOTH], 1, 0, p, s);
        pattern(2);
        drain_filter(&[PAIR, BOTH], 1 | 1 << P + 1, 0, p, s);
    };
    pm_drain_filter_masks_0_2 => |s| {
        let p = s.ix();
        pattern(2);
        drain_filter(&[PAIR, BOTH], 2, 0, p, s);
        pattern(0);
        drain_filter(&[PAIR, BOTH], 2 | 1 << P + 1, 0, p, s);
    };
    pm_drain_filter_masks_0_3 => |s| {
        let p = s.ix();
        pattern(0);
        drain_filter(&[PAIR, BOTH], 3, 0, p, s);
        pattern(1);
        drain_filter(&[PAIR, BOTH], 3 | 1 << P + 1, 0, p, s);
    };
    pm_drain_filter_some_0 => |s| {
        let p = s.ix();
        pattern(0);
        drain_filter(&[], 0, 0, p, s);
        drain_filter(&[RIGHT, PAIR], 2, 0, p, s);
        drain_filter(&[RIGHT, LEFT, RIGHT], 2 | 5 << P, 0, p, s);
    };
    pm_drain_filter_large_0 => |s| {
        let p = s.ix();
        pattern(1);
        drain_filter(&[PAIR, RIGHT, PAIR], 1 | 2 << P, 0, p, s);
    };
    pm_drain_filter_masks_1_0 => |s| {
        let p = s.ix();
        pattern(1);
        drain_filter(&[PAIR, BOTH], 0, 1, p, s);
        pattern(2);
        drain_filter(&[PAIR, BOTH], 0 | 1 << P + 1, 1, p, s);
    };
    pm_drain_filter_masks_1_1 => |s| {
        let p = s.ix();
        pattern(2);
        drain_filter(&[PAIR, BOTH], 1, 1, p, s);
        pattern(0);
        drain_filter(&[PAIR, BOTH], 1 | 1 << P + 1, 1, p, s);
    };
    pm_drain_filter_masks_1_2 => |s| {
        let p = s.ix();
        pattern(0);
        drain_filter(&[PAIR, BOTH], 2, 1, p, s);
        pattern(1);
        drain_filter(&[PAIR, BOTH], 2 | 1 << P + 1, 1, p, s);
    };
    pm_drain_filter_masks_1_3 => |s| {
        let p = s.ix();
        pattern(1);
        drain_filter(&[PAIR, BOTH], 3, 1, p, s);
        pattern(2);
        drain_filter(&[PAIR, BOTH], 3 | 1 << P + 1, 1, p, s);
    };
    pm_drain_filter_some_1 => |s| {
        let p = s.ix();
        pattern(1);
        drain_filter(&[], 0, 1, p, s);
        drain_filter(&[RIGHT, PAIR], 2, 1, p, s);
        drain_filter(&[RIGHT, LEFT, RIGHT], 2 | 5 << P, 1, p, s);
    };
    pm_drain_filter_large_1 => |s| {
        let p = s.ix();
        pattern(2);
        drain_filter(&[PAIR, RIGHT, PAIR], 1 | 2 << P, 1, p, s);
    };
    pm_drain_filter_masks_all_0 => |s| {
        let p = s.ix();
        pattern(2);
        drain_filter(&[PAIR, BOTH], 0, N + 1, p, s);
        pattern(0);
        drain_filter(&[PAIR, BOTH], 0 | 1 << P + 1, N + 1, p, s);
    };
    pm_drain_filter_masks_all_1 => |s| {
        let p = s.ix();
        pattern(0);
        drain_filter(&[PAIR, BOTH], 1, N + 1, p, s);
        pattern(1);
        drain_filter(&[PAIR, BOTH], 1 | 1 << P + 1, N + 1, p, s);
    };
    pm_drain_filter_masks_all_2 => |s| {
        let p = s.ix();
        pattern(1);
        drain_filter(&[PAIR, BOTH], 2, N + 1, p, s);
        pattern(2);
        drain_filter(&[PAIR, BOTH], 2 | 1 << P + 1, N + 1, p, s);
    };
    pm_drain_filter_masks_all_3 => |s| {
        let p = s.ix();
        pattern(2);
        drain_filter(&[PAIR, BOTH], 3, N + 1, p, s);
        pattern(0);
        drain_filter(&[PAIR, BOTH], 3 | 1 << P + 1, N + 1, p, s);
    };
    pm_drain_filter_some_all => |s| {
        let p = s.ix();
        pattern(2);
        drain_filter(&[], 0, N + 1, p, s);
        drain_filter(&[RIGHT, PAIR], 2, N + 1, p, s);
        drain_filter(&[RIGHT, LEFT, RIGHT], 2 | 5 << P, N + 1, p, s);
    };
    pm_drain_filter_large_all => |s| {
        let p = s.ix();
        pattern(0);
        drain_filter(&[PAIR, RIGHT, PAIR], 1 | 2 << P, N + 1, p, s);
    };
    pm_drain_0 => |s| {
        let p = s.ix();
        tiny(|kinds, mask| if mask == 1 { drain(kinds, 0, p, s) });
        some(|kinds, _| drain(kinds, 0, p, s));
    };
    pm_drain_1 => |s| {
        let p = s.ix();
        tiny(|kinds, mask| if mask == 1 { drain(kinds, 1, p, s) });
        some(|kinds, _| drain(kinds, 1, p, s));
    };
    pm_drain_2 => |s| {
        let p = s.ix();
        tiny(|kinds, mask| if mask == 1 { drain(kinds, 2, p, s) });
        some(|kinds, _| drain(kinds, 2, p, s));
    };
    pm_drain_all => |s| {
        let p = s.ix();
        tiny(|kinds, mask| if mask == 1 { drain(kinds, N + 1, p, s) });
        some(|kinds, _| drain(kinds, N + 1, p, s));
    };
    pm_iter => |s| {
        let p = s.ix();
        some(|kinds, _| on(iter, kinds, p));
    };
    pm_iter_rest => |s| iter_rest(&[PAIR, BOTH], s);
    pm_iter_hashes => |s| {
        let p = s.ix();
        on(iter, &[PAIR, BOTH], p);
        on(iter, &[PAIR, LEFT], p);
        on(iter, &[PAIR, RIGHT], p);
    };
    pm_iter_paired => |s| {
        let p = s.ix();
        some(|kinds, _| on(iter_paired, kinds, p));
    };
    pm_iter_paired_hashes => |s| {
        let p = s.ix();
        on(iter_paired, &[PAIR, BOTH], p);
        on(iter_paired, &[PAIR, LEFT], p);
        on(iter_paired, &[PAIR, RIGHT], p);
    };
    pm_iter_unpaired => |s| {
        let p = s.ix();
        some(|kinds, _| on(iter_unpaired, kinds, p));
    };
    pm_iter_unpaired_hashes => |s| {
        let p = s.ix();
        on(iter_unpaired, &[PAIR, BOTH], p);
        on(iter_unpaired, &[PAIR, LEFT], p);
        on(iter_unpaired, &[PAIR, RIGHT], p);
    };
    pm_iter_sides => |s| {
        let p = s.ix();
        some(|kinds, _| on(iter_sides, kinds, p));
    };
    pm_iter_sides_hashes => |s| {
        let p = s.ix();
        on(iter_sides, &[PAIR, BOTH], p);
        on(iter_sides, &[PAIR, LEFT], p);
        on(iter_sides, &[PAIR, RIGHT], p);
    };
    pm_equality => |s| equality(s, false);
    pm_equality_doc => |s| equality(s, true);
    pm_clone => clone;
    pm_clone_from => clone_from;
    pm_extend_ops => extend_ops;
    pm_extend_pairs => extend_pairs;
    pm_from_iter_ops => from_iter_ops;
    pm_from_iter_pairs => from_iter_pairs;
    pm_capacity => capacity;
    pm_constructors => constructors;
}
