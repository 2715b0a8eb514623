//! `CycleMap`
use crate::base::*;
use cycle_map::CycleMap;
use cycle_map::OptionalPair::{self, *};

pub type Map = CycleMap<K, K, S>;

/// An arbitrary map: any of the pairs `(i, i)`, with arbitrary hashes
pub fn pre(s: &mut Src) -> (Map, M) {
    let present = s.bits(P as u32);
    let n = used_up(s);
    with_history(present, n)
}

/// The map had other pairs before
pub fn history(map: &mut Map, n: u64) {
    #[cfg(not(kani))]
    if n <= 300 || cfg!(not(cycle_map_verif)) {
        assume(n < 1 << 17);
        for _ in 0..n {
            map.insert(l(P as u8, 8), r(P as u8, 8));
            map.remove_via_left(&l(P as u8, 8));
        }
        return;
    }
    #[cfg(cycle_map_verif)]
    map.verif_skip(n);
    let _ = (map, n);
}

/// The map of some of the pairs `(i, i)`
pub fn with_pairs(present: u8) -> (Map, M) {
    with_history(present, 0)
}

/// `used` other pairs came and went before the last one was inserted
pub fn with_history(present: u8, used: u64) -> (Map, M) {
    let mut map = Map::with_capacity_and_hasher(room(), S(0));
    let mut m = M::new();
    setup(true);
    backwards(false);
    let mut i = 0;
    while i < P {
        if i == P - 1 {
            history(&mut map, used);
        }
        pref(i);
        if selected(present, i as u8) {
            map.insert(l(i as u8, 0), r(i as u8, 0));
            m.put_pair(i as u8, 0, i as u8, 0);
        }
        i += 1;
    }
    setup(false);
    (map, m)
}

/// The map is exactly `m`
pub fn check<B>(map: &CycleMap<K, K, B>, m: &M, s: &mut Src)
where
    B: std::hash::BuildHasher,
{
    assert!(map.len() == m.len_l(), "API: number of pairs");
    assert!(map.is_empty() == (m.len_l() == 0), "API: is_empty");
    probe(s, |p| {
        assert!(map.contains_left(&l(p, 9)) == m.has_l(p), "API: contains_left");
        let g = map.get_right(&Q(p));
        match g {
            None => assert!(m.lp[p as usize] == NO, "API: right item lost"),
            Some(x) => {
                let q = m.lp[p as usize];
                assert!(q != NO && is_r(x, q, m.r[q as usize]), "API: wrong right item")
            }
        }
    });
    probe(s, |q| {
        assert!(map.contains_right(&r(q, 9)) == m.has_r(q), "API: contains_right");
        let g = map.get_left(&Q(R0 + q));
        match g {
            None => assert!(m.rp[q as usize] == NO, "API: left item lost"),
            Some(x) => {
                let p = m.rp[q as usize];
                assert!(p != NO && is_l(x, p, m.l[p as usize]), "API: wrong left item")
            }
        }
    });
}

/// The internal state is one that the next operation can start from
pub fn inv(map: &Map, m: &M, s: &mut Src) {
    #[cfg(cycle_map_verif)]
    {
        if !s.inv {
            return;
        }
        let p = s.ix();
        let q = s.ix();
        let (mut lc, mut lh, mut li) = (0u8, None, 0);
        let (mut rc, mut rh, mut ri) = (0u8, None, 0);
        map.verif_left(|k, h, id| {
            if k.q.0 == p {
                lc += 1;
                lh = h;
                li = id;
            }
        });
        map.verif_right(|k, h, id| {
            if k.q.0 == R0 + q {
                rc += 1;
                rh = h;
                ri = id;
            }
        });
        let c = map.verif_counter();
        assert!(lc == m.has_l(p) as u8 && rc == m.has_r(q) as u8, "INV: entries");
        if lc == 1 {
            assert!(lh == Some(hash_r(m.lp[p as usize])), "INV: stored hash of the right item");
            assert!(li < c, "INV: id of a left item is not fresh");
        }
        if rc == 1 {
            assert!(rh == Some(hash_l(m.rp[q as usize])), "INV: stored hash of the left item");
            assert!(ri < c, "INV: id of a right item is not fresh");
        }
        if lc == 1 && rc == 1 {
            assert!((li == ri) == m.paired(p, q), "INV: ids");
        }
    }
}

pub fn post(mut map: Map, m: &M, s: &mut Src) {
    check(&map, m, s);
    inv(&map, m, s);
    follow(&mut map, &mut m.clone(), s);
    done(map);
}

/// Dropping the map isn't part of the question
pub fn done<T>(x: T) {
    #[cfg(kani)]
    std::mem::forget(x);
    #[cfg(not(kani))]
    drop(x);
}

// Operations: each draws its arguments, runs on the map and on the specification and compares
// what is returned.

pub fn insert(map: &mut Map, m: &mut M, s: &mut Src, tag: u8) {
    let i = s.ix();
    let j = s.ix();
    let from_l = m.take_via_l(i);
    let from_r = m.take_via_r(j);
    m.put_pair(i, tag, j, tag + 1);
    let res = map.insert(l(i, tag), r(j, tag + 1));
    match res {
        Neither => assert!(from_l == NOTHING && from_r == NOTHING, "API: insert hides what it displaced"),
        SomeLeft(p) => assert!(taken_l(&p, i, from_l) && from_r == NOTHING, "API: insert, left"),
        SomeRight(p) => assert!(from_l == NOTHING && taken_r(&p, j, from_r), "API: insert, right"),
        SomeBoth(p, q) => assert!(taken_l(&p, i, from_l) && taken_r(&q, j, from_r), "API: insert, both"),
    }
}

pub fn remove(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let t = if m.paired(i, j) { m.take_via_l(i) } else { NOTHING };
    match map.remove(&l(i, 9), &r(j, 9)) {
        None => assert!(t == NOTHING, "API: remove did nothing"),
        Some(p) => assert!(taken_l(&p, i, t), "API: remove"),
    }
}

pub fn remove_via_left(map: &mut Map, m: &mut M, s: &mut Src) {
    let i = s.ix();
    let t = m.take_via_l(i);
    match map.remove_via_left(&l(i, 9)) {
        None => assert!(t == NOTHING, "API: remove_via_left did nothing"),
        Some(p) => assert!(taken_l(&p, i, t), "API: remove_via_left"),
    }
}

pub fn remove_via_right(map: &mut Map, m: &mut M, s: &mut Src) {
    let j = s.ix();
    let t = m.take_via_r(j);
    match map.remove_via_right(&r(j, 9)) {
        None => assert!(t == NOTHING, "API: remove_via_right did nothing"),
        Some(p) => assert!(taken_r(&p, j, t), "API: remove_via_right"),
    }
}

pub fn clear(map: &mut Map, m: &mut M, _s: &mut Src) {
    map.clear();
    *m = M::new();
}

/// What is expected of replacing `old` by `new`: old's tag and the pair that contained `new`
pub fn spec_swap_l(m: &mut M, old: u8, new: u8, tag: u8) -> (u8, Taken) {
    if !m.has_l(old) {
        return (NO, NOTHING);
    }
    let eq = if old != new { m.take_via_l(new) } else { NOTHING };
    let j = m.lp[old as usize];
    let t = m.l[old as usize];
    m.l[old as usize] = NO;
    m.lp[old as usize] = NO;
    m.put_l(new, tag);
    if j != NO {
        m.link(new, j);
    }
    (t, eq)
}

pub fn spec_swap_r(m: &mut M, old: u8, new: u8, tag: u8) -> (u8, Taken) {
    if !m.has_r(old) {
        return (NO, NOTHING);
    }
    let eq = if old != new { m.take_via_r(new) } else { NOTHING };
    let i = m.rp[old as usize];
    let t = m.r[old as usize];
    m.r[old as usize] = NO;
    m.rp[old as usize] = NO;
    m.put_r(new, tag);
    if i != NO {
        m.link(i, new);
    }
    (t, eq)
}

fn swapped_l(res: OptionalPair<K, (K, K)>, old: u8, new: u8, t: u8, eq: Taken) {
    match res {
        Neither => assert!(t == NO, "API: nothing was swapped"),
        SomeLeft(k) => assert!(is_l(&k, old, t) && eq == NOTHING, "API: swapped item"),
        SomeRight(_) => panic!("API: a pair was displaced, but nothing was swapped"),
        SomeBoth(k, p) => assert!(is_l(&k, old, t) && taken_l(&p, new, eq), "API: swapped item and displaced pair"),
    }
}

fn swapped_r(res: OptionalPair<K, (K, K)>, old: u8, new: u8, t: u8, eq: Taken) {
    match res {
        Neither => assert!(t == NO, "API: nothing was swapped"),
        SomeLeft(k) => assert!(is_r(&k, old, t) && eq == NOTHING, "API: swapped item"),
        SomeRight(_) => panic!("API: a pair was displaced, but nothing was swapped"),
        SomeBoth(k, p) => assert!(is_r(&k, old, t) && taken_r(&p, new, eq), "API: swapped item and displaced pair"),
    }
}

pub fn swap_left(map: &mut Map, m: &mut M, s: &mut Src) {
    let old = s.ix();
    let new = s.ix();
    let (t, eq) = spec_swap_l(m, old, new, 1);
    let res = map.swap_left(&l(old, 9), l(new, 1));
    swapped_l(res, old, new, t, eq);
}

pub fn swap_right(map: &mut Map, m: &mut M, s: &mut Src) {
    let old = s.ix();
    let new = s.ix();
    let (t, eq) = spec_swap_r(m, old, new, 1);
    let res = map.swap_right(&r(old, 9), r(new, 1));
    swapped_r(res, old, new, t, eq);
}

pub fn swap_left_checked(map: &mut Map, m: &mut M, s: &mut Src) {
    let old = s.ix();
    let expected = s.ix();
    let new = s.ix();
    let (t, eq) = if m.paired(old, expected) {
        spec_swap_l(m, old, new, 1)
    } else {
        (NO, NOTHING)
    };
    let res = map.swap_left_checked(&l(old, 9), &r(expected, 9), l(new, 1));
    swapped_l(res, old, new, t, eq);
}

pub fn swap_right_checked(map: &mut Map, m: &mut M, s: &mut Src) {
    let old = s.ix();
    let expected = s.ix();
    let new = s.ix();
    let (t, eq) = if m.paired(expected, old) {
        spec_swap_r(m, old, new, 1)
    } else {
        (NO, NOTHING)
    };
    let res = map.swap_right_checked(&r(old, 9), &l(expected, 9), r(new, 1));
    swapped_r(res, old, new, t, eq);
}

pub fn swap_left_or_insert(map: &mut Map, m: &mut M, s: &mut Src, present: bool) {
    let old = s.ix();
    let new = s.ix();
    let other = s.ix();
    assume(m.has_l(old) == present);
    if present {
        let (t, eq) = spec_swap_l(m, old, new, 1);
        let res = map.swap_left_or_insert(&l(old, 9), l(new, 1), r(other, 2));
        swapped_l(res, old, new, t, eq);
    } else {
        let from_l = m.take_via_l(new);
        let from_r = m.take_via_r(other);
        m.put_pair(new, 1, other, 2);
        match map.swap_left_or_insert(&l(old, 9), l(new, 1), r(other, 2)) {
            Neither => assert!(from_l == NOTHING && from_r == NOTHING, "API: displaced items are hidden"),
            SomeLeft(k) => assert!(is_l(&k, new, from_l.tag) && from_r == NOTHING, "API: displaced left item"),
            SomeRight(p) => assert!(from_l == NOTHING && taken_r(&p, other, from_r), "API: displaced pair"),
            SomeBoth(k, p) => {
                assert!(is_l(&k, new, from_l.tag) && taken_r(&p, other, from_r), "API: displaced items")
            }
        }
    }
}

pub fn swap_right_or_insert(map: &mut Map, m: &mut M, s: &mut Src, present: bool) {
    let old = s.ix();
    let new = s.ix();
    let other = s.ix();
    assume(m.has_r(old) == present);
    if present {
        let (t, eq) = spec_swap_r(m, old, new, 1);
        let res = map.swap_right_or_insert(&r(old, 9), r(new, 1), l(other, 2));
        swapped_r(res, old, new, t, eq);
    } else {
        let from_l = m.take_via_l(other);
        let from_r = m.take_via_r(new);
        m.put_pair(other, 2, new, 1);
        match map.swap_right_or_insert(&r(old, 9), r(new, 1), l(other, 2)) {
            Neither => assert!(from_l == NOTHING && from_r == NOTHING, "API: displaced items are hidden"),
            // The right item that `other` was paired with
            SomeLeft(k) => {
                assert!(from_l != NOTHING && is_r(&k, from_l.partner, from_l.ptag) && from_r == NOTHING, "API: displaced right item")
            }
            SomeRight(p) => assert!(from_l == NOTHING && taken_r(&p, new, from_r), "API: displaced pair"),
            SomeBoth(k, p) => {
                assert!(from_l != NOTHING && is_r(&k, from_l.partner, from_l.ptag) && taken_r(&p, new, from_r), "API: displaced items")
            }
        }
    }
}

/// Which of the pairs are selected by a predicate
fn selected(mask: u8, i: u8) -> bool {
    mask >> i & 1 == 1
}

fn take_selected(m: &mut M, mask: u8) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < N {
        if selected(mask, i as u8) && m.take_via_l(i as u8) != NOTHING {
            n += 1;
        }
        i += 1;
    }
    n
}

fn is_pair_of(m: &M, a: &K, b: &K) -> bool {
    let i = a.q.0;
    let j = b.q.0.wrapping_sub(R0);
    (i as usize) < N && (j as usize) < N && m.paired(i, j) && a.tag == m.l[i as usize] && b.tag == m.r[j as usize]
}

pub fn retain(present: u8, mask: u8, p: u8, s: &mut Src) {
    let (mut map, mut m) = with_pairs(present);
    let mut calls = 0;
    map.retain(|a, b| {
        assert!(is_pair_of(&m, a, b), "API: retain shows items that are not a pair");
        if a.q.0 == p {
            calls += 1;
        }
        selected(mask, a.q.0)
    });
    assert!(calls == m.has_l(p) as u8, "API: retain does not ask about every pair once");
    take_selected(&mut m, !mask);
    post(map, &m, s);
}

/// `k` items are taken before the iterator is dropped
pub fn drain_filter(present: u8, mask: u8, k: usize, p: u8, s: &mut Src) {
    let (mut map, before) = with_pairs(present);
    let mut m = before;
    let total = take_selected(&mut m, mask);
    let mut calls = 0;
    let mut seen = 0;
    let mut n = 0;
    {
        let mut it = map.drain_filter(|a, b| {
            assert!(is_pair_of(&before, a, b), "API: drain_filter shows items that are not a pair");
            if a.q.0 == p {
                calls += 1;
            }
            selected(mask, a.q.0)
        });
        while n < k {
            let (lo, hi) = it.size_hint();
            let rest = if n < total { total - n } else { 0 };
            assert!(lo <= rest && (hi.is_none() || hi.unwrap() >= rest), "API: drain_filter's size_hint");
            match it.next() {
                None => assert!(n >= total, "API: drain_filter ends early"),
                Some((a, b)) => {
                    assert!(n < total && is_pair_of(&before, &a, &b), "API: drain_filter yields something else");
                    assert!(selected(mask, a.q.0), "API: drain_filter yields a pair that was not selected");
                    if a.q.0 == p {
                        seen += 1;
                    }
                }
            }
            n += 1;
        }
    }
    assert!(calls == before.has_l(p) as u8, "API: drain_filter does not ask about every pair once");
    assert!(seen <= 1, "API: drain_filter yields a pair twice");
    post(map, &m, s);
}

pub fn drain(map: &mut Map, m: &mut M, s: &mut Src) {
    let p = s.ix();
    let k = s.below(N as u8 + 1) as usize;
    let total = m.len_l();
    let mut seen = 0;
    let mut n = 0;
    {
        let mut it = map.drain();
        while n < k {
            let rest = if n < total { total - n } else { 0 };
            assert!(it.len() == rest && it.size_hint() == (rest, Some(rest)), "API: drain's length");
            match it.next() {
                None => assert!(n >= total, "API: drain ends early"),
                Some((a, b)) => {
                    assert!(n < total && is_pair_of(m, &a, &b), "API: drain yields something else");
                    if a.q.0 == p {
                        seen += 1;
                    }
                }
            }
            n += 1;
        }
    }
    assert!(seen <= 1, "API: drain yields a pair twice");
    *m = M::new();
}

fn iter(map: &Map, m: &M, p: u8) {
    let mut seen = 0;
    walk(map.iter(), m.len_l(), same_pair, |(a, b)| {
        assert!(is_pair_of(m, a, b), "API: iter yields something else");
        if a.q.0 == p {
            seen += 1;
        }
    });
    assert!(seen == m.has_l(p) as u8, "API: iter does not yield every pair once");
}

fn iter_left(map: &Map, m: &M, p: u8) {
    let mut seen = 0;
    walk(map.iter_left(), m.len_l(), same_ref, |a| {
        if a.q.0 == p {
            assert!(m.has_l(p) && is_l(a, p, m.l[p as usize]), "API: iter_left yields something else");
            seen += 1;
        }
    });
    assert!(seen == m.has_l(p) as u8, "API: iter_left does not yield every item once");
}

fn iter_right(map: &Map, m: &M, p: u8) {
    let mut seen = 0;
    walk(map.iter_right(), m.len_r(), same_ref, |a| {
        if a.q.0 == R0 + p {
            assert!(m.has_r(p) && is_r(a, p, m.r[p as usize]), "API: iter_right yields something else");
            seen += 1;
        }
    });
    assert!(seen == m.has_r(p) as u8, "API: iter_right does not yield every item once");
}

fn iter_rest(s: &mut Src) {
    pattern(2);
    let (map, _) = with_pairs(7);
    match s.below(3) {
        0 => ends(map.iter(), s, same_pair),
        1 => ends(map.iter_left(), s, same_ref),
        _ => ends(map.iter_right(), s, same_ref),
    }
    done(map);
}

fn iterate(map: &mut Map, m: &mut M, s: &mut Src) {
    let p = s.ix();
    iter(map, m, p);
    iter_left(map, m, p);
    iter_right(map, m, p);
}

fn on_any(f: fn(&Map, &M, u8), s: &mut Src) {
    let (map, m) = pre(s);
    let p = s.ix();
    f(&map, &m, p);
    done(map);
}

fn lookups(s: &mut Src) {
    let (map, m) = pre(s);
    check(&map, &m, s);
    let i = s.ix();
    let j = s.ix();
    assert!(map.are_paired(&l(i, 9), &r(j, 9)) == m.paired(i, j), "API: are_paired");
    // Items and their borrowed form find the same
    let by_item = map.get_right(&l(i, 9)).map(|x| x as *const K);
    assert!(by_item == map.get_right(&Q(i)).map(|x| x as *const K), "API: get_right by item");
    let by_item = map.get_left(&r(j, 9)).map(|x| x as *const K);
    assert!(by_item == map.get_left(&Q(R0 + j)).map(|x| x as *const K), "API: get_left by item");
    done(map);
}

/// A map with any pairs, whose items are hashed with another salt
fn other(s: &mut Src, salt: u64) -> (Map, M) {
    let mut map = Map::with_hasher(S(salt));
    let mut m = M::new();
    setup(true);
    backwards(true);
    let mut i = 0;
    while i < P {
        pref(i);
        if s.flag() {
            let j = s.ix();
            assume(!m.has_r(j));
            map.insert(l(i as u8, 5), r(j, 5));
            m.put_pair(i as u8, 5, j, 5);
        }
        i += 1;
    }
    setup(false);
    (map, m)
}

fn equality(s: &mut Src) {
    let (a, ma) = pre(s);
    let (b, mb) = other(s, 0x3 << 57 | 0x15);
    let same = ma.lp == mb.lp;
    assert!((a == b) == same, "API: equality");
    assert!((b == a) == same, "API: equality is not symmetric");
    #[cfg(not(kani))]
    assert!((a != b) == !same, "API: inequality");
    done(a);
    done(b);
}

fn clone(s: &mut Src) {
    let (a, ma) = pre(s);
    let mut b = a.clone();
    let mut mb = ma;
    if s.flag() {
        insert(&mut b, &mut mb, s, 1);
    } else {
        remove_via_right(&mut b, &mut mb, s);
    }
    check(&a, &ma, s);
    check(&b, &mb, s);
    inv(&b, &mb, s);
    done(a);
    done(b);
}

fn clone_from(s: &mut Src) {
    let (a, ma) = pre(s);
    let mut b = Map::with_hasher(S(0x3 << 57 | 0x15));
    setup(true);
    b.insert(l(1, 5), r(2, 5));
    setup(false);
    b.clone_from(&a);
    post(b, &ma, s);
    done(a);
}

/// The pairs to insert, the last of several equal ones wins
fn spec_extend(m: &mut M, i: u8, j: u8, tag: u8) {
    m.take_via_l(i);
    m.take_via_r(j);
    m.put_pair(i, tag, j, tag);
}

fn extend(s: &mut Src) {
    let (mut map, mut m) = with_pairs(1);
    let (i, j, i2, j2) = (s.ix(), s.ix(), s.ix(), s.ix());
    map.extend(feed([(l(i, 1), r(j, 1)), (l(i2, 2), r(j2, 2))], s));
    spec_extend(&mut m, i, j, 1);
    spec_extend(&mut m, i2, j2, 2);
    post(map, &m, s);
}

fn from_iter(s: &mut Src) {
    let mut m = M::new();
    let (i, j, i2, j2) = (s.ix(), s.ix(), s.ix(), s.ix());
    let map: CycleMap<K, K> = feed([(l(i, 1), r(j, 1)), (l(i2, 2), r(j2, 2))], s).collect();
    spec_extend(&mut m, i, j, 1);
    spec_extend(&mut m, i2, j2, 2);
    check(&map, &m, s);
    done(map);
}

fn capacity(s: &mut Src) {
    #[cfg(not(kani))]
    for n in 0..40 {
        reserved(&mut s.clone(), Some(n));
    }
    reserved(s, None);
}

/// `given`: the number to reserve or to shrink to, else an arbitrary one
fn reserved(s: &mut Src, given: Option<usize>) {
    let (mut map, m) = pre(s);
    let n = (s.bits(5) as usize) << (s.below(8) * 8 + s.bits(3));
    let n = given.unwrap_or(n);
    sensible(n);
    let before = map.capacity();
    assert!(before >= map.len(), "API: less capacity than items");
    match s.below(4) {
        0 => {
            assume(n <= 64);
            map.reserve(n);
            assert!(map.capacity() >= m.len_l() + n, "API: reserve does not reserve");
        }
        1 => match map.try_reserve(n) {
            Ok(()) => assert!(map.capacity() - m.len_l() >= n, "API: try_reserve does not reserve"),
            Err(_) => assert!(n > 64 && map.capacity() == before, "API: try_reserve fails"),
        },
        2 => {
            map.shrink_to(n);
            let least = if n < before { n } else { before };
            assert!(map.capacity() >= least && map.capacity() <= before, "API: shrink_to");
            #[cfg(not(kani))]
            assert!(map.capacity() <= Map::with_capacity_and_hasher(n.max(m.len_l()).min(1000), S(0)).capacity(), "API: shrink_to keeps too much");
        }
        _ => {
            map.shrink_to_fit();
            assert!(map.capacity() <= before, "API: shrink_to_fit");
            #[cfg(not(kani))]
            assert!(map.capacity() <= Map::with_capacity_and_hasher(m.len_l(), S(0)).capacity(), "API: shrink_to_fit keeps too much");
        }
    }
    post(map, &m, s);
}

/// What was reserved is enough, on both sides
fn room_reserved(n: usize, s: &mut Src) {
    let (mut map, mut m) = pre(s);
    match s.below(3) {
        0 => map.reserve(n),
        1 => assert!(map.try_reserve(n).is_ok(), "API: try_reserve fails"),
        _ => {
            done(map);
            map = Map::with_capacity_and_hasher(n, S(0));
            m = M::new();
        }
    }
    for k in 0..n as u8 {
        let (i, j) = (s.ix(), s.ix());
        assume(m.l[i as usize] == NO && m.r[j as usize] == NO);
        let before = growths();
        map.insert(l(i, k), r(j, k));
        assert!(growths() == before, "API: an insertion there was reserved room for allocates");
        m.put_pair(i, k, j, k);
    }
    post(map, &m, s);
}

fn constructors(s: &mut Src) {
    let n = s.bits(5) as usize;
    constructed(n, s);
    #[cfg(not(kani))]
    for n in 0..40 {
        constructed(n, &mut s.clone());
    }
}

fn constructed(n: usize, s: &mut Src) {
    let m = M::new();
    let map = Map::with_capacity_and_hasher(n, S(7));
    assert!(map.capacity() >= n, "API: with_capacity_and_hasher");
    assert!(map.hasher().0 == 7, "API: hasher");
    check(&map, &m, s);
    let map = CycleMap::<K, K>::with_capacity(n);
    assert!(map.capacity() >= n, "API: with_capacity");
    check(&map, &m, s);
    let map = CycleMap::<K, K>::new();
    check(&map, &m, s);
    let map = Map::default();
    check(&map, &m, s);
    assert!(map.capacity() == 0, "API: a new map allocates");
}

macro_rules! on_pre {
    ($op:expr) => {
        |s| {
            let (mut map, mut m) = pre(s);
            $op(&mut map, &mut m, s);
            post(map, &m, s);
        }
    };
}

follow_ups!(Map, M, check, [
    |a, b, s| insert(a, b, s, 1),
    |a, b, s| insert(a, b, s, 3),
    remove,
    remove_via_left,
    remove_via_right,
    swap_left,
    swap_right,
    swap_left_checked,
    swap_right_checked,
    iterate,
]);

harnesses! {
    cm_insert => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| insert(a, b, s, 1));
    cm_remove => on_pre!(remove);
    cm_remove_via_left => on_pre!(remove_via_left);
    cm_remove_via_right => on_pre!(remove_via_right);
    cm_clear => on_pre!(clear);
    cm_swap_left => on_pre!(swap_left);
    cm_swap_right => on_pre!(swap_right);
    cm_swap_left_checked => on_pre!(swap_left_checked);
    cm_swap_right_checked => on_pre!(swap_right_checked);
    cm_swap_left_or_insert_old => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| swap_left_or_insert(a, b, s, true));
    cm_swap_left_or_insert_new => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| swap_left_or_insert(a, b, s, false));
    cm_swap_right_or_insert_old => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| swap_right_or_insert(a, b, s, true));
    cm_swap_right_or_insert_new => on_pre!(|a: &mut Map, b: &mut M, s: &mut Src| swap_right_or_insert(a, b, s, false));
    cm_lookups => lookups;
    cm_retain => |s| {
        let p = s.ix();
        subsets(|mask| retain(7, mask, p, s));
    };
    cm_retain_2 => |s| {
        let p = s.ix();
        retain(0, 0, p, s);
        retain(1, 0, p, s);
        retain(1, 1, p, s);
        retain(3, 0, p, s);
        retain(3, 1, p, s);
        retain(3, 2, p, s);
        retain(3, 3, p, s);
    };
    cm_drain_filter_0 => |s| {
        let p = s.ix();
        subsets(|mask| drain_filter(7, mask, 0, p, s));
    };
    cm_drain_filter_1 => |s| {
        let p = s.ix();
        subsets(|mask| drain_filter(7, mask, 1, p, s));
    };
    cm_drain_filter_all => |s| {
        let p = s.ix();
        subsets(|mask| drain_filter(7, mask, N, p, s));
    };
    cm_drain => on_pre!(drain);
    cm_iter => |s| on_any(iter, s);
    cm_iter_left => |s| on_any(iter_left, s);
    cm_iter_right => |s| on_any(iter_right, s);
    cm_iter_rest => iter_rest;
    cm_equality => equality;
    cm_clone => clone;
    cm_clone_from => clone_from;
    cm_extend => extend;
    cm_from_iter => from_iter;
    cm_capacity => capacity;
    cm_room => |s| room_reserved(1, s);
    cm_room_2 => |s| room_reserved(2, s);
    cm_constructors => constructors;
}
