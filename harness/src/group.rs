//! `GroupMap`
use crate::base::*;
use crate::one::done;
use cycle_map::GroupMap;
use hashbrown::HashSet;

pub type Map<B = S> = GroupMap<K, K, B>;

/// Specification: which instance of every item is there, and the right item of every left item
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct G {
    pub l: [u8; N],
    pub r: [u8; N],
    pub up: [u8; N],
}

/// A right item that was taken out with its left items
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Gone {
    pub tag: u8,
    pub l: [u8; N],
}

impl G {
    pub fn new() -> G {
        G {
            l: [NO; N],
            r: [NO; N],
            up: [NO; N],
        }
    }
    pub fn has_l(&self, i: u8) -> bool {
        self.l[i as usize] != NO
    }
    pub fn has_r(&self, j: u8) -> bool {
        self.r[j as usize] != NO
    }
    pub fn paired(&self, i: u8, j: u8) -> bool {
        self.up[i as usize] == j
    }
    pub fn put_l(&mut self, i: u8, tag: u8, j: u8) {
        self.l[i as usize] = tag;
        self.up[i as usize] = j;
    }
    /// The tag of the left item that is taken out
    pub fn take_l(&mut self, i: u8) -> u8 {
        let t = self.l[i as usize];
        self.l[i as usize] = NO;
        self.up[i as usize] = NO;
        t
    }
    pub fn take_r(&mut self, j: u8) -> Gone {
        let mut g = Gone {
            tag: self.r[j as usize],
            l: [NO; N],
        };
        self.r[j as usize] = NO;
        let mut i = 0;
        while i < N {
            if self.up[i] == j {
                g.l[i] = self.l[i];
                self.l[i] = NO;
                self.up[i] = NO;
            }
            i += 1;
        }
        g
    }
    /// Moves the left items of `j` to `k`
    pub fn shift(&mut self, j: u8, k: u8) {
        let mut i = 0;
        while i < N {
            if self.up[i] == j {
                self.up[i] = k;
            }
            i += 1;
        }
    }
    pub fn size(&self, j: u8) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < N {
            if self.up[i] == j && j != NO {
                n += 1;
            }
            i += 1;
        }
        n
    }
    /// Right items without left items
    pub fn free(&self) -> usize {
        let mut n = 0;
        let mut j = 0;
        while j < N {
            if self.r[j] != NO && self.size(j as u8) == 0 {
                n += 1;
            }
            j += 1;
        }
        n
    }
}

/// Ids of left and right items differ
fn fresh() -> Map {
    let mut map = Map::with_capacity_and_hasher(room(), S(0));
    setup(true);
    backwards(false);
    pref(0);
    map.insert_right(r(0, 9));
    map.remove_right(&r(0, 9));
    backwards(false);
    map
}

/// An arbitrary map, up to the names of its right items
pub fn pre(s: &mut Src) -> (Map, G) {
    let mut map = fresh();
    let mut m = G::new();
    let mut j = 0;
    while j < P {
        if j == P - 1 {
            history_right(&mut map, used_up(s));
        }
        if s.flag() {
            pref(j);
            map.insert_right(r(j as u8, 0));
            m.r[j] = 0;
            if j == 1 && s.flag() {
                touch(&mut map, 1);
            }
        }
        j += 1;
    }
    let mut i = 0;
    while i < P {
        if i == P - 1 {
            history_left(&mut map, used_up(s));
        }
        if s.flag() {
            pref(i);
            // Left item `i` belongs to one of the right items `0..=i`
            let mut up = 0;
            if i > 0 {
                up = s.bits(if i == 1 { 1 } else { 2 });
            }
            assume(up as usize <= i && m.has_r(up));
            map.insert_left(l(i as u8, 0), &r(up, 9));
            m.put_l(i as u8, 0, up);
        }
        i += 1;
    }
    setup(false);
    (map, m)
}

/// The map had other left items before
pub fn history_left(map: &mut Map, n: u64) {
    #[cfg(not(kani))]
    if n <= 300 || cfg!(not(cycle_map_verif)) {
        assume(n < 1 << 17);
        map.insert_right(r(P as u8, 8));
        for _ in 0..n {
            map.insert_left(l(P as u8, 8), &r(P as u8, 8));
            map.remove_left(&l(P as u8, 8));
        }
        map.remove_right(&r(P as u8, 8));
        return;
    }
    #[cfg(cycle_map_verif)]
    map.verif_skip(n, 0);
    let _ = (map, n);
}

/// The map had other right items before
pub fn history_right(map: &mut Map, n: u64) {
    #[cfg(not(kani))]
    if n <= 300 || cfg!(not(cycle_map_verif)) {
        assume(n < 1 << 17);
        for _ in 0..n {
            map.insert_right(r(P as u8, 8));
            map.remove_right(&r(P as u8, 8));
        }
        return;
    }
    #[cfg(cycle_map_verif)]
    map.verif_skip(0, n);
    let _ = (map, n);
}

/// A left item of `j` came and went
fn touch(map: &mut Map, j: u8) {
    map.insert_left(l(P as u8, 8), &r(j, 9));
    map.remove_left(&l(P as u8, 8));
}

/// The map whose left items belong to the given right items; the right items `0..rights` are there.
/// If the second right item has no left items, it had one before.
pub fn with(ups: &[u8], rights: u8) -> (Map, G) {
    with_history(ups, rights, 0, 0)
}

/// Other items came and went before the last left and the last right item were inserted
pub fn with_history(ups: &[u8], rights: u8, used_l: u64, used_r: u64) -> (Map, G) {
    let mut map = fresh();
    let mut m = G::new();
    let mut j = 0;
    while j < rights {
        if j + 1 == rights {
            history_right(&mut map, used_r);
        }
        pref(j as usize);
        map.insert_right(r(j, 0));
        m.r[j as usize] = 0;
        if j == 1 && !ups.contains(&1) {
            touch(&mut map, 1);
        }
        j += 1;
    }
    let mut i = 0;
    while i < ups.len() {
        if i + 1 == ups.len() {
            history_left(&mut map, used_l);
        }
        pref(i);
        map.insert_left(l(i as u8, 0), &r(ups[i], 9));
        m.put_l(i as u8, 0, ups[i]);
        i += 1;
    }
    setup(false);
    (map, m)
}

/// The map is exactly `m`
pub fn check<B: std::hash::BuildHasher>(map: &Map<B>, m: &G, s: &mut Src) {
    assert!(map.len_left() == count(&m.l), "API: number of left items");
    assert!(map.len_right() == count(&m.r), "API: number of right items");
    assert!(map.is_empty() == (count(&m.r) == 0), "API: is_empty");
    let p = s.ix();
    let q = s.ix();
    check_left(map, m, p);
    check_right(map, m, p, q);
    #[cfg(not(kani))]
    for p in 0..N as u8 {
        check_left(map, m, p);
        for q in 0..N as u8 {
            check_right(map, m, p, q);
        }
    }
}

fn check_left<B: std::hash::BuildHasher>(map: &Map<B>, m: &G, p: u8) {
    assert!(map.contains_left(&l(p, 9)) == m.has_l(p), "API: contains_left");
    match map.get_right(&Q(p)) {
        None => assert!(!m.has_l(p), "API: right item lost"),
        Some(x) => {
            let q = m.up[p as usize];
            assert!(q != NO && is_r(x, q, m.r[q as usize]), "API: wrong right item")
        }
    }
}

fn check_right<B: std::hash::BuildHasher>(map: &Map<B>, m: &G, p: u8, q: u8) {
    assert!(map.contains_right(&r(q, 9)) == m.has_r(q), "API: contains_right");
    assert!(map.is_right_paired(&r(q, 9)) == (m.size(q) > 0), "API: is_right_paired");
    let it = map.get_left_iter(&Q(R0 + q));
    assert!(it.is_some() == m.has_r(q), "API: get_left_iter finds an absent right item or misses one");
    if let Some(mut it) = it {
        let total = m.size(q);
        assert!(it.len() == total, "API: get_left_iter's length");
        let mut seen = 0;
        let mut n = 0;
        while n < N {
            match it.next() {
                None => assert!(n >= total, "API: get_left_iter ends early"),
                Some(k) => {
                    assert!(n < total, "API: get_left_iter yields too much");
                    if k.q.0 == p {
                        assert!(m.paired(p, q) && is_l(k, p, m.l[p as usize]), "API: get_left_iter yields something else");
                        seen += 1;
                    }
                }
            }
            n += 1;
        }
        assert!(seen == m.paired(p, q) as u8, "API: get_left_iter does not yield every left item once");
    }
}

/// The instances of the right items
pub fn check_instances<B: std::hash::BuildHasher>(map: &Map<B>, m: &G, s: &mut Src) {
    let p = s.ix();
    for k in map.iter_right() {
        if k.q.0 == R0 + p {
            assert!(k.tag == m.r[p as usize], "API: another instance of a right item");
        }
    }
}

/// The internal state is one that the next operation can start from
pub fn inv<B>(map: &Map<B>, m: &G, s: &mut Src) {
    #[cfg(cycle_map_verif)]
    {
        if !s.inv {
            return;
        }
        let p = s.ix();
        let p2 = s.ix();
        let q = s.ix();
        let q2 = s.ix();
        let (mut lc, mut lh, mut lr, mut li) = (0u8, 0, 0, 0);
        let mut li2 = None;
        map.verif_left(|k, h, rid, id| {
            if k.q.0 == p {
                lc += 1;
                lh = h;
                lr = rid;
                li = id;
            }
            if k.q.0 == p2 {
                li2 = Some(id);
            }
        });
        let (mut rc, mut ri) = (0u8, 0);
        let mut ri2 = None;
        map.verif_right(|k, id| {
            if k.q.0 == R0 + q {
                rc += 1;
                ri = id;
            }
            if k.q.0 == R0 + q2 {
                ri2 = Some(id);
            }
        });
        let (cl, cr) = map.verif_counters();
        assert!(lc == m.has_l(p) as u8 && rc == m.has_r(q) as u8, "INV: entries");
        if lc == 1 {
            assert!(lh == hash_r(m.up[p as usize]), "INV: stored hash of the right item");
            assert!(li < cl, "INV: id of a left item is not fresh");
            assert!(p == p2 || li2 != Some(li), "INV: left items share an id");
        }
        if rc == 1 {
            assert!(ri < cr, "INV: id of a right item is not fresh");
            assert!(q == q2 || ri2 != Some(ri), "INV: right items share an id");
        }
        if lc == 1 && rc == 1 {
            assert!((lr == ri) == m.paired(p, q), "INV: id of the right item");
        }
        let (mut members, mut found) = (0usize, 0u8);
        map.verif_pairs(|k, h, id| {
            if k.q.0 == R0 + q {
                members += 1;
                if lc == 1 && id == li {
                    assert!(h == hash_l(p), "INV: stored hash of a left item");
                    found += 1;
                }
            }
        });
        assert!(members == m.size(q), "INV: number of left items in a group");
        assert!(found == m.paired(p, q) as u8, "INV: left item in its group");
    }
}

pub fn post(mut map: Map, m: &G, s: &mut Src) {
    check(&map, m, s);
    check_instances(&map, m, s);
    inv(&map, m, s);
    follow(&mut map, &mut m.clone(), s);
    done(map);
}

/// `res` is the right item `j` that was taken out with its left items
pub fn is_gone(res: Option<(HashSet<K>, K)>, j: u8, g: Gone, s: &mut Src) {
    let p = s.ix();
    match &res {
        None => assert!(g.tag == NO, "API: a removed group is hidden"),
        Some((set, k)) => {
            assert!(g.tag != NO && is_r(k, j, g.tag), "API: removed right item");
            assert!(set.len() == count(&g.l), "API: number of removed left items");
            match set.get(&Q(p)) {
                None => assert!(g.l[p as usize] == NO, "API: a removed left item is hidden"),
                Some(k) => assert!(g.l[p as usize] == k.tag, "API: removed left item"),
            }
        }
    }
    done(res);
}

fn is_gone_l(res: Option<K>, i: u8, t: u8) {
    match res {
        None => assert!(t == NO, "API: a removed left item is hidden"),
        Some(k) => assert!(is_l(&k, i, t), "API: removed left item"),
    }
}

/// What `insert` does: items that are there stay as they are
fn spec_insert(m: &mut G, i: u8, ti: u8, j: u8, tj: u8) {
    if !m.has_l(i) {
        m.l[i as usize] = ti;
    }
    if !m.has_r(j) {
        m.r[j as usize] = tj;
    }
    m.up[i as usize] = j;
}

pub fn insert(map: &mut Map, m: &mut G, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    // See known_findings.json: G02
    assume(!m.paired(i, j));
    spec_insert(m, i, 1, j, 2);
    map.insert(l(i, 1), r(j, 2));
}

/// A pair that is there already is inserted. `doc`: nothing happens. Else: the left item is not
/// listed with its right item any more, everything else is as before. (See known_findings.json)
fn insert_again(doc: bool, s: &mut Src) {
    let (mut map, m) = with(&[0, 0, 1], 3);
    let i = s.ix();
    assume(m.has_l(i));
    let j = m.up[i as usize];
    map.insert(l(i, 1), r(j, 2));
    if doc {
        post(map, &m, s);
    } else {
        let mut torn = m;
        torn.up[i as usize] = NO;
        assert!(map.len_left() == count(&m.l), "API: number of left items");
        assert!(map.len_right() == count(&m.r), "API: number of right items");
        let p = s.ix();
        let q = s.ix();
        check_left(&map, &m, p);
        check_right(&map, &torn, p, q);
        check_instances(&map, &m, s);
        done(map);
    }
}

pub fn insert_remove(map: &mut Map, m: &mut G, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let t = m.take_l(i);
    let g = m.take_r(j);
    m.put_l(i, 1, j);
    m.r[j as usize] = 2;
    let (a, b) = map.insert_remove(l(i, 1), r(j, 2));
    is_gone_l(a, i, t);
    is_gone(b, j, g, s);
}

pub fn insert_left(map: &mut Map, m: &mut G, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let mut t = NO;
    if m.has_r(j) {
        t = m.take_l(i);
        m.put_l(i, 1, j);
    }
    is_gone_l(map.insert_left(l(i, 1), &r(j, 9)), i, t);
}

pub fn insert_right(map: &mut Map, m: &mut G, s: &mut Src) {
    let j = s.ix();
    let g = m.take_r(j);
    m.r[j as usize] = 2;
    let res = map.insert_right(r(j, 2));
    is_gone(res, j, g, s);
}

pub fn swap_right(map: &mut Map, m: &mut G, s: &mut Src) {
    let old = s.ix();
    let new = s.ix();
    if !m.has_r(old) || old != new {
        m.take_r(new);
        m.r[new as usize] = 2;
        m.shift(old, new);
    }
    map.swap_right(&r(old, 9), r(new, 2));
}

pub fn swap_right_remove(map: &mut Map, m: &mut G, s: &mut Src) {
    let old = s.ix();
    let new = s.ix();
    let t = m.r[old as usize];
    if old != new {
        m.take_r(new);
        m.r[old as usize] = NO;
    }
    m.r[new as usize] = 2;
    m.shift(old, new);
    match map.swap_right_remove(&r(old, 9), r(new, 2)) {
        None => assert!(t == NO, "API: swap_right_remove hides the old item"),
        Some(k) => assert!(is_r(&k, old, t), "API: swap_right_remove's old item"),
    }
}

pub fn pair(map: &mut Map, m: &mut G, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let can = m.has_l(i) && m.has_r(j);
    if can {
        m.up[i as usize] = j;
    }
    assert!(map.pair(&l(i, 9), &r(j, 9)) == can, "API: pair's answer");
}

pub fn remove(map: &mut Map, m: &mut G, s: &mut Src) {
    let i = s.ix();
    let j = s.ix();
    let g = if m.paired(i, j) {
        m.take_r(j)
    } else {
        Gone { tag: NO, l: [NO; N] }
    };
    let res = map.remove(&l(i, 9), &r(j, 9));
    is_gone(res, j, g, s);
}

pub fn remove_left(map: &mut Map, m: &mut G, s: &mut Src) {
    let i = s.ix();
    let t = m.take_l(i);
    is_gone_l(map.remove_left(&l(i, 9)), i, t);
}

pub fn remove_right(map: &mut Map, m: &mut G, s: &mut Src) {
    let j = s.ix();
    let g = m.take_r(j);
    let res = map.remove_right(&r(j, 9));
    is_gone(res, j, g, s);
}

pub fn clear(map: &mut Map, m: &mut G, _s: &mut Src) {
    map.clear();
    *m = G::new();
}

fn bit(mask: u8, i: usize) -> bool {
    mask >> i & 1 == 1
}

fn is_pair_of(m: &G, a: &K, b: &K) -> bool {
    let i = a.q.0;
    let j = b.q.0.wrapping_sub(R0);
    (i as usize) < N && (j as usize) < N && m.paired(i, j) && a.tag == m.l[i as usize] && b.tag == m.r[j as usize]
}
fn is_single(m: &G, b: &K) -> bool {
    let j = b.q.0.wrapping_sub(R0);
    (j as usize) < N && m.has_r(j) && b.tag == m.r[j as usize] && m.size(j) == 0
}

/// `doc`: items are dropped if the predicate says `false`, as documented. Else: on `true`.
fn retain_paired(ups: &[u8], rights: u8, mask: u8, p: u8, doc: bool, s: &mut Src) {
    let (mut map, mut m) = with(ups, rights);
    let before = m;
    let mut calls = 0;
    map.retain_paired(|a, b| {
        assert!(is_pair_of(&before, a, b), "API: retain_paired shows items that are not a pair");
        if a.q.0 == p {
            calls += 1;
        }
        bit(mask, a.q.0 as usize)
    });
    assert!(calls == m.has_l(p) as u8, "API: retain_paired does not ask about every pair once");
    let mut i = 0;
    while i < N {
        if bit(mask, i) != doc {
            m.take_l(i as u8);
        }
        i += 1;
    }
    post(map, &m, s);
}

fn retain_unpaired(ups: &[u8], rights: u8, mask: u8, p: u8, doc: bool, s: &mut Src) {
    let (mut map, mut m) = with(ups, rights);
    let before = m;
    let mut calls = 0;
    map.retain_unpaired(|b| {
        assert!(is_single(&before, b), "API: retain_unpaired shows something else");
        if b.q.0 == R0 + p {
            calls += 1;
        }
        bit(mask, (b.q.0 - R0) as usize)
    });
    let free = |j: u8| before.has_r(j) && before.size(j) == 0;
    assert!(calls == free(p) as u8, "API: retain_unpaired does not ask about every unpaired item once");
    let mut j = 0;
    while j < N {
        if free(j as u8) && bit(mask, j) != doc {
            m.r[j] = NO;
        }
        j += 1;
    }
    post(map, &m, s);
}

fn same_item(a: &(Option<&K>, &K), b: &(Option<&K>, &K)) -> bool {
    let l = match (a.0, b.0) {
        (None, None) => true,
        (Some(x), Some(y)) => std::ptr::eq(x, y),
        _ => false,
    };
    l && std::ptr::eq(a.1, b.1)
}

fn iter(map: &Map, m: &G, p: u8) {
    let (mut sl, mut sr) = (0, 0);
    walk(map.iter(), count(&m.l) + m.free(), same_item, |(a, b)| match a {
        Some(a) => {
            assert!(is_pair_of(m, a, b), "API: iter yields something else");
            if a.q.0 == p {
                sl += 1;
            }
        }
        None => {
            assert!(is_single(m, b), "API: iter yields something else");
            if b.q.0 == R0 + p {
                sr += 1;
            }
        }
    });
    let free = m.has_r(p) && m.size(p) == 0;
    assert!(sl == m.has_l(p) as u8 && sr == free as u8, "API: iter does not yield everything once");
}

fn iter_paired(map: &Map, m: &G, p: u8) {
    let mut seen = 0;
    walk(map.iter_paired(), count(&m.l), same_pair, |(a, b)| {
        assert!(is_pair_of(m, a, b), "API: iter_paired yields something else");
        if a.q.0 == p {
            seen += 1;
        }
    });
    assert!(seen == m.has_l(p) as u8, "API: iter_paired does not yield every pair once");
}

fn iter_unpaired(map: &Map, m: &G, p: u8) {
    let mut seen = 0;
    walk(map.iter_unpaired(), m.free(), same_ref, |b| {
        assert!(is_single(m, b), "API: iter_unpaired yields something else");
        if b.q.0 == R0 + p {
            seen += 1;
        }
    });
    let free = m.has_r(p) && m.size(p) == 0;
    assert!(seen == free as u8, "API: iter_unpaired does not yield every unpaired item once");
}

fn iter_sides(map: &Map, m: &G, p: u8) {
    let mut seen = 0;
    walk(map.iter_left(), count(&m.l), same_ref, |a| {
        if a.q.0 == p {
            assert!(m.has_l(p) && is_l(a, p, m.l[p as usize]), "API: iter_left yields something else");
            seen += 1;
        }
    });
    assert!(seen == m.has_l(p) as u8, "API: iter_left does not yield every item once");
    let mut seen = 0;
    walk(map.iter_right(), count(&m.r), same_ref, |a| {
        if a.q.0 == R0 + p {
            assert!(m.has_r(p) && is_r(a, p, m.r[p as usize]), "API: iter_right yields something else");
            seen += 1;
        }
    });
    assert!(seen == m.has_r(p) as u8, "API: iter_right does not yield every item once");
}

fn iter_group(map: &Map, m: &G, j: u8, p: u8) {
    if !m.has_r(j) {
        return;
    }
    let mut seen = 0;
    walk(map.get_left_iter(&Q(R0 + j)).unwrap(), m.size(j), same_ref, |a| {
        assert!(is_pair_of(m, a, &r(j, m.r[j as usize])), "API: get_left_iter yields something else");
        if a.q.0 == p {
            seen += 1;
        }
    });
    assert!(seen == m.paired(p, j) as u8, "API: get_left_iter does not yield every item once");
}

fn iter_rest(s: &mut Src) {
    pattern(2);
    let (map, _) = with(&[0, 0], 2);
    match s.below(6) {
        0 => ends(map.iter(), s, same_item),
        1 => ends(map.iter_paired(), s, same_pair),
        2 => ends(map.iter_unpaired(), s, same_ref),
        3 => ends(map.iter_left(), s, same_ref),
        4 => ends(map.iter_right(), s, same_ref),
        _ => ends(map.get_left_iter(&Q(R0)).unwrap(), s, same_ref),
    }
    done(map);
}

fn iterate(map: &mut Map, m: &mut G, s: &mut Src) {
    let p = s.ix();
    iter(map, m, p);
    iter_paired(map, m, p);
    iter_unpaired(map, m, p);
    iter_sides(map, m, p);
    iter_group(map, m, s.ix(), p);
}

fn on(f: impl Fn(&Map, &G, u8), ups: &[u8], rights: u8, p: u8) {
    let (map, m) = with(ups, rights);
    f(&map, &m, p);
    done(map);
}

fn lookups(s: &mut Src) {
    let (map, m) = pre(s);
    check(&map, &m, s);
    let i = s.ix();
    let j = s.ix();
    assert!(map.are_paired(&l(i, 9), &r(j, 9)) == m.paired(i, j), "API: are_paired");
    let by_item = map.get_right(&l(i, 9)).map(|x| x as *const K);
    assert!(by_item == map.get_right(&Q(i)).map(|x| x as *const K), "API: get_right by item");
    assert!(map.get_left_iter(&r(j, 9)).is_some() == m.has_r(j), "API: get_left_iter by item");
    done(map);
}

/// A map of up to three left and two right items, hashed with another salt
fn other(s: &mut Src, salt: u64) -> (Map, G) {
    let mut map = Map::with_hasher(S(salt));
    let mut m = G::new();
    setup(true);
    backwards(true);
    let mut j = 0;
    while j < 2 {
        if s.flag() {
            pref(j);
            map.insert_right(r(j as u8, 5));
            m.r[j] = 5;
            if j == 1 && salt == 0 {
                touch(&mut map, 1);
            }
        }
        j += 1;
    }
    let mut i = 0;
    while i < 2 {
        if s.flag() {
            pref(i);
            let up = s.bits(1);
            assume(m.has_r(up));
            map.insert_left(l(i as u8, 5), &r(up, 9));
            m.put_l(i as u8, 5, up);
        }
        i += 1;
    }
    setup(false);
    (map, m)
}

fn equality(s: &mut Src) {
    let (a, ma) = other(s, 0);
    let (b, mb) = other(s, 0x3 << 57 | 0x15);
    let same = ma.up == mb.up && ma.r == mb.r;
    assert!((a == b) == same, "API: equality");
    #[cfg(not(kani))]
    assert!((a != b) == !same, "API: inequality");
    done(a);
    done(b);
}

/// `op` on a clone changes the clone only, and on the original the original only
fn clone(op: impl Fn(&mut Map, &mut G, &mut Src), ups: &[u8], rights: u8, s: &mut Src) {
    let (used_l, used_r) = (used_up(s), used_up(s));
    let (mut a, mut ma) = with_history(ups, rights, used_l, used_r);
    let mut b = a.clone();
    let mut mb = ma;
    if s.flag() {
        op(&mut b, &mut mb, s);
    } else {
        op(&mut a, &mut ma, s);
    }
    check(&a, &ma, s);
    check(&b, &mb, s);
    check_instances(&b, &mb, s);
    inv(&b, &mb, s);
    done(a);
    done(b);
}

fn clone_from(s: &mut Src) {
    let (used_l, used_r) = (used_up(s), used_up(s));
    let (a, ma) = with_history(&[0], 2, used_l, used_r);
    let mut b = Map::with_hasher(S(0x3 << 57 | 0x15));
    setup(true);
    b.insert(l(1, 5), r(2, 5));
    b.insert_right(r(0, 5));
    setup(false);
    b.clone_from(&a);
    post(b, &ma, s);
    done(a);
}

fn some_pair(s: &mut Src, m: &mut G, tag: u8) -> (K, K) {
    let i = s.ix();
    let j = s.ix();
    assume(!m.paired(i, j));
    spec_insert(m, i, tag, j, tag);
    (l(i, tag), r(j, tag))
}
fn some_item(s: &mut Src, m: &mut G, tag: u8, pair: bool) -> (Option<K>, K) {
    if pair {
        let (a, b) = some_pair(s, m, tag);
        (Some(a), b)
    } else {
        let j = s.ix();
        m.take_r(j);
        m.r[j as usize] = tag;
        (None, r(j, tag))
    }
}

fn extend_pairs(s: &mut Src) {
    let (mut map, mut m) = with(&[0], 2);
    let x = some_pair(s, &mut m, 1);
    let y = some_pair(s, &mut m, 2);
    map.extend(feed([x, y], s));
    post(map, &m, s);
}
/// `a`, `b`: is the first or second item a pair?
fn extend_items(s: &mut Src, a: bool, b: bool) {
    let (mut map, mut m) = with(&[0], 2);
    let x = some_item(s, &mut m, 1, a);
    let y = some_item(s, &mut m, 2, b);
    map.extend(feed([x, y], s));
    post(map, &m, s);
}
fn from_iter_pairs(s: &mut Src) {
    let mut m = G::new();
    let x = some_pair(s, &mut m, 1);
    let y = some_pair(s, &mut m, 2);
    let map: GroupMap<K, K> = feed([x, y], s).collect();
    check(&map, &m, s);
    check_instances(&map, &m, s);
    done(map);
}
fn from_iter_items(s: &mut Src) {
    let mut m = G::new();
    let pair = s.flag();
    let x = some_item(s, &mut m, 1, pair);
    let pair = s.flag();
    let y = some_item(s, &mut m, 2, pair);
    let map: GroupMap<K, K> = feed([x, y], s).collect();
    check(&map, &m, s);
    check_instances(&map, &m, s);
    done(map);
}

fn constructors(s: &mut Src) {
    let n = s.bits(5) as usize;
    constructed(n, s);
    #[cfg(not(kani))]
    for n in 0..40 {
        constructed(n, &mut s.clone());
    }
}

fn constructed(n: usize, s: &mut Src) {
    let m = G::new();
    let map = Map::with_capacity_and_hasher(n, S(7));
    assert!(map.capacity_left() >= n && map.capacity_right() >= n, "API: with_capacity_and_hasher");
    assert!(map.hasher().0 == 7, "API: hasher");
    check(&map, &m, s);
    let map = GroupMap::<K, K>::with_capacity(n);
    assert!(map.capacity_left() >= n && map.capacity_right() >= n, "API: with_capacity");
    check(&map, &m, s);
    let map = GroupMap::<K, K>::new();
    check(&map, &m, s);
    let map = Map::<S>::default();
    check(&map, &m, s);
    assert!(map.capacity_left() == 0 && map.capacity_right() == 0, "API: a new map allocates");
}

/// Runs `op` on the map whose left items belong to the right items `ups`
fn run(op: impl Fn(&mut Map, &mut G, &mut Src), ups: &[u8], rights: u8, s: &mut Src) {
    let (mut map, mut m) = with(ups, rights);
    op(&mut map, &mut m, s);
    post(map, &m, s);
}
macro_rules! on_pre {
    ($op:expr) => {
        |s| run($op, &[0, 0, 1], 3, s)
    };
}

follow_ups!(Map, G, check, [
    |a, b, s| {
        // See known_findings.json: G02
        let rng = s.rng;
        let (i, j) = (s.ix(), s.ix());
        s.rng = rng;
        if !b.paired(i, j) {
            insert(a, b, s)
        }
    },
    insert_remove,
    insert_left,
    insert_right,
    swap_right,
    swap_right_remove,
    pair,
    pair,
    remove,
    remove_left,
    remove_right,
    iterate,
]);

harnesses! {
    gm_lookups => lookups;
    gm_insert => on_pre!(insert);
    gm_insert_again => |s| insert_again(false, s);
    gm_insert_again_doc => |s| insert_again(true, s);
    gm_insert_remove => on_pre!(insert_remove);
    gm_insert_left => on_pre!(insert_left);
    gm_insert_right => on_pre!(insert_right);
    gm_swap_right => on_pre!(swap_right);
    gm_swap_right_remove => on_pre!(swap_right_remove);
    gm_pair => on_pre!(pair);
    gm_remove => on_pre!(remove);
    gm_remove_left => on_pre!(remove_left);
    gm_remove_right => on_pre!(remove_right);
    gm_clear => on_pre!(clear);
    gm_retain_paired_masks_0_low => |s| {
        let p = s.ix();
        pattern(0);
        subsets_low(|mask| retain_paired(&[0, 0, 1], 2, mask, p, false, s));
    };
    gm_retain_paired_masks_0_high => |s| {
        let p = s.ix();
        pattern(0);
        subsets_high(|mask| retain_paired(&[0, 0, 1], 2, mask, p, false, s));
    };
    gm_retain_unpaired_masks_0_low => |s| {
        let p = s.ix();
        pattern(0);
        subsets_low(|mask| retain_unpaired(&[0, 0], 3, mask, p, false, s));
    };
    gm_retain_unpaired_masks_0_high => |s| {
        let p = s.ix();
        pattern(0);
        subsets_high(|mask| retain_unpaired(&[0, 0], 3, mask, p, false, s));
    };
    gm_retain_paired_masks_1_low => |s| {
        let p = s.ix();
        pattern(1);
        subsets_low(|mask| retain_paired(&[0, 0, 1], 2, mask, p, false, s));
    };
    gm_retain_paired_masks_1_high => |s| {
        let p = s.ix();
        pattern(1);
        subsets_high(|mask| retain_paired(&[0, 0, 1], 2, mask, p, false, s));
    };
    gm_retain_unpaired_masks_1_low => |s| {
        let p = s.ix();
        pattern(1);
        subsets_low(|mask| retain_unpaired(&[0, 0], 3, mask, p, false, s));
    };
    gm_retain_unpaired_masks_1_high => |s| {
        let p = s.ix();
        pattern(1);
        subsets_high(|mask| retain_unpaired(&[0, 0], 3, mask, p, false, s));
    };
    gm_retain_paired_masks_2_low => |s| {
        let p = s.ix();
        pattern(2);
        subsets_low(|mask| retain_paired(&[0, 0, 1], 2, mask, p, false, s));
    };
    gm_retain_paired_masks_2_high => |s| {
        let p = s.ix();
        pattern(2);
        subsets_high(|mask| retain_paired(&[0, 0, 1], 2, mask, p, false, s));
    };
    gm_retain_unpaired_masks_2_low => |s| {
        let p = s.ix();
        pattern(2);
        subsets_low(|mask| retain_unpaired(&[0, 0], 3, mask, p, false, s));
    };
    gm_retain_unpaired_masks_2_high => |s| {
        let p = s.ix();
        pattern(2);
        subsets_high(|mask| retain_unpaired(&[0, 0], 3, mask, p, false, s));
    };
    gm_retain_paired_tiny => |s| {
        let p = s.ix();
        retain_paired(&[1], 2, 1, p, false, s);
        retain_paired(&[0, 0], 1, 2, p, false, s);
    };
    gm_retain_unpaired_tiny => |s| {
        let p = s.ix();
        retain_unpaired(&[1], 2, 1, p, false, s);
        retain_unpaired(&[1], 2, 2, p, false, s);
    };
    gm_retain_paired_some => |s| {
        let p = s.ix();
        pattern(2);
        retain_paired(&[], 0, 0, p, false, s);
        retain_paired(&[], 2, 0, p, false, s);
        retain_paired(&[1], 3, 1, p, false, s);
        pattern(1);
        retain_paired(&[0, 1, 2], 3, 5, p, false, s);
        retain_paired(&[1, 1, 1], 2, 5, p, false, s);
        retain_paired(&[1, 0], 2, 1, p, false, s);
    };
    gm_retain_unpaired_some => |s| {
        let p = s.ix();
        pattern(2);
        retain_unpaired(&[], 0, 0, p, false, s);
        retain_unpaired(&[], 3, 2, p, false, s);
        retain_unpaired(&[], 3, 5, p, false, s);
        pattern(1);
        retain_unpaired(&[1, 1, 1], 2, 1, p, false, s);
        retain_unpaired(&[1], 3, 1, p, false, s);
        retain_unpaired(&[1], 3, 5, p, false, s);
    };
    gm_retain_paired_masks_0_low_doc => |s| {
        let p = s.ix();
        pattern(0);
        subsets_low(|mask| retain_paired(&[0, 0, 1], 2, mask, p, true, s));
    };
    gm_retain_paired_masks_0_high_doc => |s| {
        let p = s.ix();
        pattern(0);
        subsets_high(|mask| retain_paired(&[0, 0, 1], 2, mask, p, true, s));
    };
    gm_retain_unpaired_masks_0_low_doc => |s| {
        let p = s.ix();
        pattern(0);
        subsets_low(|mask| retain_unpaired(&[0, 0], 3, mask, p, true, s));
    };
    gm_retain_unpaired_masks_0_high_doc => |s| {
        let p = s.ix();
        pattern(0);
        subsets_high(|mask| retain_unpaired(&[0, 0], 3, mask, p, true, s));
    };
    gm_retain_paired_masks_1_low_doc => |s| {
        let p = s.ix();
        pattern(1);
        subsets_low(|mask| retain_paired(&[0, 0, 1], 2, mask, p, true, s));
    };
    gm_retain_paired_masks_1_high_doc => |s| {
        let p = s.ix();
        pattern(1);
        subsets_high(|mask| retain_paired(&[0, 0, 1], 2, mask, p, true, s));
    };
    gm_retain_unpaired_masks_1_low_doc => |s| {
        let p = s.ix();
        pattern(1);
        subsets_low(|mask| retain_unpaired(&[0, 0], 3, mask, p, true, s));
    };
    gm_retain_unpaired_masks_1_high_doc => |s| {
        let p = s.ix();
        pattern(1);
        subsets_high(|mask| retain_unpaired(&[0, 0], 3, mask, p, true, s));
    };
    gm_retain_paired_masks_2_low_doc => |s| {
        let p = s.ix();
        pattern(2);
        subsets_low(|mask| retain_paired(&[0, 0, 1], 2, mask, p, true, s));
    };
    gm_retain_paired_masks_2_high_doc => |s| {
        let p = s.ix();
        pattern(2);
        subsets_high(|mask| retain_paired(&[0, 0, 1], 2, mask, p, true, s));
    };
    gm_retain_unpaired_masks_2_low_doc => |s| {
        let p = s.ix();
        pattern(2);
        subsets_low(|mask| retain_unpaired(&[0, 0], 3, mask, p, true, s));
    };
    gm_retain_unpaired_masks_2_high_doc => |s| {
        let p = s.ix();
        pattern(2);
        subsets_high(|mask| retain_unpaired(&[0, 0], 3, mask, p, true, s));
    };
    gm_retain_paired_tiny_doc => |s| {
        let p = s.ix();
        retain_paired(&[1], 2, 1, p, true, s);
        retain_paired(&[0, 0], 1, 2, p, true, s);
    };
    gm_retain_unpaired_tiny_doc => |s| {
        let p = s.ix();
        retain_unpaired(&[1], 2, 1, p, true, s);
        retain_unpaired(&[1], 2, 2, p, true, s);
    };
    gm_retain_paired_some_doc => |s| {
        let p = s.ix();
        pattern(2);
        retain_paired(&[], 0, 0, p, true, s);
        retain_paired(&[], 2, 0, p, true, s);
        retain_paired(&[1], 3, 1, p, true, s);
        pattern(1);
        retain_paired(&[0, 1, 2], 3, 5, p, true, s);
        retain_paired(&[1, 1, 1], 2, 5, p, true, s);
        retain_paired(&[1, 0], 2, 1, p, true, s);
    };
    gm_retain_unpaired_some_doc => |s| {
        let p = s.ix();
        pattern(2);
        retain_unpaired(&[], 0, 0, p, true, s);
        retain_unpaired(&[], 3, 2, p, true, s);
        retain_unpaired(&[], 3, 5, p, true, s);
        pattern(1);
        retain_unpaired(&[1, 1, 1], 2, 1, p, true, s);
        retain_unpaired(&[1], 3, 1, p, true, s);
        retain_unpaired(&[1], 3, 5, p, true, s);
    };
    gm_iter => |s| {
        let p = s.ix();
        on(iter, &[0, 0, 1], 3, p);
    };
    gm_iter_rest => iter_rest;
    gm_iter_paired => |s| {
        let p = s.ix();
        on(iter_paired, &[0, 0, 1], 3, p);
    };
    gm_iter_unpaired => |s| {
        let p = s.ix();
        on(iter_unpaired, &[0, 0], 3, p);
    };
    gm_iter_sides => |s| {
        let p = s.ix();
        on(iter_sides, &[0, 0, 1], 3, p);
    };
    gm_iter_group => |s| {
        let p = s.ix();
        on(|map, m, p| iter_group(map, m, 0, p), &[0, 0, 1], 3, p);
        on(|map, m, p| iter_group(map, m, 1, p), &[0, 0, 1], 3, p);
        on(|map, m, p| iter_group(map, m, 2, p), &[0, 0, 1], 3, p);
    };
    gm_equality => equality;
    gm_clone_from => clone_from;
    gm_clone_insert => |s| clone(insert_left, &[0, 0], 2, s);
    gm_clone_remove => |s| clone(remove_left, &[0, 0, 1], 3, s);
    gm_clone_remove_right => |s| clone(remove_right, &[0, 0, 1], 3, s);
    gm_extend_pairs => extend_pairs;
    gm_extend_items_1 => |s| extend_items(s, true, false);
    gm_extend_items_2 => |s| extend_items(s, false, true);
    gm_extend_items_3 => |s| extend_items(s, false, false);
    gm_extend_items_4 => |s| extend_items(s, true, true);
    gm_from_iter_pairs => from_iter_pairs;
    gm_from_iter_items => from_iter_items;
    gm_constructors => constructors;
}
