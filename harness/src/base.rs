//! Inputs, item types and the specification model shared by all harnesses.
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash, Hasher};

#[cfg(feature = "model")]
pub use hashbrown::verif;

/// What the model of hashbrown provides, for builds with the real hashbrown
#[cfg(not(feature = "model"))]
pub mod verif {
    pub static mut HASHES: [u64; 16] = [0; 16];
    pub static mut WIDE: bool = true;
    pub static mut SETUP: bool = false;
    pub static mut PREF: usize = 0;
    pub static mut REV: bool = false;

    #[derive(Clone, Default)]
    pub struct TableHasher {
        state: u64,
        writes: u8,
        pub salt: u64,
    }
    impl std::hash::Hasher for TableHasher {
        fn finish(&self) -> u64 {
            self.state
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.write_u8(*b)
            }
        }
        fn write_u8(&mut self, x: u8) {
            let x = x as u64;
            if self.writes == 0 && x < 16 {
                self.state = unsafe { HASHES[x as usize] } ^ self.salt;
            } else {
                self.state = (self.state.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            }
            self.writes = 1;
        }
    }
}

/// How often a table has grown (natively: how often memory was asked for)
#[cfg(feature = "model")]
pub fn growths() -> usize {
    unsafe { verif::GROWTHS }
}
#[cfg(not(feature = "model"))]
thread_local!(pub static GROWTHS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
#[cfg(not(feature = "model"))]
pub fn growths() -> usize {
    GROWTHS.with(|g| g.get())
}

/// Values per side. Left items are `0..N`, right items `R0..R0 + N`.
#[cfg(not(deep))]
pub const N: usize = 4;
#[cfg(deep)]
pub const N: usize = 5;
/// Indices that may be in the map before the operation under test (the rest are fresh values)
pub const P: usize = N - 1;
pub const R0: u8 = 8;
/// "Not there"
pub const NO: u8 = 0xff;

/// The borrowed form of an item
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Q(pub u8);

/// An item. Items with the same `q` are equal, `tag` tells such instances apart.
#[derive(Clone, Copy)]
pub struct K {
    pub q: Q,
    pub tag: u8,
}

impl PartialEq for K {
    #[inline]
    fn eq(&self, other: &K) -> bool {
        self.q.0 == other.q.0
    }
}
impl Eq for K {}
impl Hash for K {
    #[inline]
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u8(self.q.0)
    }
}
impl Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        &self.q
    }
}
impl PartialEq<K> for Q {
    fn eq(&self, other: &K) -> bool {
        self.0 == other.q.0
    }
}

/// The left item with index `i`
#[inline]
pub fn l(i: u8, tag: u8) -> K {
    K { q: Q(i), tag }
}
/// The right item with index `i`
#[inline]
pub fn r(i: u8, tag: u8) -> K {
    K {
        q: Q(R0 + i),
        tag,
    }
}
#[inline]
pub fn hash_l(i: u8) -> u64 {
    unsafe { verif::HASHES[i as usize & 7] }
}
#[inline]
pub fn hash_r(i: u8) -> u64 {
    unsafe { verif::HASHES[8 + (i as usize & 7)] }
}
/// Is `k` the instance `tag` of the left item `i`?
#[inline]
pub fn is_l(k: &K, i: u8, tag: u8) -> bool {
    k.q.0 == i && k.tag == tag
}
#[inline]
pub fn is_r(k: &K, i: u8, tag: u8) -> bool {
    k.q.0 == R0 + i && k.tag == tag
}

/// A hash builder; different salts give different hashes
#[derive(Clone, Copy, Default, Debug)]
pub struct S(pub u64);
impl BuildHasher for S {
    type Hasher = verif::TableHasher;
    #[inline]
    fn build_hasher(&self) -> verif::TableHasher {
        let mut h = verif::TableHasher::default();
        h.salt = self.0;
        h
    }
}

/// Specification of a one-to-one map: which instance of every item it holds (a tag or `NO`) and
/// the index of its partner (or `NO`).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct M {
    pub l: [u8; N],
    pub r: [u8; N],
    pub lp: [u8; N],
    pub rp: [u8; N],
}

/// An item taken out of the specification with its partner: tag, partner, partner's tag
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Taken {
    pub tag: u8,
    pub partner: u8,
    pub ptag: u8,
}
pub const NOTHING: Taken = Taken {
    tag: NO,
    partner: NO,
    ptag: NO,
};

impl M {
    pub fn new() -> M {
        M {
            l: [NO; N],
            r: [NO; N],
            lp: [NO; N],
            rp: [NO; N],
        }
    }
    #[inline]
    pub fn has_l(&self, i: u8) -> bool {
        self.l[i as usize] != NO
    }
    #[inline]
    pub fn has_r(&self, i: u8) -> bool {
        self.r[i as usize] != NO
    }
    #[inline]
    pub fn paired(&self, i: u8, j: u8) -> bool {
        self.lp[i as usize] == j
    }
    #[inline]
    pub fn put_l(&mut self, i: u8, tag: u8) {
        self.l[i as usize] = tag;
    }
    #[inline]
    pub fn put_r(&mut self, j: u8, tag: u8) {
        self.r[j as usize] = tag;
    }
    #[inline]
    pub fn link(&mut self, i: u8, j: u8) {
        self.lp[i as usize] = j;
        self.rp[j as usize] = i;
    }
    #[inline]
    pub fn put_pair(&mut self, i: u8, ti: u8, j: u8, tj: u8) {
        self.put_l(i, ti);
        self.put_r(j, tj);
        self.link(i, j);
    }
    /// Takes the left item `i` out, with its partner
    pub fn take_via_l(&mut self, i: u8) -> Taken {
        let i = i as usize;
        let mut t = NOTHING;
        if self.l[i] != NO {
            t.tag = self.l[i];
            self.l[i] = NO;
            let j = self.lp[i];
            self.lp[i] = NO;
            if j != NO {
                t.partner = j;
                t.ptag = self.r[j as usize];
                self.r[j as usize] = NO;
                self.rp[j as usize] = NO;
            }
        }
        t
    }
    /// Takes the right item `j` out, with its partner
    pub fn take_via_r(&mut self, j: u8) -> Taken {
        let j = j as usize;
        let mut t = NOTHING;
        if self.r[j] != NO {
            t.tag = self.r[j];
            self.r[j] = NO;
            let i = self.rp[j];
            self.rp[j] = NO;
            if i != NO {
                t.partner = i;
                t.ptag = self.l[i as usize];
                self.l[i as usize] = NO;
                self.lp[i as usize] = NO;
            }
        }
        t
    }
    /// The left item `i` loses its partner
    pub fn unlink_l(&mut self, i: u8) -> u8 {
        let j = self.lp[i as usize];
        self.lp[i as usize] = NO;
        if j != NO {
            self.rp[j as usize] = NO;
        }
        j
    }
    pub fn unlink_r(&mut self, j: u8) -> u8 {
        let i = self.rp[j as usize];
        self.rp[j as usize] = NO;
        if i != NO {
            self.lp[i as usize] = NO;
        }
        i
    }
    pub fn len_l(&self) -> usize {
        count(&self.l)
    }
    pub fn len_r(&self) -> usize {
        count(&self.r)
    }
    pub fn pairs(&self) -> usize {
        count(&self.lp)
    }
}

/// How many entries are there
pub fn count(x: &[u8; N]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < N {
        if x[i] != NO {
            n += 1;
        }
        i += 1;
    }
    n
}

/// Is `p` what was taken out via the left item `i`?
#[inline]
pub fn taken_l(p: &(K, K), i: u8, t: Taken) -> bool {
    is_l(&p.0, i, t.tag) && is_r(&p.1, t.partner, t.ptag)
}
/// Is `p` what was taken out via the right item `j`?
#[inline]
pub fn taken_r(p: &(K, K), j: u8, t: Taken) -> bool {
    is_l(&p.0, t.partner, t.ptag) && is_r(&p.1, j, t.tag)
}

/// A scenario: everything a harness chooses is cut from `w`.
#[derive(Clone)]
pub struct Src {
    pub w: u128,
    pub used: u32,
    /// Native only: extra checks of internal state were requested
    pub inv: bool,
    /// Native only: once set, everything is drawn from a PRNG
    pub rng: u64,
    /// Native only: so many arbitrary operations follow the one under test
    pub follow: u32,
    /// Native only: what these are drawn from
    pub seed: u64,
}

/// Native only: the capacity maps start with
#[cfg(not(kani))]
pub static mut ROOM: usize = 0;
/// Native only: how the low bits of the hashes are filled, see `Src::given`
#[cfg(not(kani))]
pub static mut MIX: u64 = 0;
/// Arbitrary bits that depend on `x` alone
#[cfg(not(kani))]
fn mixed(x: u64) -> u64 {
    let mix = unsafe { MIX };
    if mix == 0 {
        return x;
    }
    let mut x = (mix ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x & ((1 << 57) - 1)
}
#[cfg(kani)]
#[inline]
fn mixed(x: u64) -> u64 {
    x
}
/// The capacity that the map an operation is run on starts with
#[inline]
pub fn room() -> usize {
    #[cfg(kani)]
    return 0;
    #[cfg(not(kani))]
    unsafe {
        ROOM
    }
}

/// Native only: the scenario is not one the harness claims anything about
pub struct Rejected;

#[inline]
pub fn assume(b: bool) {
    #[cfg(kani)]
    kani::assume(b);
    #[cfg(not(kani))]
    if !b {
        std::panic::panic_any(Rejected);
    }
}

/// Native only: no gigabytes are allocated, and sizes that hashbrown 0.12.3 itself miscalculates
/// (it asks for more than `isize::MAX` bytes) are left out
pub fn sensible(n: usize) {
    #[cfg(not(kani))]
    assume(n <= 4096 || (n >> 45 != 0 && n >> 52 == 0));
    let _ = n;
}

impl Src {
    /// An arbitrary scenario with arbitrary hashes
    #[cfg(kani)]
    pub fn any() -> Src {
        let w: u128 = kani::any();
        let h: u128 = kani::any();
        // Only equality of hashes and of their top seven bits is ever looked at
        let spread = |i: usize| {
            let b = (h >> (8 * i)) as u8;
            ((b >> 4) as u64) << 57 | (b & 15) as u64
        };
        let mut i = 0;
        while i < N {
            unsafe { verif::HASHES[i] = spread(i) };
            i += 1;
        }
        let mut i = 0;
        while i < N {
            unsafe { verif::HASHES[8 + i] = spread(8 + i) };
            i += 1;
        }
        let mut s = Src {
            w,
            used: 0,
            inv: !cfg!(noinv),
            rng: 0,
            follow: 0,
            seed: 0,
        };
        unsafe { verif::WIDE = s.flag() };
        s
    }

    /// A given scenario. `mix` says how the low bits of the hashes are filled (0: as under Kani).
    #[cfg(not(kani))]
    pub fn given(w: u128, h: u128, mix: u64) -> Src {
        unsafe { MIX = mix };
        for i in 0..16 {
            let b = (h >> (8 * i)) as u8;
            let low = if mix == 0 { b & 15 } else { b } as u64;
            unsafe { verif::HASHES[i] = ((b >> 4) as u64) << 57 | mixed(low) };
        }
        let mut s = Src {
            w,
            used: 0,
            inv: true,
            rng: 0,
            follow: 0,
            seed: 0,
        };
        unsafe { verif::WIDE = s.flag() };
        s
    }

    #[inline]
    pub fn bits(&mut self, n: u32) -> u8 {
        #[cfg(not(kani))]
        if self.rng != 0 {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            return (self.rng >> 33) as u8 & ((1u16 << n) - 1) as u8;
        }
        let x = self.w as u8 & ((1u16 << n) - 1) as u8;
        self.w >>= n;
        self.used += n;
        assert!(self.used <= 128, "HARNESS: scenario too large");
        x
    }
    #[inline]
    pub fn flag(&mut self) -> bool {
        self.bits(1) == 1
    }
    /// A number in `0..n`
    #[inline]
    pub fn below(&mut self, n: u8) -> u8 {
        let bits = if n <= 2 {
            1
        } else if n <= 4 {
            2
        } else if n <= 8 {
            3
        } else {
            4
        };
        let x = self.bits(bits);
        if n as u32 != 1 << bits {
            assume(x < n);
        }
        x
    }
    /// The index of an item
    #[inline]
    pub fn ix(&mut self) -> u8 {
        self.below(N as u8)
    }
}

/// How many ids were used up before, by items that are gone: few, or so many that an id would come
/// round again if it was kept in 8, 16 or 32 bits
pub fn used_up(s: &mut Src) -> u64 {
    let kind = s.bits(2);
    let d = s.bits(2) as u64;
    #[cfg(all(kani, not(cycle_map_verif)))]
    assume(kind == 0 && d == 0);
    match kind {
        0 => d,
        1 => (1 << 8) - d,
        2 => (1 << 16) - d,
        _ => (1 << 32) - d,
    }
}

/// While the state an operation starts from is built, tables make no arbitrary choices
pub fn setup(on: bool) {
    unsafe { verif::SETUP = on };
}
/// The next table to be filled is iterated backwards (the one after it forwards, and so on)
pub fn backwards(on: bool) {
    unsafe { verif::REV = on };
}
/// Calls `f` with every set of the first three pairs
pub fn subsets(mut f: impl FnMut(u8)) {
    subsets_low(&mut f);
    subsets_high(&mut f);
}
/// Those without the last one
pub fn subsets_low(mut f: impl FnMut(u8)) {
    f(0);
    f(1);
    f(2);
    f(3);
}
/// Those with it
pub fn subsets_high(mut f: impl FnMut(u8)) {
    f(4);
    f(5);
    f(6);
    f(7);
}
/// The slot for the next item
pub fn pref(i: usize) {
    unsafe { verif::PREF = i };
}

/// Runs `f` for an arbitrary index (natively: for every index)
#[inline]
pub fn probe(s: &mut Src, mut f: impl FnMut(u8)) {
    let p = s.ix();
    #[cfg(kani)]
    f(p);
    #[cfg(not(kani))]
    {
        f(p);
        for p in 0..N as u8 {
            f(p);
        }
    }
}

/// Runs `it` to its end: whatever is left is what `len` and `size_hint` say, a clone taken at any
/// point yields the same rest (every other step goes on with the clone), and nothing follows the
/// end.
pub fn walk<I, T>(mut it: I, total: usize, same: fn(&T, &T) -> bool, mut f: impl FnMut(T))
where
    I: ExactSizeIterator<Item = T> + std::iter::FusedIterator + Clone,
{
    let mut n = 0;
    #[cfg(kani)]
    let steps = N + 1;
    #[cfg(not(kani))]
    let steps = total + 2;
    while n < steps {
        let left = if n < total { total - n } else { 0 };
        assert!(it.len() == left, "API: an iterator's len is wrong");
        assert!(it.size_hint() == (left, Some(left)), "API: an iterator's size_hint is wrong");
        let mut copy = it.clone();
        let x = it.next();
        let y = copy.next();
        match (&x, &y) {
            (Some(x), Some(y)) => assert!(same(x, y), "API: a cloned iterator goes elsewhere"),
            (None, None) => {}
            _ => panic!("API: a cloned iterator has another length"),
        }
        assert!(x.is_some() == (n < total), "API: an iterator yields too few or too many items");
        if let Some(x) = x {
            f(x);
        }
        if n % 2 == 1 {
            it = copy;
        }
        n += 1;
    }
}

/// The provided methods of an iterator that has gone `steps` steps give what `next` would
pub fn ends<I, T>(it: I, s: &mut Src, same: fn(&T, &T) -> bool)
where
    I: Iterator<Item = T> + Clone,
{
    let mode = s.below(4);
    let mut steps = 0;
    while steps < 3 {
        let mut k = 0;
        while k < 3 {
            ends_at(it.clone(), steps, k, mode, same);
            k += 1;
        }
        steps += 1;
    }
}

fn ends_at<I, T>(mut it: I, steps: usize, k: usize, mode: u8, same: fn(&T, &T) -> bool)
where
    I: Iterator<Item = T> + Clone,
{
    let mut i = 0;
    while i < steps {
        it.next();
        i += 1;
    }
    let mut n = 0;
    let (mut last, mut kth, mut after) = (None, None, None);
    for x in it.clone() {
        if n == k {
            kth = Some(x);
        } else if n == k + 1 {
            after = Some(x);
        }
        n += 1;
    }
    let eq = |x: Option<T>, y: Option<T>| match (&x, &y) {
        (Some(x), Some(y)) => same(x, y),
        (None, None) => true,
        _ => false,
    };
    match mode {
        0 => assert!(it.count() == n, "API: an iterator's count is wrong"),
        1 => {
            for x in it.clone() {
                last = Some(x);
            }
            assert!(eq(it.last(), last), "API: an iterator's last is wrong");
        }
        2 => {
            assert!(eq(it.nth(k), kth), "API: an iterator's nth is wrong");
            assert!(eq(it.next(), after), "API: an iterator goes on elsewhere after nth");
        }
        _ => {
            let seen = it.fold(0, |i, x| {
                if i == k {
                    assert!(kth.is_some() && same(&x, kth.as_ref().unwrap()), "API: an iterator's fold is wrong");
                }
                i + 1
            });
            assert!(seen == n, "API: an iterator's fold shows too few or too many");
        }
    }
}

/// An iterator over a list that says of its length what it likes, within reason
pub struct Feed<T, const L: usize> {
    it: std::array::IntoIter<T, L>,
    lower: u8,
    upper: u8,
}

pub fn feed<T, const L: usize>(x: [T; L], s: &mut Src) -> Feed<T, L> {
    Feed {
        it: x.into_iter(),
        lower: s.below(3),
        upper: s.below(3),
    }
}

impl<T, const L: usize> Iterator for Feed<T, L> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        let lower = match self.lower {
            0 => 0,
            1 => n,
            _ => n / 2,
        };
        let upper = match self.upper {
            0 => None,
            1 => Some(n),
            _ => Some(n + 1),
        };
        (lower, upper)
    }
}

/// Fixes the hashes. 0: all differ in the bits a table looks at first, 1: all differ, but only in
/// the other bits, 2: all are the same
pub fn pattern(x: u8) {
    let set = |i: usize| {
        let h = match x {
            0 => (i as u64) << 57 | mixed(i as u64),
            1 => 5 << 57 | mixed(i as u64),
            _ => 5 << 57 | mixed(3),
        };
        unsafe { verif::HASHES[i] = h };
    };
    let mut i = 0;
    while i < N {
        set(i);
        set(R0 as usize + i);
        i += 1;
    }
    unsafe { verif::WIDE = true };
}

pub fn same_ref(a: &&K, b: &&K) -> bool {
    std::ptr::eq(*a, *b)
}
pub fn same_pair(a: &(&K, &K), b: &(&K, &K)) -> bool {
    std::ptr::eq(a.0, b.0) && std::ptr::eq(a.1, b.1)
}

/// Native only: arbitrary operations after the one under test, each compared with the
/// specification. Shows whether a wrong internal state has consequences.
macro_rules! follow_ups {
    ($Map:ty, $M:ty, $check:ident, [$($op:expr),* $(,)?]) => {
        #[cfg(not(kani))]
        fn follow(map: &mut $Map, m: &mut $M, s: &mut Src) {
            let ops: &[fn(&mut $Map, &mut $M, &mut Src)] = &[$($op),*];
            let inv = s.inv;
            for _ in 0..s.follow {
                if s.rng == 0 {
                    s.rng = s.seed | 1;
                }
                let op = ((s.bits(8) as usize) << 3 | s.bits(3) as usize) % ops.len();
                ops[op](map, m, s);
                $check(map, m, s);
            }
            s.inv = inv;
        }
        #[cfg(kani)]
        fn follow(_: &mut $Map, _: &mut $M, _: &mut Src) {}
    };
}

/// Stand-ins for what makes a `Vec` grow: room for `ROOM` elements from the start. Reallocation to a
/// symbolic size is beyond the model checker.
#[cfg(kani)]
pub mod vec {
    use std::alloc::{Allocator, Global};
    const ROOM: usize = 16;

    pub fn new<T>() -> Vec<T> {
        Vec::with_capacity_in(ROOM, Global)
    }
    pub fn with_capacity<T>(n: usize) -> Vec<T> {
        assert!(n <= ROOM, "MODEL: a list is too long");
        Vec::with_capacity_in(ROOM, Global)
    }
    pub fn push<T, A: Allocator>(v: &mut Vec<T, A>, x: T) {
        let n = v.len();
        assert!(n < v.capacity(), "MODEL: a list is too long");
        unsafe {
            v.as_mut_ptr().add(n).write(x);
            v.set_len(n + 1);
        }
    }
    pub fn reserve<T, A: Allocator>(v: &mut Vec<T, A>, by: usize) {
        assert!(by <= v.capacity() - v.len(), "MODEL: a list is too long");
    }
}

/// Registers harnesses: proofs under Kani, a table of functions natively
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        #[cfg(kani)]
        pub mod proofs {
            use super::*;
            $(
                #[kani::proof]
                #[kani::solver(kissat)]
                #[kani::stub(std::vec::Vec::new, crate::base::vec::new)]
                #[kani::stub(std::vec::Vec::with_capacity, crate::base::vec::with_capacity)]
                #[kani::stub(std::vec::Vec::push, crate::base::vec::push)]
                #[kani::stub(std::vec::Vec::reserve, crate::base::vec::reserve)]
                #[cfg_attr(not(any(deep, roomy)), kani::unwind(6))]
                #[cfg_attr(all(deep, not(roomy)), kani::unwind(7))]
                #[cfg_attr(roomy, kani::unwind(9))]
                fn $name() {
                    let mut s = Src::any();
                    let f: fn(&mut Src) = $body;
                    f(&mut s);
                    #[cfg(covers)]
                    kani::cover!(true, "REACHED");
                }
            )*
        }
        #[cfg(not(kani))]
        pub static ALL: &[(&str, fn(&mut Src))] = &[$((stringify!($name), $body),)*];
    };
}
