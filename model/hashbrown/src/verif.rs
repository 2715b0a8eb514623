//! The model's sources of nondeterminism and the hash function shared with the harnesses.
use core::hash::{BuildHasher, Hasher};

/// Slots per table (elements held at most) under Kani.
#[cfg(all(kani, not(deep), not(roomy)))]
pub const CAP: usize = 4;
#[cfg(all(kani, deep, not(roomy)))]
pub const CAP: usize = 5;
#[cfg(all(kani, roomy))]
pub const CAP: usize = 6;

/// The hash of every value `0..16`: an arbitrary function.
pub static mut HASHES: [u64; 16] = [0; 16];
/// Whether lookups visit every element with the same top seven bits (else: the same hash).
pub static mut WIDE: bool = true;
/// While true, the model takes no arbitrary choices: elements go to slot `PREF` (or the first free
/// slot if it is taken) and nothing is rehashed. Used to build the state an operation starts from.
pub static mut SETUP: bool = false;
pub static mut PREF: usize = 0;
/// The direction in which the next table to be filled is iterated. Alternates, so that no two
/// tables of a map list their items in the same order.
pub static mut REV: bool = false;
/// How often an insertion has made a table grow
pub static mut GROWTHS: usize = 0;

pub(crate) fn direction() -> bool {
    unsafe {
        REV = !REV;
        !REV
    }
}

#[inline]
pub fn wide() -> bool {
    unsafe { WIDE }
}

#[inline]
pub fn setup() -> bool {
    unsafe { SETUP }
}

#[cfg(kani)]
pub mod nd {
    #[inline]
    pub fn flag() -> bool {
        kani::any()
    }
    #[inline]
    pub fn pick(n: usize) -> usize {
        let x: u8 = kani::any();
        kani::assume((x as usize) < n);
        x as usize
    }
    #[inline]
    pub fn any_usize() -> usize {
        kani::any()
    }
    #[inline]
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

#[cfg(not(kani))]
pub mod nd {
    use std::cell::Cell;
    thread_local!(static X: Cell<u64> = const { Cell::new(0x9E3779B97F4A7C15) });
    pub fn seed(s: u64) {
        X.with(|x| x.set(s | 1));
    }
    pub fn next() -> u64 {
        X.with(|x| {
            let mut v = x.get();
            v ^= v << 13;
            v ^= v >> 7;
            v ^= v << 17;
            x.set(v);
            v
        })
    }
    pub fn flag() -> bool {
        next() >> 40 & 1 == 1
    }
    pub fn pick(n: usize) -> usize {
        (next() >> 20) as usize % n
    }
}

/// Hashes a value written as one small integer with `HASHES`; anything else is folded into it.
#[derive(Clone, Default)]
pub struct TableHasher {
    state: u64,
    writes: u8,
    /// Distinguishes independent hash builders
    pub salt: u64,
}

impl TableHasher {
    #[inline]
    fn feed(&mut self, x: u64) {
        if self.writes == 0 {
            self.state = unsafe { HASHES[(x & 15) as usize] } ^ self.salt;
            if x > 15 {
                self.state = self.state.rotate_left(9) ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
            }
        } else {
            self.state = (self.state.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        self.writes = 1;
    }
}

impl Hasher for TableHasher {
    fn finish(&self) -> u64 {
        self.state
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.feed(*b as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.feed(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.feed(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.feed(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.feed(x as u64)
    }
}

#[cfg(kani)]
pub type DefaultHasher = TableHasher;
#[cfg(not(kani))]
pub type DefaultHasher = std::collections::hash_map::DefaultHasher;

#[derive(Clone, Copy, Debug, Default)]
pub struct DefaultHashBuilder;

impl BuildHasher for DefaultHashBuilder {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        DefaultHasher::default()
    }
}
