//! Debug output: what is formatted, in which order. The text around the items is not looked at.
use crate::base::*;
use crate::one::done;
use crate::partial::{BOTH, LEFT, PAIR, RIGHT};
use crate::{group, one, partial};
use cycle_map::OptionalPair::{self, *};
use std::fmt::{self, Write};

/// The items that were formatted, eight bits each
static mut LOG: u128 = 0;

fn add(log: &mut u128, k: &K) {
    assert!(*log >> 120 == 0, "API: Debug shows too much");
    *log = *log << 8 | 0x80 | (k.q.0 as u128 & 15) << 3 | (k.tag as u128 & 7);
}

impl fmt::Debug for K {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unsafe { add(&mut *std::ptr::addr_of_mut!(LOG), self) };
        f.write_str("k")
    }
}

/// Takes any text
struct Sink;
impl fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}

fn shown(x: &dyn fmt::Debug) -> u128 {
    unsafe { LOG = 0 };
    let res = write!(Sink, "{:?}", x);
    assert!(res.is_ok(), "API: Debug fails");
    unsafe { LOG }
}

/// An iterator shows what it would yield, wherever it is
macro_rules! iterator {
    ($it:expr, $s:expr, |$x:ident, $add:ident| $body:expr) => {{
        let mut it = $it;
        let mut i = $s.below(3);
        while i > 0 {
            it.next();
            i -= 1;
        }
        let mut want = 0;
        for $x in it.clone() {
            let mut $add = |k: &K| add(&mut want, k);
            $body;
        }
        assert!(shown(&it) == want, "API: Debug of an iterator");
    }};
}
/// A map shows what its iterator yields
macro_rules! map {
    ($map:expr, |$x:ident, $add:ident| $body:expr) => {{
        let mut want = 0;
        for $x in $map.iter() {
            let mut $add = |k: &K| add(&mut want, k);
            $body;
        }
        assert!(shown(&$map) == want, "API: Debug of a map");
    }};
}

fn op(x: OptionalPair<&K, &K>, add: &mut dyn FnMut(&K)) {
    match x {
        Neither => {}
        SomeLeft(a) => add(a),
        SomeRight(b) => add(b),
        SomeBoth(a, b) => {
            add(a);
            add(b)
        }
    }
}

fn item(x: (Option<&K>, &K), add: &mut dyn FnMut(&K)) {
    if let Some(a) = x.0 {
        add(a);
    }
    add(x.1);
}

fn pair(x: (&K, &K), add: &mut dyn FnMut(&K)) {
    add(x.0);
    add(x.1);
}

fn one_map(present: u8, s: &mut Src) {
    let (map, m) = one::with_pairs(present);
    map!(map, |x, add| pair(x, &mut add));
    one::check(&map, &m, s);
    done(map);
}

fn one_iter(s: &mut Src) {
    let (map, _) = one::with_pairs(7);
    match s.below(3) {
        0 => iterator!(map.iter(), s, |x, add| pair(x, &mut add)),
        1 => iterator!(map.iter_left(), s, |x, add| add(x)),
        _ => iterator!(map.iter_right(), s, |x, add| add(x)),
    }
    done(map);
}

fn partial_map(kinds: &[u8], s: &mut Src) {
    let (map, m) = partial::with(kinds);
    map!(map, |x, add| op(x, &mut add));
    partial::check(&map, &m, s);
    done(map);
}

fn partial_iter(kinds: &[u8], s: &mut Src) {
    let (map, _) = partial::with(kinds);
    match s.below(5) {
        0 => iterator!(map.iter(), s, |x, add| op(x, &mut add)),
        1 => iterator!(map.iter_paired(), s, |x, add| pair(x, &mut add)),
        2 => iterator!(map.iter_unpaired(), s, |x, add| op(x, &mut add)),
        3 => iterator!(map.iter_left(), s, |x, add| add(x)),
        _ => iterator!(map.iter_right(), s, |x, add| add(x)),
    }
    done(map);
}

fn group_map(ups: &[u8], rights: u8, s: &mut Src) {
    let (map, m) = group::with(ups, rights);
    map!(map, |x, add| item(x, &mut add));
    group::check(&map, &m, s);
    done(map);
}

fn group_iter(ups: &[u8], rights: u8, s: &mut Src) {
    let (map, _) = group::with(ups, rights);
    match s.below(6) {
        0 => iterator!(map.iter(), s, |x, add| item(x, &mut add)),
        1 => iterator!(map.iter_paired(), s, |x, add| pair(x, &mut add)),
        2 => iterator!(map.iter_unpaired(), s, |x, add| add(x)),
        3 => iterator!(map.iter_left(), s, |x, add| add(x)),
        4 => iterator!(map.iter_right(), s, |x, add| add(x)),
        _ => iterator!(map.get_left_iter(&Q(R0)).unwrap(), s, |x, add| add(x)),
    }
    done(map);
}

fn optional_pair(s: &mut Src) {
    let (a, b) = (l(s.ix(), 1), r(s.ix(), 2));
    let x = match s.below(4) {
        0 => Neither,
        1 => SomeLeft(&a),
        2 => SomeRight(&b),
        _ => SomeBoth(&a, &b),
    };
    let mut want = 0;
    op(x.clone(), &mut |k| add(&mut want, k));
    assert!(shown(&x) == want, "API: Debug of an optional pair");
}

harnesses! {
    fm_one => |s| one_map(7, s);
    fm_one_iter => one_iter;
    fm_partial => |s| partial_map(&[PAIR, LEFT, RIGHT], s);
    fm_partial_iter => |s| partial_iter(&[PAIR, BOTH], s);
    fm_group => |s| group_map(&[0, 0], 2, s);
    fm_group_iter => |s| group_iter(&[0, 0], 2, s);
    fm_optional_pair => optional_pair;
}
