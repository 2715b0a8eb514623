//! Harnesses for `OptionalPair`: the same information as an option on each side.
use crate::base::*;
use cycle_map::optionals::OptionalPair;
use OptionalPair::*;

/// Items of the two sides have different types. Equality ignores the tag.
#[derive(Debug)]
struct A(u8, u8);
#[derive(Debug)]
struct B(u8, u8);
/// What these are mapped to
#[derive(Debug)]
struct A2(u8, u8);
#[derive(Debug)]
struct B2(u8, u8);
macro_rules! item {
    ($($T:ident)*) => {$(
        impl PartialEq for $T {
            fn eq(&self, other: &$T) -> bool {
                self.0 == other.0
            }
        }
        impl Eq for $T {}
    )*};
}
item! { A B A2 B2 }
/// A copy has another tag than the original
macro_rules! copied {
    ($($T:ident)*) => {$(
        impl Clone for $T {
            fn clone(&self) -> $T {
                $T(self.0, self.1 ^ 1)
            }
        }
    )*};
}
copied! { A B }
impl From<A> for A2 {
    fn from(a: A) -> A2 {
        A2(a.0 ^ 0x55, a.1)
    }
}
impl From<B> for B2 {
    fn from(b: B) -> B2 {
        B2(b.0 ^ 0xaa, b.1)
    }
}

type Op = OptionalPair<A, B>;

/// The option on each side
#[derive(Clone, Copy, PartialEq)]
struct Spec {
    l: Option<(u8, u8)>,
    r: Option<(u8, u8)>,
}

fn side(s: &mut Src) -> Option<(u8, u8)> {
    let (there, q, tag) = (s.flag(), s.bits(8), s.bits(8));
    if there {
        Some((q, tag))
    } else {
        None
    }
}

/// An arbitrary value
fn any(s: &mut Src) -> (Op, Spec) {
    let m = Spec {
        l: side(s),
        r: side(s),
    };
    let op = match (m.l, m.r) {
        (None, None) => Neither,
        (Some(l), None) => SomeLeft(A(l.0, l.1)),
        (None, Some(r)) => SomeRight(B(r.0, r.1)),
        (Some(l), Some(r)) => SomeBoth(A(l.0, l.1), B(r.0, r.1)),
    };
    (op, m)
}

macro_rules! spec_of {
    ($name:ident, $L:ident, $R:ident) => {
        /// By the variants alone
        fn $name(op: &OptionalPair<$L, $R>) -> Spec {
            match op {
                Neither => Spec { l: None, r: None },
                SomeLeft(l) => Spec {
                    l: Some((l.0, l.1)),
                    r: None,
                },
                SomeRight(r) => Spec {
                    l: None,
                    r: Some((r.0, r.1)),
                },
                SomeBoth(l, r) => Spec {
                    l: Some((l.0, l.1)),
                    r: Some((r.0, r.1)),
                },
            }
        }
    };
}
spec_of!(spec, A, B);
spec_of!(spec_l, A2, B);
spec_of!(spec_r, A, B2);
spec_of!(spec_lr, A2, B2);

fn queries(s: &mut Src) {
    let (op, m) = any(s);
    let none = m.l.is_none() && m.r.is_none();
    assert!(op.is_none() == none, "API: is_none");
    assert!(op.is_some() != none, "API: is_some");
    let l = op.get_left();
    let r = op.get_right();
    assert!(l.map(|x| (x.0, x.1)) == m.l, "API: get_left");
    assert!(r.map(|x| (x.0, x.1)) == m.r, "API: get_right");
    assert!(spec(&op) == m, "API: a query changes the value");
}

fn maps(s: &mut Src) {
    // Which function is a parameter of the mapping, so that it is not one particular function
    let (x, y) = (s.bits(8), s.bits(8));
    let (op, m) = any(s);
    let (mut calls_l, mut calls_r) = (0, 0);
    let left = |a: A| {
        calls_l += 1;
        A2(a.0 ^ x, a.1)
    };
    let right = |b: B| {
        calls_r += 1;
        B2(b.0 ^ y, b.1)
    };
    let l2 = m.l.map(|l| (l.0 ^ x, l.1));
    let r2 = m.r.map(|r| (r.0 ^ y, r.1));
    match s.below(4) {
        0 => {
            let res = op.map(left, right);
            assert!(spec_lr(&res) == Spec { l: l2, r: r2 }, "API: map");
            assert!(calls_l == m.l.is_some() as u32, "API: map calls the left function");
            assert!(calls_r == m.r.is_some() as u32, "API: map calls the right function");
        }
        1 => {
            let res = op.map_left(left);
            assert!(spec_l(&res) == Spec { l: l2, r: m.r }, "API: map_left");
            assert!(calls_l == m.l.is_some() as u32, "API: map_left calls its function");
        }
        2 => {
            let res = op.map_right(right);
            assert!(spec_r(&res) == Spec { l: m.l, r: r2 }, "API: map_right");
            assert!(calls_r == m.r.is_some() as u32, "API: map_right calls its function");
        }
        _ => {
            let res: OptionalPair<A2, B2> = op.convert();
            let e = Spec {
                l: m.l.map(|l| (l.0 ^ 0x55, l.1)),
                r: m.r.map(|r| (r.0 ^ 0xaa, r.1)),
            };
            assert!(spec_lr(&res) == e, "API: convert");
        }
    }
}

fn clones(s: &mut Src) {
    let (op, m) = any(s);
    let e = Spec {
        l: m.l.map(|l| (l.0, l.1 ^ 1)),
        r: m.r.map(|r| (r.0, r.1 ^ 1)),
    };
    let copy = op.clone();
    assert!(spec(&copy) == e, "API: clone");
    assert!(spec(&op) == m, "API: clone changes the original");
    assert!(copy == op, "API: a clone is not equal");
    let refs: OptionalPair<&A, &B> = match &op {
        Neither => Neither,
        SomeLeft(l) => SomeLeft(l),
        SomeRight(r) => SomeRight(r),
        SomeBoth(l, r) => SomeBoth(l, r),
    };
    assert!(spec(&refs.cloned()) == e, "API: cloned");
}

fn conversions(s: &mut Src) {
    let (op, m) = any(s);
    let options = || (m.l.map(|l| A(l.0, l.1)), m.r.map(|r| B(r.0, r.1)));
    let of = |x: &(Option<A>, Option<B>)| Spec {
        l: x.0.as_ref().map(|l| (l.0, l.1)),
        r: x.1.as_ref().map(|r| (r.0, r.1)),
    };
    match s.below(6) {
        0 => assert!(spec(&Op::from(options())) == m, "API: from a pair of options"),
        1 => assert!(spec(&Op::from(Some(options()))) == m, "API: from an optional pair of options"),
        2 => assert!(spec(&Op::from(None)) == Spec { l: None, r: None }, "API: from None"),
        3 => {
            let x: (Option<A>, Option<B>) = op.into();
            assert!(of(&x) == m, "API: into a pair of options");
        }
        4 => {
            let x: Option<(Option<A>, Option<B>)> = op.into();
            assert!(x.is_some() == (m.l.is_some() || m.r.is_some()), "API: into an optional pair of options");
            if let Some(x) = x {
                assert!(of(&x) == m, "API: into an optional pair of options");
            }
        }
        _ => {
            let x: (Option<A>, Option<B>) = op.into();
            let y: Option<(Option<A>, Option<B>)> = Op::from(x).into();
            assert!(spec(&Op::from(y)) == m, "API: there and back");
        }
    }
}

fn comparison(s: &mut Src) {
    let (a, m) = any(s);
    let (b, n) = any(s);
    let first = |x: Option<(u8, u8)>| x.map(|x| x.0);
    let equal = first(m.l) == first(n.l) && first(m.r) == first(n.r);
    assert!((a == b) == equal, "API: ==");
    assert!((b == a) == equal, "API: == the other way");
    assert!((a != b) != equal, "API: !=");
}

harnesses! {
    op_queries => queries;
    op_maps => maps;
    op_clones => clones;
    op_conversions => conversions;
    op_comparison => comparison;
}
