//! Runs the harnesses of `../harness` natively, against the real build of `/repo`.
//!
//! * `replay HARNESS W H`: does the counterexample `(w, h)` that the solver found fail here, too?
//! * `sample SEED ROUNDS HARNESS...`: random scenarios. Not what decides a property; it shows that
//!   the harnesses agree with the real code, and with the real hashbrown, where both are run.
//! * `list`: the harnesses.
//!
//! An "API" failure is a difference that a user of the maps can see. "INV" failures, about internal
//! state, only count if a sequence of further operations makes them visible.
#![allow(clippy::all)]
#![allow(dead_code)]

#[macro_use]
#[path = "../../harness/src/base.rs"]
pub mod base;
#[path = "../../harness/src/debug.rs"]
pub mod debug;
#[path = "../../harness/src/group.rs"]
pub mod group;
#[path = "../../harness/src/one.rs"]
pub mod one;
#[path = "../../harness/src/opt.rs"]
pub mod opt;
#[path = "../../harness/src/owner.rs"]
pub mod owner;
#[path = "../../harness/src/partial.rs"]
pub mod partial;
#[path = "../../harness/src/serialize.rs"]
pub mod serialize;

use base::{Rejected, Src, ROOM};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Counts what is asked for
struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        base::GROWTHS.with(|g| g.set(g.get() + 1));
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, at: *mut u8, layout: Layout) {
        System.dealloc(at, layout)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

static LAST: Mutex<String> = Mutex::new(String::new());

type Harness = (&'static str, fn(&mut Src));

fn all() -> Vec<Harness> {
    let mut v = Vec::new();
    v.extend_from_slice(one::ALL);
    v.extend_from_slice(partial::ALL);
    v.extend_from_slice(group::ALL);
    v.extend_from_slice(opt::ALL);
    v.extend_from_slice(debug::ALL);
    v.extend_from_slice(owner::ALL);
    v.extend_from_slice(serialize::ALL);
    v
}

enum Outcome {
    Held,
    Rejected,
    Failed(String),
}

fn run(f: fn(&mut Src), s: &mut Src) -> Outcome {
    LAST.lock().unwrap().clear();
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(()) => Outcome::Held,
        Err(e) if e.is::<Rejected>() => Outcome::Rejected,
        Err(_) => {
            let m = LAST.lock().unwrap().clone();
            // Not about the code under test
            if m.contains("HARNESS:") || m.contains("MODEL-") {
                Outcome::Rejected
            } else {
                Outcome::Failed(m)
            }
        }
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn wide(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
}

const ROOMS: [usize; 6] = [0, 1, 3, 4, 8, 15];

fn report(name: &str, w: u128, h: u128, mix: u64, room: usize, follow: u32, seed: u64, m: &str) {
    println!("FAILED harness={name} w={w:#x} h={h:#x} mix={mix:#x} room={room} follow={follow} seed={seed:#x}");
    println!("  {m}");
}

/// A crash leaves this as the last line
fn trying(name: &str, w: u128, h: u128, mix: u64, room: usize, follow: u32, seed: u64) {
    eprintln!("trying harness={name} w={w:#x} h={h:#x} mix={mix:#x} room={room} follow={follow} seed={seed:#x}");
}

/// One scenario, as printed by `report`
fn once(f: fn(&mut Src), w: u128, h: u128, mix: u64, room: usize, follow: u32, seed: u64) -> Outcome {
    unsafe { ROOM = room };
    let mut s = Src::given(w, h, mix);
    s.inv = false;
    s.follow = follow;
    s.seed = seed;
    run(f, &mut s)
}

fn number(x: &str) -> u128 {
    match x.strip_prefix("0x") {
        Some(x) => u128::from_str_radix(x, 16).unwrap(),
        None => x.parse().unwrap(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut m) = LAST.lock() {
            let p = info.payload();
            let text = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            let at = info.location().map(|l| l.to_string()).unwrap_or_default();
            *m = format!("{text} (at {at})");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let find = |name: &str| all().into_iter().find(|x| x.0 == name).expect("no such harness").1;
    match args[0].as_str() {
        "list" => {
            for (name, _) in all() {
                println!("{name}");
            }
        }
        // Exactly one scenario
        "once" => {
            let a: Vec<u128> = args[2..].iter().map(|x| number(x)).collect();
            match once(find(&args[1]), a[0], a[1], a[2] as u64, a[3] as usize, a[4] as u32, a[5] as u64) {
                Outcome::Failed(m) => {
                    report(&args[1], a[0], a[1], a[2] as u64, a[3] as usize, a[4] as u32, a[5] as u64, &m);
                    std::process::exit(1);
                }
                Outcome::Held => println!("held"),
                Outcome::Rejected => println!("rejected"),
            }
        }
        "replay" => {
            let f = find(&args[1]);
            let (w, h) = (number(&args[2]), number(&args[3]));
            let effort: u64 = args.get(4).map_or(4000, |x| number(x) as u64);
            // As it is, then with other low bits of the hashes and other capacities, then with
            // further operations after the one under test
            let mut rng = Rng(7);
            for follow in 0..8 {
                for i in 0..if follow == 0 { 64 } else { effort } {
                    let mix = if i < 12 && follow == 0 { 0 } else { rng.next() | 1 };
                    let room = ROOMS[i as usize % ROOMS.len()];
                    let seed = rng.next();
                    trying(&args[1], w, h, mix, room, follow, seed);
                    match once(f, w, h, mix, room, follow, seed) {
                        Outcome::Failed(m) => {
                            report(&args[1], w, h, mix, room, follow, seed, &m);
                            std::process::exit(1);
                        }
                        _ => {}
                    }
                }
            }
            println!("not reproduced");
        }
        "sample" => {
            let seed = number(&args[1]) as u64;
            let rounds = number(&args[2]) as u64;
            let mut failed = false;
            for name in &args[3..] {
                let f = find(name);
                let mut rng = Rng(seed ^ name.bytes().fold(0, |a, b| (a * 31 + b as u64) % 65521));
                let (mut held, mut tries) = (0, 0);
                while held < rounds && tries < 20 * rounds {
                    tries += 1;
                    let w = rng.wide();
                    // Many, some or no collisions
                    let h = match rng.next() % 3 {
                        0 => rng.wide(),
                        1 => rng.wide() & 0x11111111_11111111_11111111_11111111,
                        _ => rng.wide() & 0xf0f0f0f0_f0f0f0f0_f0f0f0f0_f0f0f0f0,
                    };
                    let mix = if rng.next() % 4 == 0 { 0 } else { rng.next() | 1 };
                    let room = ROOMS[rng.next() as usize % ROOMS.len()];
                    let (follow, fseed) = (0, 0);
                    trying(name, w, h, mix, room, follow, fseed);
                    match once(f, w, h, mix, room, follow, fseed) {
                        Outcome::Held => held += 1,
                        Outcome::Rejected => {}
                        Outcome::Failed(m) => {
                            report(name, w, h, mix, room, follow, fseed, &m);
                            failed = true;
                            break;
                        }
                    }
                }
                println!("sampled {name} {held}");
            }
            std::process::exit(failed as i32);
        }
        _ => panic!("usage"),
    }
}
