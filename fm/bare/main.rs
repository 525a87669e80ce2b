//! A small workload which needs nothing but `core`: built with and without
//! the standard library, it must print the same.
#![cfg_attr(feature = "bare", no_std)]
#![cfg_attr(feature = "bare", no_main)]
#![allow(warnings)]

#[cfg(feature = "bare")]
extern crate core;

use core::cmp::Ordering;
use core::fmt::{self, Debug, Write};
use core::hash::{Hash, Hasher};

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map, Set};

#[cfg(feature = "bare")]
mod sys {
    #[link(name = "c")]
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn abort() -> !;
        fn malloc(n: usize) -> *mut u8;
        fn aligned_alloc(a: usize, n: usize) -> *mut u8;
        fn free(p: *mut u8);
    }

    pub fn print(s: &str) {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let n = unsafe { write(1, b.as_ptr(), b.len()) };
            if n <= 0 {
                return;
            }
            b = &b[n as usize..];
        }
    }

    struct Libc;
    unsafe impl core::alloc::GlobalAlloc for Libc {
        unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
            let a = if l.align() < 16 { 16 } else { l.align() };
            aligned_alloc(a, (l.size() + a - 1) / a * a)
        }
        unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) {
            free(p)
        }
    }
    #[global_allocator]
    static A: Libc = Libc;

    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
        print("PANIC\n");
        unsafe { abort() }
    }

    #[no_mangle]
    pub extern "C" fn rust_eh_personality() {}
    #[no_mangle]
    pub extern "C" fn _Unwind_Resume() {}

    #[no_mangle]
    pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
        super::work();
        0
    }
}

#[cfg(not(feature = "bare"))]
mod sys {
    pub fn print(s: &str) {
        std::print!("{}", s);
    }
}

#[cfg(not(feature = "bare"))]
fn main() {
    work();
}

struct Out;
impl Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        sys::print(s);
        Ok(())
    }
}

struct Fnv(u64, u64);
impl Fnv {
    fn u(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
        self.1 += 1;
    }
}
impl Write for Fnv {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        Ok(())
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.u(*x as u64);
        }
    }
}

struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
}

/// One history on one key type. `fixed`: order counts.
macro_rules! history {
    ($name:literal, $k:ty, $keys:expr, $fixed:expr, $seed:expr, |$h:ident, $a:ident, $b:ident, $s:ident, $t:ident| $extra:expr) => {{
        let keys: &[$k] = &$keys;
        let mut r = Rng($seed);
        let mut h = Fnv(1, 0);
        let mut a: Map<$k, u32> = Map::new();
        let mut b: Map<$k, u32> = Map::default();
        let mut s: Set<$k> = Set::new();
        let mut t: Set<$k> = Set::default();
        for _ in 0..400 {
            let k = keys[r.below(keys.len())];
            let x = r.u64() as u32;
            match r.below(20) {
                0 | 1 => h.u(a.insert(k, x).map_or(1 << 40, u64::from)),
                2 => h.u(b.insert(k, x).map_or(1 << 40, u64::from)),
                3 => h.u(a.remove(k).map_or(1 << 40, u64::from)),
                4 => h.u(u64::from(*a.entry(k).and_modify(|v| *v ^= 1).or_insert(x))),
                5 => match b.entry(k) {
                    Entry::Occupied(e) => {
                        let v: u32 = OccupiedEntry::<$k, u32>::remove(e);
                        h.u(u64::from(v))
                    }
                    Entry::Vacant(e) => {
                        let v: &mut u32 = VacantEntry::<$k, u32>::insert(e, x);
                        h.u(u64::from(*v))
                    }
                },
                6 | 7 => h.u(s.insert(k) as u64),
                8 => h.u(t.insert(k) as u64),
                9 => h.u(s.remove(k) as u64),
                10 => a.retain(|_, v| *v % 7 != 3),
                11 => {
                    if x % 4 == 0 {
                        s.retain(|y| y == k)
                    }
                }
                12 => a.values_mut().for_each(|v| *v = v.wrapping_add(1)),
                13 => a.iter_mut().for_each(|(_, v)| *v = v.wrapping_mul(3)),
                14 => h.u(s.intersection(&t).count() as u64),
                15 => {
                    if x % 8 == 0 {
                        a.clear();
                        t.clear();
                    }
                }
                16 => {
                    b = a.iter().map(|(k, v)| (k, *v)).collect();
                }
                17 => {
                    t = s.iter().collect();
                }
                18 => {
                    h.u(a.clone().into_iter().map(|(_, v)| u64::from(v)).fold(0, u64::wrapping_add));
                    h.u(s.clone().into_iter().count() as u64);
                }
                _ => h.u((a == b) as u64 + 2 * (s == t) as u64 + 4 * a.contains_key(k) as u64 + 8 * s.contains(k) as u64),
            }
            if $fixed {
                let mut it = a.iter();
                h.u(it.size_hint().0 as u64);
                let _ = it.next();
                h.u(it.count() as u64);
                for (k, v) in a.iter() {
                    let _ = write!(h, "{:?}", k);
                    h.u(u64::from(*v));
                }
                for k in s.iter() {
                    let _ = write!(h, "{:?}", k);
                }
                let _ = write!(h, "{:?} {:#?}", a, s);
            } else {
                let mut sum = 0u64;
                for (k, v) in a.iter() {
                    let mut f = Fnv(3, 0);
                    let _ = write!(f, "{:?} {}", k, v);
                    sum = sum.wrapping_add(f.0);
                }
                for k in s.iter() {
                    let mut f = Fnv(4, 0);
                    let _ = write!(f, "{:?}", k);
                    sum = sum.wrapping_add(f.0);
                }
                h.u(sum);
            }
            h.u((a.len() * 1000 + s.len()) as u64);
            {
                let ($h, $a, $b, $s, $t) = (&mut h, &a, &b, &s, &t);
                $extra
            }
        }
        let _ = write!(Out, "@@D {{\"shape\":\"{}\",\"section\":\"core only\",\"round\":0,\"lines\":{},\"digest\":\"{:016x}\"}}\n", $name, h.1, h.0);
    }};
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Key)]
enum Abc {
    A,
    B,
    C,
    D,
    E,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Key)]
#[key(bitset)]
enum Bits {
    A,
    B,
    C,
    D,
    E,
    F,
    G,
    H,
    I,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Mix {
    First,
    Bool(bool),
    Inner(Abc),
    Opt(Option<Bits>),
    Unit(()),
    Last,
}
#[cfg(feature = "hashbrown")]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Hashed {
    First,
    Num(i32),
    Str(&'static str),
    Opt(Option<u8>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Key)]
enum Nothing {}

fn work() {
    let seed: u64 = SEED;
    for i in 0..ROUNDS {
        let seed = seed.wrapping_mul(1000).wrapping_add(i);
        history!("bool", bool, [true, false], true, seed, |h, a, b, s, t| ());
        history!("()", (), [()], true, seed, |h, a, b, s, t| h.u(s.cmp(t) as u64));
        history!("Option<bool>", Option<bool>, [None, Some(true), Some(false)], true, seed, |h, a, b, s, t| ());
        history!("Abc", Abc, [Abc::A, Abc::B, Abc::C, Abc::D, Abc::E], true, seed, |h, a, b, s, t| {
            a.hash(h);
            s.hash(h);
            h.u(a.cmp(b) as u64);
            h.u(s.cmp(t) as u64);
            h.u(a.partial_cmp(b).map_or(9, |o| o as u64));
        });
        history!(
            "Bits",
            Bits,
            [Bits::A, Bits::B, Bits::C, Bits::D, Bits::E, Bits::F, Bits::G, Bits::H, Bits::I],
            true,
            seed,
            |h, a, b, s, t| {
                s.hash(h);
                h.u(s.cmp(t) as u64);
                h.u(u64::from(s.as_raw()));
                h.u((Set::<Bits>::from_raw(s.as_raw()) == *s) as u64);
            }
        );
        history!(
            "Mix",
            Mix,
            [
                Mix::First, Mix::Bool(true), Mix::Bool(false), Mix::Inner(Abc::A), Mix::Inner(Abc::E), Mix::Opt(None),
                Mix::Opt(Some(Bits::A)), Mix::Opt(Some(Bits::I)), Mix::Unit(()), Mix::Last
            ],
            true,
            seed,
            |h, a, b, s, t| ()
        );
        #[cfg(feature = "hashbrown")]
        history!(
            "Hashed",
            Hashed,
            [
                Hashed::First, Hashed::Num(0), Hashed::Num(-1), Hashed::Num(i32::MAX), Hashed::Str(""), Hashed::Str("a"),
                Hashed::Str("ab"), Hashed::Opt(None), Hashed::Opt(Some(0)), Hashed::Opt(Some(255))
            ],
            false,
            seed,
            |h, a, b, s, t| ()
        );
        #[cfg(feature = "hashbrown")]
        history!("u64", u64, [0, 1, 2, 3, 4, 5, 6, 7, 8, 1 << 40, 1 << 41, u64::MAX], false, seed, |h, a, b, s, t| ());
    }
    let m = Map::<Nothing, u32>::new();
    let _ = write!(Out, "@@D {{\"shape\":\"nothing\",\"section\":\"core only\",\"round\":0,\"lines\":1,\"digest\":\"{} {}\"}}\n", m.len(), m.iter().count());
}

