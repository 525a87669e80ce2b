//! Value types stored in maps, and the ownership ledger.

use core::fmt::Debug;
use std::cell::RefCell;
use std::collections::HashMap;
use std::num::NonZeroU8;

/// A value with an observable signature.
pub trait Val: Clone + Debug + PartialEq + 'static {
    const NAME: &'static str;
    /// Make a value from a number.
    fn make(n: u64) -> Self;
    /// The signature of `make(n)`.
    fn norm(n: u64) -> u64;
    fn sig(&self) -> u64;
    /// Write through a shared reference, where the type allows it, without
    /// changing the value.
    fn poke(&self) {}
}

macro_rules! plain {
    ($t:ty, $name:literal) => {
        impl Val for $t {
            const NAME: &'static str = $name;
            fn make(n: u64) -> Self {
                n as $t
            }
            fn norm(n: u64) -> u64 {
                n as $t as u64
            }
            fn sig(&self) -> u64 {
                *self as u64
            }
        }
    };
}
plain!(u64, "u64");
plain!(u32, "u32");
plain!(u8, "u8");

impl Val for () {
    const NAME: &'static str = "()";
    fn make(_: u64) -> Self {}
    fn norm(_: u64) -> u64 {
        0
    }
    fn sig(&self) -> u64 {
        0
    }
}

impl Val for bool {
    const NAME: &'static str = "bool";
    fn make(n: u64) -> Self {
        n & 1 == 1
    }
    fn norm(n: u64) -> u64 {
        n & 1
    }
    fn sig(&self) -> u64 {
        u64::from(*self)
    }
}

impl Val for NonZeroU8 {
    const NAME: &'static str = "NonZeroU8";
    fn make(n: u64) -> Self {
        NonZeroU8::new((n % 255) as u8 + 1).unwrap()
    }
    fn norm(n: u64) -> u64 {
        n % 255
    }
    fn sig(&self) -> u64 {
        u64::from(self.get()) - 1
    }
}

/// Nested options: the value's own absence must not be confused with the
/// slot's.
impl Val for Option<Option<u32>> {
    const NAME: &'static str = "Option<Option<u32>>";
    fn make(n: u64) -> Self {
        match n % 3 {
            0 => None,
            1 => Some(None),
            _ => Some(Some((n / 3) as u32)),
        }
    }
    fn norm(n: u64) -> u64 {
        Self::make(n).sig()
    }
    fn sig(&self) -> u64 {
        match self {
            None => 0,
            Some(None) => 1,
            Some(Some(n)) => 2 + 3 * u64::from(*n),
        }
    }
}

impl Val for String {
    const NAME: &'static str = "String";
    fn make(n: u64) -> Self {
        format!("{n}")
    }
    fn norm(n: u64) -> u64 {
        n
    }
    fn sig(&self) -> u64 {
        self.parse().unwrap_or(u64::MAX)
    }
}

static STRS: [&str; 8] = ["", "a", "bb", "ccc", "dddd", "a\0", "é", "zz"];
impl Val for &'static str {
    const NAME: &'static str = "&'static str";
    fn make(n: u64) -> Self {
        STRS[(n % 8) as usize]
    }
    fn norm(n: u64) -> u64 {
        n % 8
    }
    fn sig(&self) -> u64 {
        STRS.iter().position(|s| s == self).map_or(u64::MAX, |p| p as u64)
    }
}

impl Val for Vec<u16> {
    const NAME: &'static str = "Vec<u16>";
    fn make(n: u64) -> Self {
        (0..n % 5).map(|i| (n >> (i * 8)) as u16).chain([(n & 0xffff) as u16]).collect()
    }
    fn norm(n: u64) -> u64 {
        Self::make(n).sig()
    }
    fn sig(&self) -> u64 {
        self.iter().fold(7, |h, x| h.wrapping_mul(65537).wrapping_add(u64::from(*x)))
    }
}

/// Over-aligned and large.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(64))]
pub struct Big {
    w: [u64; 40],
}

impl Default for Big {
    fn default() -> Self {
        Big::make(0)
    }
}

impl Val for Big {
    const NAME: &'static str = "Big(align 64)";
    fn make(n: u64) -> Self {
        let mut w = [n; 40];
        for (i, x) in w.iter_mut().enumerate() {
            *x = n.rotate_left(i as u32 * 7);
        }
        Big { w }
    }
    fn norm(n: u64) -> u64 {
        n
    }
    fn sig(&self) -> u64 {
        for (i, x) in self.w.iter().enumerate() {
            if *x != self.w[0].rotate_left(i as u32 * 7) {
                return u64::MAX - 1;
            }
        }
        self.w[0]
    }
}

/// Larger than a page.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Huge {
    w: [u64; 600],
}

impl Default for Huge {
    fn default() -> Self {
        Huge::make(0)
    }
}

impl Val for Huge {
    const NAME: &'static str = "Huge(4800 bytes)";
    fn make(n: u64) -> Self {
        let mut w = [n; 600];
        for (i, x) in w.iter_mut().enumerate() {
            *x = n.wrapping_add(i as u64);
        }
        Huge { w }
    }
    fn norm(n: u64) -> u64 {
        n
    }
    fn sig(&self) -> u64 {
        for (i, x) in self.w.iter().enumerate() {
            if *x != self.w[0].wrapping_add(i as u64) {
                return u64::MAX - 1;
            }
        }
        self.w[0]
    }
}

/// A zero sized, over-aligned value.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(16))]
pub struct Zst16;
impl Val for Zst16 {
    const NAME: &'static str = "Zst(align 16)";
    fn make(_: u64) -> Self {
        Zst16
    }
    fn norm(_: u64) -> u64 {
        0
    }
    fn sig(&self) -> u64 {
        0
    }
}

impl Val for f64 {
    const NAME: &'static str = "f64";
    fn make(n: u64) -> Self {
        match n % 8 {
            7 => f64::NAN,
            0 => 0.0,
            1 => -0.0,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            4 => 1.5,
            5 => -1.5,
            _ => (n / 8) as f64,
        }
    }
    fn norm(n: u64) -> u64 {
        Self::make(n).to_bits()
    }
    fn sig(&self) -> u64 {
        self.to_bits()
    }
}

impl Val for Option<f64> {
    const NAME: &'static str = "Option<f64>";
    fn make(n: u64) -> Self {
        (n % 9 != 0).then(|| f64::make(n / 9))
    }
    fn norm(n: u64) -> u64 {
        Self::make(n).sig()
    }
    fn sig(&self) -> u64 {
        self.map_or(1, f64::to_bits)
    }
}

impl<A: Val, B: Val> Val for (A, B) {
    const NAME: &'static str = "pair";
    fn make(n: u64) -> Self {
        (A::make(n), B::make(n))
    }
    fn norm(n: u64) -> u64 {
        A::norm(n).wrapping_mul(31).wrapping_add(B::norm(n))
    }
    fn sig(&self) -> u64 {
        self.0.sig().wrapping_mul(31).wrapping_add(self.1.sig())
    }
}

// Layouts for the sanitizers: owning, with niches, written through shared
// references.

macro_rules! boxed {
    ($t:ty, $name:literal, $make:expr, $get:expr, $poke:expr) => {
        impl Val for $t {
            const NAME: &'static str = $name;
            fn make(n: u64) -> Self {
                let f: fn(u64) -> $t = $make;
                f(n)
            }
            fn norm(n: u64) -> u64 {
                Self::make(n).sig()
            }
            fn sig(&self) -> u64 {
                let f: fn(&$t) -> u64 = $get;
                f(self)
            }
            fn poke(&self) {
                let f: fn(&$t) = $poke;
                f(self)
            }
        }
    };
}
boxed!(Box<u64>, "Box<u64>", Box::new, |b| **b, |_| ());
boxed!(Option<Box<u64>>, "Option<Box<u64>>", |n| (n % 5 != 0).then(|| Box::new(n)), |b| b.as_ref().map_or(0, |b| **b), |_| ());
boxed!(std::cell::Cell<u64>, "Cell<u64>", std::cell::Cell::new, |c| c.get(), |c| c.set(c.get()));
boxed!(std::rc::Rc<std::cell::Cell<u64>>, "Rc<Cell<u64>>", |n| std::rc::Rc::new(std::cell::Cell::new(n)), |c| c.get(), |c| c.set(c.get()));
boxed!(Shared, "Shared", |n| Shared(std::sync::Arc::new(n.into())), |c| c.0.load(Relaxed), |c| { c.0.fetch_add(0, Relaxed); });
boxed!(&'static u64, "&'static u64", |n| &NUMBERS[(n % 4) as usize], |r| **r, |_| ());
boxed!(Box<[String]>, "Box<[String]>", |n| (0..n % 4).map(|i| format!("{}", n ^ i)).collect(), |b| b.iter().fold(1, |h, s| {
    h * 31 + s.parse::<u64>().unwrap_or(9) % 1000
}), |_| ());
boxed!(char, "char", |n| char::from_u32((n % 0xd800) as u32).unwrap(), |c| *c as u64, |_| ());
boxed!(Nested, "Nested", |n| match n % 6 {
    0 => Nested::A,
    1 => Nested::B(None),
    2 => Nested::B(Some(n & 8 == 0)),
    3 => Nested::C(String::make(n)),
    4 => Nested::C(String::new()),
    _ => Nested::D(Box::new((n, [n as u8; 3]))),
}, |c| match c {
    Nested::A => 0,
    Nested::B(None) => 1,
    Nested::B(Some(b)) => 2 + u64::from(*b),
    Nested::C(s) => 4 + s.len() as u64,
    Nested::D(b) => b.0.wrapping_mul(7).wrapping_add(u64::from(b.1[2])),
}, |_| ());

use std::sync::atomic::Ordering::Relaxed;
static NUMBERS: [u64; 4] = [3, 1, 4, 15];

/// Written by many threads through shared references.
#[derive(Clone, Debug, Default)]
pub struct Shared(pub std::sync::Arc<std::sync::atomic::AtomicU64>);
impl PartialEq for Shared {
    fn eq(&self, o: &Self) -> bool {
        self.sig() == o.sig()
    }
}

/// Niches within niches.
#[derive(Clone, Debug, PartialEq, Default)]
pub enum Nested {
    #[default]
    A,
    B(Option<bool>),
    C(String),
    D(Box<(u64, [u8; 3])>),
}

// ---------------------------------------------------------------------------
// Ledger

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    Clone,
    Drop,
    Eq,
    Hash,
    Cmp,
    Debug,
    Default,
    /// Closures and iterators handed to the container.
    User,
}

pub const HOOKS: [Hook; 8] = [
    Hook::Clone,
    Hook::Drop,
    Hook::Eq,
    Hook::Hash,
    Hook::Cmp,
    Hook::Debug,
    Hook::Default,
    Hook::User,
];

#[derive(Default)]
pub struct Ledger {
    next: u64,
    /// Live values: uid -> payload.
    pub live: HashMap<u64, u64>,
    pub made: u64,
    pub cloned: u64,
    pub dropped: u64,
    /// Source uid of every clone.
    pub clones_of: Vec<u64>,
    /// Clone to source.
    pub source: HashMap<u64, u64>,
    /// uids in the order they were dropped since the last reset.
    pub drops: Vec<u64>,
    pub errors: Vec<String>,
    /// Panic when the given callback runs for the n-th time.
    pub bomb: Option<(Hook, u64)>,
    pub blown: bool,
    /// Calls of each callback.
    pub calls: [u64; 8],
}

thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn ledger<T>(f: impl FnOnce(&mut Ledger) -> T) -> T {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}

pub fn ledger_reset() {
    ledger(|l| {
        let next = l.next;
        *l = Ledger { next, ..Ledger::default() };
    });
}

/// Arm: the n-th (from 0) call of `hook` from now on panics.
pub fn arm(hook: Hook, n: u64) {
    ledger(|l| {
        l.calls = [0; 8];
        l.blown = false;
        l.bomb = Some((hook, n));
    });
}

pub fn disarm() -> bool {
    ledger(|l| {
        l.bomb = None;
        std::mem::take(&mut l.blown)
    })
}

pub fn hook(h: Hook) {
    crate::ctx::beat();
    let boom = LEDGER
        .try_with(|l| {
            let mut l = l.borrow_mut();
            let i = h as usize;
            let n = l.calls[i];
            l.calls[i] += 1;
            if l.bomb == Some((h, n)) && !std::thread::panicking() {
                l.blown = true;
                l.bomb = None;
                true
            } else {
                false
            }
        })
        .unwrap_or(false);
    if boom {
        panic!("injected panic in {h:?}");
    }
}

const MAGIC: u64 = 0x00c0_ffee_dead_beef;

/// A value which records its whole life.
pub struct Tr {
    pub uid: u64,
    pub payload: u64,
    canary: Box<u64>,
}

impl Tr {
    pub fn new(payload: u64) -> Self {
        let uid = ledger(|l| {
            l.next += 1;
            l.made += 1;
            let uid = l.next;
            l.live.insert(uid, payload);
            uid
        });
        Tr { uid, payload, canary: Box::new(uid ^ MAGIC) }
    }

    pub fn check(&self) {
        if *self.canary != self.uid ^ MAGIC {
            ledger(|l| l.errors.push(format!("value {} is corrupt", self.uid)));
        }
        ledger(|l| match l.live.get(&self.uid) {
            Some(p) if *p == self.payload => {}
            Some(_) => {
                let m = format!("value {} has a foreign payload", self.uid);
                l.errors.push(m)
            }
            None => {
                let m = format!("value {} is used after it was dropped", self.uid);
                l.errors.push(m)
            }
        });
    }
}

impl Default for Tr {
    fn default() -> Self {
        hook(Hook::Default);
        Tr::new(DEFAULT_PAYLOAD)
    }
}
pub const DEFAULT_PAYLOAD: u64 = 0xdef;

impl Clone for Tr {
    fn clone(&self) -> Self {
        self.check();
        hook(Hook::Clone);
        let t = Tr::new(self.payload);
        ledger(|l| {
            l.made -= 1;
            l.cloned += 1;
            l.clones_of.push(self.uid);
            l.source.insert(t.uid, self.uid);
        });
        t
    }
}

impl Drop for Tr {
    fn drop(&mut self) {
        let ok = *self.canary == self.uid ^ MAGIC;
        let _ = LEDGER.try_with(|l| {
            let mut l = l.borrow_mut();
            if !ok {
                let m = format!("corrupt value {} dropped", self.uid);
                l.errors.push(m);
            }
            if l.live.remove(&self.uid).is_none() {
                let m = format!("value {} dropped twice", self.uid);
                l.errors.push(m);
            }
            l.dropped += 1;
            l.drops.push(self.uid);
        });
        hook(Hook::Drop);
    }
}

impl PartialEq for Tr {
    fn eq(&self, o: &Self) -> bool {
        self.check();
        o.check();
        hook(Hook::Eq);
        self.payload == o.payload
    }
}
impl Eq for Tr {}
impl std::hash::Hash for Tr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.check();
        hook(Hook::Hash);
        h.write_u64(self.payload);
    }
}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.check();
        o.check();
        hook(Hook::Cmp);
        self.payload.cmp(&o.payload)
    }
}
impl Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check();
        hook(Hook::Debug);
        write!(f, "Tr({})", self.payload)
    }
}

impl Val for Tr {
    const NAME: &'static str = "Tr";
    fn make(n: u64) -> Self {
        Tr::new(n)
    }
    fn norm(n: u64) -> u64 {
        n
    }
    fn sig(&self) -> u64 {
        self.check();
        self.payload
    }
}

/// Errors recorded by the ledger, and leaks: call when no `Tr` should be
/// alive any more besides `expected`.
pub fn ledger_verdict(expected_live: usize) -> Result<(), String> {
    ledger(|l| {
        if let Some(e) = l.errors.first() {
            return Err(format!("ownership: {e}"));
        }
        if l.live.len() != expected_live {
            return Err(format!(
                "ownership: {} values are alive where {} should be (made {}, cloned {}, dropped {})",
                l.live.len(),
                expected_live,
                l.made,
                l.cloned,
                l.dropped
            ));
        }
        Ok(())
    })
}

#[cfg(feature = "serde")]
mod serde_impls {
    use super::{hook, Big, Hook, Huge, Tr, Val, Zst16};
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    impl Serialize for Tr {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.check();
            s.serialize_u64(self.payload)
        }
    }
    impl<'de> Deserialize<'de> for Tr {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let n = u64::deserialize(d)?;
            hook(Hook::User);
            Ok(Tr::new(n))
        }
    }
    impl Serialize for Big {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_u64(self.sig())
        }
    }
    impl<'de> Deserialize<'de> for Big {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            u64::deserialize(d).map(Big::make)
        }
    }
    impl Serialize for Huge {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_u64(self.sig())
        }
    }
    impl<'de> Deserialize<'de> for Huge {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            u64::deserialize(d).map(Huge::make)
        }
    }
    impl Serialize for Zst16 {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_unit_struct("Zst16")
        }
    }
    impl<'de> Deserialize<'de> for Zst16 {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            <()>::deserialize(d).map(|()| Zst16)
        }
    }
}
