//! Containers of very many dynamically hashed keys: the same properties, at
//! sizes around which tables grow and counters of any width would wrap.

use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::iters::View;
use crate::rng::mix;
use crate::shape::{Api, Shape};
use crate::shape_api;
use crate::val::{ledger, ledger_reset, ledger_verdict, Tr};
use crate::views::{open, ALL};

/// Keys by number.
pub trait Deep: Api {
    /// How many numbers there are.
    const LIMIT: u64;
    fn at(i: u64) -> Self;
    fn num(&self) -> Option<u64>;
    /// Place of the component the key belongs to.
    fn component(&self) -> u32 {
        0
    }
}

const ODD: u64 = 0x9e37_79b9_7f4a_7c15;
/// The inverse of `ODD` modulo 2^64.
const fn inverse() -> u64 {
    let mut x = ODD;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(ODD.wrapping_mul(x)));
        i += 1;
    }
    x
}

impl Deep for u64 {
    const LIMIT: u64 = 1 << 40;
    fn at(i: u64) -> Self {
        i.wrapping_mul(ODD)
    }
    fn num(&self) -> Option<u64> {
        Some(self.wrapping_mul(inverse()))
    }
}

/// Consecutive numbers and the absent one.
impl Deep for Option<u32> {
    const LIMIT: u64 = 1 << 32;
    fn at(i: u64) -> Self {
        i.checked_sub(1).map(|i| i as u32)
    }
    fn num(&self) -> Option<u64> {
        Some(self.map_or(0, |x| u64::from(x) + 1))
    }
    fn component(&self) -> u32 {
        u32::from(self.is_none())
    }
}

/// Every byte.
impl Deep for u8 {
    const LIMIT: u64 = 256;
    fn at(i: u64) -> Self {
        i as u8
    }
    fn num(&self) -> Option<u64> {
        Some(u64::from(*self))
    }
}

/// Every character.
impl Deep for char {
    const LIMIT: u64 = 0x11_0000 - 0x800;
    fn at(i: u64) -> Self {
        char::from_u32(if i < 0xd800 { i } else { i + 0x800 } as u32).unwrap_or('?')
    }
    fn num(&self) -> Option<u64> {
        let c = u64::from(u32::from(*self));
        Some(if c < 0xd800 { c } else { c - 0x800 })
    }
}

/// Numbers written out, of many lengths and common beginnings and ends; equal
/// ones at more than one address.
impl Deep for &'static str {
    const LIMIT: u64 = 1 << 20;
    fn at(i: u64) -> Self {
        use std::cell::RefCell;
        use std::collections::HashMap as Table;
        thread_local!(static TEXTS: RefCell<Table<u64, ([&'static str; 2], usize)>> = RefCell::new(Table::new()));
        TEXTS.with(|t| {
            let mut t = t.borrow_mut();
            let e = t.entry(i).or_insert_with(|| {
                let new = || &*Box::leak(format!("{i}{}", "-".repeat((i % 29) as usize)).into_boxed_str());
                ([new(), new()], 0)
            });
            e.1 ^= 1;
            e.0[e.1]
        })
    }
    fn num(&self) -> Option<u64> {
        let i = self.trim_end_matches('-').parse().ok()?;
        (self.bytes().filter(|b| *b == b'-').count() as u64 == i % 29).then_some(i)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Key)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum DK {
    Low(bool),
    Wide(u64),
    Mid,
    Narrow(Option<u32>),
    Byte(i8),
}

impl Shape for DK {
    const NAME: &'static str = "DK";
    const COUNT: usize = 8;
    const FIXED: bool = false;
    const COMPLETE: bool = false;
    fn fill(out: &mut Vec<Self>) {
        out.extend([DK::Low(true), DK::Low(false), DK::Wide(0), DK::Wide(1), DK::Mid, DK::Narrow(Some(1)), DK::Narrow(None), DK::Byte(-1)]);
    }
    fn groups(next: &mut u32, out: &mut Vec<u32>) {
        out.extend([*next, *next + 1, *next + 2, *next + 2, *next + 3, *next + 4, *next + 5, *next + 6]);
        *next += 7;
    }
    fn index(&self) -> Option<usize> {
        Self::universe().iter().position(|k| k == self)
    }
}
shape_api!(DK, hashed);

impl Deep for DK {
    const LIMIT: u64 = 1 << 30;
    fn at(i: u64) -> Self {
        match i {
            0 => DK::Low(false),
            1 => DK::Narrow(None),
            2 => DK::Mid,
            3 => DK::Low(true),
            _ if i % 4 == 0 => DK::Narrow(Some((i / 4) as u32)),
            _ if i % 4 == 1 && i < 1000 => DK::Byte((i / 4) as u8 as i8),
            _ => DK::Wide(i.wrapping_mul(ODD)),
        }
    }
    fn num(&self) -> Option<u64> {
        Some(match self {
            DK::Low(false) => 0,
            DK::Narrow(None) => 1,
            DK::Mid => 2,
            DK::Low(true) => 3,
            DK::Narrow(Some(x)) => u64::from(*x) * 4,
            DK::Byte(x) => u64::from(*x as u8) * 4 + 1,
            DK::Wide(x) => x.wrapping_mul(inverse()),
        })
    }
    fn component(&self) -> u32 {
        match self {
            DK::Low(_) => 0,
            DK::Wide(_) => 1,
            DK::Mid => 2,
            DK::Narrow(Some(_)) => 3,
            DK::Narrow(None) => 4,
            DK::Byte(_) => 5,
        }
    }
}

const POINTS: [u64; 45] = [
    0, 1, 2, 3, 4, 7, 8, 14, 15, 16, 28, 29, 56, 57, 64, 112, 113, 127, 128, 129, 224, 225, 255, 256, 257, 448, 449, 512, 896, 897, 1000, 1001, 1023,
    1024, 1025, 1792, 1793, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 70000,
];

/// A map and a set holding the keys of the numbers lo..hi.
pub struct World<K: Deep> {
    m: Map<K, u64>,
    s: Set<K>,
    lo: u64,
    hi: u64,
    /// Values which are not what `value` gives.
    changed: HashMap<u64, u64>,
}

fn value(i: u64) -> u64 {
    mix(i) >> 1
}

impl<K: Deep> World<K> {
    fn n(&self) -> u64 {
        self.hi - self.lo
    }
    fn expect(&self, i: u64) -> Option<u64> {
        (self.lo <= i && i < self.hi).then(|| self.changed.get(&i).copied().unwrap_or_else(|| value(i)))
    }
    fn push(&mut self, how: u64) {
        let i = self.hi;
        let k = K::at(i);
        debug_assert!(k.num() == Some(i));
        match how % 4 {
            0 | 1 => {
                self.m.insert(k, value(i));
            }
            2 => {
                self.m.entry(k).or_insert(value(i));
            }
            _ => {
                if let Entry::Vacant(e) = self.m.entry(k) {
                    e.insert(value(i));
                }
            }
        }
        self.s.insert(k);
        self.hi += 1;
    }
    fn pop(&mut self, how: u64) {
        let i = self.lo;
        let k = K::at(i);
        if how % 3 == 0 {
            if let Entry::Occupied(e) = self.m.entry(k) {
                e.remove();
            }
        } else {
            self.m.remove(k);
        }
        self.s.remove(k);
        self.changed.remove(&i);
        self.lo += 1;
    }
    /// Some present numbers: all when there are few.
    fn some(&self, ctx: &mut Ctx, at_most: u64) -> Vec<u64> {
        if self.n() <= at_most {
            (self.lo..self.hi).collect()
        } else {
            let mut v: Vec<u64> = (0..at_most).map(|_| self.lo + ctx.rng.below(self.n() as usize) as u64).collect();
            v.push(self.lo);
            v.push(self.hi - 1);
            v.sort_unstable();
            v.dedup();
            v
        }
    }
    /// Absent numbers.
    fn others(&self, ctx: &mut Ctx) -> Vec<u64> {
        let mut v = vec![self.hi, self.hi + 1, self.hi + 1 + ctx.rng.below(1000) as u64, self.hi + 100_000];
        if self.lo > 0 {
            v.push(self.lo - 1);
            v.push(ctx.rng.below(self.lo as usize) as u64);
        }
        v.retain(|i| *i < K::LIMIT);
        v
    }
    fn what(&self) -> String {
        format!("{} keys, numbers {}..{}", self.n(), self.lo, self.hi)
    }
}

/// Grow, slide (a table full of what was removed) and shrink, looking at
/// every point.
fn stages<K: Deep>(ctx: &mut Ctx, most: u64, mut look: impl FnMut(&mut Ctx, &mut World<K>) -> R) {
    let most = most.min(K::LIMIT);
    let mut w = World { m: Map::<K, u64>::new(), s: Set::<K>::new(), lo: 0, hi: 0, changed: HashMap::new() };
    let start = if K::LIMIT > 1000 { ctx.rng.below(3) as u64 * 5 } else { 0 };
    let (mut good, mut seen) = (true, 0u64);
    w.lo = start;
    w.hi = start;
    for p in POINTS {
        if p > most || !good {
            break;
        }
        good &= ctx.case("deep", |ctx| {
            while w.n() < p {
                let how = ctx.rng.u64();
                w.push(how);
            }
            look(ctx, &mut w).map_err(|e| format!("{e}; growing, {}", w.what()))
        });
        seen += 1;
        ctx.eval(fp(&[4242, p, seen]));
        // A while of coming and going at this size.
        if p > 0 && good && p < 3000 && K::LIMIT > 1000 && ctx.rng.chance(1, 2) {
            good &= ctx.case("deep", |ctx| {
                for _ in 0..ctx.rng.below(2 * p as usize + 4) {
                    let how = ctx.rng.u64();
                    w.push(how);
                    w.pop(how >> 8);
                }
                look(ctx, &mut w).map_err(|e| format!("{e}; after coming and going, {}", w.what()))
            });
            seen += 1;
            ctx.eval(fp(&[4243, p, seen]));
        }
    }
    for p in POINTS.iter().rev().filter(|p| **p < most) {
        if !good || w.n() < *p || (w.n() > 5000 && *p < 5000 && *p != 4097) {
            continue;
        }
        good &= ctx.case("deep", |ctx| {
            while w.n() > *p {
                let how = ctx.rng.u64();
                w.pop(how);
            }
            look(ctx, &mut w).map_err(|e| format!("{e}; shrinking, {}", w.what()))
        });
        seen += 1;
        ctx.eval(fp(&[4244, *p, seen]));
    }
    ctx.count("stages of large hashed containers", seen);
    ctx.sample(|| format!("{seen} stages between 0 and {most} keys of {}", K::NAME));
}

pub fn c01<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let n = w.n() as usize;
        ensure!(w.m.len() == n, "len is {}", w.m.len());
        ensure!(w.m.is_empty() == (n == 0), "is_empty is {}", w.m.is_empty());
        for i in w.some(ctx, 1100) {
            let (k, want) = (K::at(i), w.expect(i));
            ensure!(w.m.get(k).copied() == want, "get({k:?}) is {:?}, expected {want:?}", w.m.get(k));
            ensure!(w.m.contains_key(k), "contains_key({k:?}) is false");
            ensure!(w.m.get_mut(k).copied() == want, "get_mut({k:?}) differs from {want:?}");
        }
        for i in w.others(ctx) {
            let k = K::at(i);
            ensure!(w.m.get(k).is_none() && !w.m.contains_key(k) && w.m.get_mut(k).is_none(), "{k:?} is present");
            ensure!(w.m.remove(k).is_none(), "remove({k:?}) returns a value");
            ensure!(w.m.len() == n, "len is {} after removing an absent key", w.m.len());
        }
        for i in w.some(ctx, 6) {
            let k = K::at(i);
            let x = ctx.rng.u64();
            let (old, want) = (w.m.insert(k, x), w.expect(i));
            ensure!(old == want, "insert({k:?}) returns {old:?}, stored was {want:?}");
            w.changed.insert(i, x);
            ensure!(w.m.len() == n, "len is {} after a replacement", w.m.len());
            let old = w.m.remove(k);
            ensure!(old == Some(x), "remove({k:?}) returns {old:?}, stored was {x}");
            ensure!(w.m.len() == n - 1 && w.m.get(k).is_none() && w.m.is_empty() == (n == 1), "after removing {k:?}: len {}", w.m.len());
            ensure!(w.m.insert(k, x).is_none(), "insert({k:?}) after its removal returns a value");
            ensure!(w.m.len() == n && w.m.get(k) == Some(&x), "after reinserting {k:?}: len {}", w.m.len());
        }
        let m = w.m.iter().map(|(_, v)| *v).fold(0u64, u64::wrapping_add);
        let t = (w.lo..w.hi).map(|i| w.expect(i).unwrap()).fold(0u64, u64::wrapping_add);
        ensure!(m == t, "the values sum up to {m}, those inserted to {t}");
        Ok(())
    });
    // Emptied at once, and used on.
    ctx.case("deep", |_| {
        let most = most.min(K::LIMIT);
        let mut m: Map<K, u64> = (0..most).map(|i| (K::at(i), i)).collect();
        ensure!(m.len() as u64 == most, "collected {} of {most}", m.len());
        m.clear();
        ensure!(m.is_empty() && m.len() == 0 && m.get(K::at(0)).is_none() && m.iter().next().is_none(), "after clear");
        ensure!(m.insert(K::at(1), 7).is_none() && m.len() == 1 && m.get(K::at(1)) == Some(&7), "insertion after clear");
        Ok(())
    });
}

pub fn c02<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let n = w.n() as usize;
        ensure!(w.s.len() == n, "len is {}", w.s.len());
        ensure!(w.s.is_empty() == (n == 0), "is_empty is {}", w.s.is_empty());
        for i in w.some(ctx, 1100) {
            let k = K::at(i);
            ensure!(w.s.contains(k), "contains({k:?}) is false");
        }
        for i in w.others(ctx) {
            let k = K::at(i);
            ensure!(!w.s.contains(k) && !w.s.remove(k) && w.s.len() == n, "{k:?} is present");
        }
        for i in w.some(ctx, 6) {
            let k = K::at(i);
            ensure!(!w.s.insert(k) && w.s.len() == n, "insert({k:?}) of a present one: len {}", w.s.len());
            ensure!(w.s.remove(k), "remove({k:?}) is false");
            ensure!(!w.s.contains(k) && w.s.len() == n - 1 && !w.s.remove(k) && w.s.is_empty() == (n == 1), "after removing {k:?}: len {}", w.s.len());
            ensure!(w.s.insert(k) && w.s.contains(k) && w.s.len() == n, "after reinserting {k:?}: len {}", w.s.len());
        }
        let m = w.s.iter().map(|k| k.num().unwrap_or(0)).fold(0u64, u64::wrapping_add);
        let t = (w.lo..w.hi).fold(0u64, u64::wrapping_add);
        ensure!(m == t, "the numbers sum up to {m}, those inserted to {t}");
        Ok(())
    });
    ctx.case("deep", |_| {
        let most = most.min(K::LIMIT);
        let mut s: Set<K> = (0..most).map(K::at).collect();
        ensure!(s.len() as u64 == most, "collected {} of {most}", s.len());
        s.clear();
        ensure!(s.is_empty() && s.len() == 0 && !s.contains(K::at(0)) && s.iter().next().is_none(), "after clear");
        ensure!(s.insert(K::at(1)) && s.len() == 1 && s.contains(K::at(1)), "insertion after clear");
        Ok(())
    });
}

/// Writes to one key leave all others alone.
pub fn c03<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let mut watched = w.some(ctx, 2500);
        watched.extend(w.others(ctx));
        let mut targets = w.some(ctx, 3);
        targets.extend(w.others(ctx).into_iter().take(2));
        for t in targets {
            let k = K::at(t);
            let before: Vec<(Option<u64>, bool)> = watched.iter().map(|i| (w.m.get(K::at(*i)).copied(), w.s.contains(K::at(*i)))).collect();
            let had = (w.m.get(k).copied(), w.s.contains(k));
            let how = ctx.rng.below(6);
            match how {
                0 => {
                    w.m.insert(k, 5);
                    w.s.insert(k);
                }
                1 => {
                    w.m.remove(k);
                    w.s.remove(k);
                }
                2 => {
                    if let Some(v) = w.m.get_mut(k) {
                        *v = 6;
                    }
                }
                3 => *w.m.entry(k).or_insert(8) += 1,
                4 => match w.m.entry(k) {
                    Entry::Occupied(e) => {
                        e.remove();
                    }
                    Entry::Vacant(e) => {
                        e.insert(9);
                    }
                },
                _ => {
                    w.m.entry(k).and_modify(|v| *v ^= 1).or_default();
                    w.s.insert(k);
                    w.s.remove(k);
                }
            }
            for (i, b) in watched.iter().zip(&before) {
                if *i != t {
                    let o = K::at(*i);
                    let now = (w.m.get(o).copied(), w.s.contains(o));
                    ensure!(now == *b, "writing to {k:?} (way {how}) changed {o:?} from {b:?} to {now:?}");
                }
            }
            // As it was.
            match had.0 {
                Some(v) => drop(w.m.insert(k, v)),
                None => drop(w.m.remove(k)),
            }
            if had.1 {
                w.s.insert(k);
            } else {
                w.s.remove(k);
            }
        }
        Ok(())
    });
}

fn numbers<K: Deep>(items: &[crate::iters::Item<K>]) -> Result<Vec<u64>, String> {
    items.iter().map(|i| i.k.as_ref().and_then(K::num).ok_or_else(|| format!("an unknown key {:?}", i.k))).collect()
}

pub fn c04<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let n = w.n() as usize;
        for view in ALL {
            let way = ctx.rng.below(4);
            let cut = ctx.rng.below(n + 2);
            let mut items = Vec::new();
            {
            let mut it = open(&mut w.m, &w.s, view);
            match way {
                0 => {
                    while let Some(i) = it.next() {
                        items.push(i);
                        ensure!(items.len() <= n + 8, "{view:?} does not end");
                    }
                    ensure!(it.next().is_none(), "{view:?} goes on after its end");
                }
                1 => it.for_each(&mut |i| items.push(i)),
                2 => items = it.collect(),
                _ => {
                    while items.len() < cut {
                        match it.next() {
                            Some(i) => items.push(i),
                            None => break,
                        }
                    }
                    it.for_each(&mut |i| items.push(i));
                }
            }
            }
            ensure!(items.len() == n, "{view:?} (way {way}, cut {cut}) yields {} items", items.len());
            if view.has_keys() {
                let mut ns = numbers(&items).map_err(|e| format!("{view:?} yields {e}"))?;
                if view.has_values() {
                    for (i, x) in ns.iter().zip(&items) {
                        let want = w.m.get(K::at(*i)).copied();
                        ensure!(x.v == want, "{view:?} pairs {:?} with {:?}, get returns {want:?}", x.k, x.v);
                    }
                }
                ns.sort_unstable();
                ensure!(ns.iter().copied().eq(w.lo..w.hi), "{view:?} (way {way}, cut {cut}) yields other keys than those present");
            } else {
                let mut vs: Vec<u64> = items.iter().filter_map(|i| i.v).collect();
                let mut want: Vec<u64> = (w.lo..w.hi).filter_map(|i| w.m.get(K::at(i)).copied()).collect();
                vs.sort_unstable();
                want.sort_unstable();
                ensure!(vs == want, "{view:?} (way {way}, cut {cut}) yields other values than those present");
            }
            let c = open(&mut w.m, &w.s, view).count();
            ensure!(c == n, "{view:?}: count() is {c}");
            let l = open(&mut w.m, &w.s, view).last();
            ensure!(l.is_some() == (n > 0), "{view:?}: last() is {}", l.is_some());
            crate::ctx::beat();
        }
        Ok(())
    });
}

pub fn c05<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |_, w| {
        for view in ALL {
            if !view.has_keys() {
                continue;
            }
            let mut last: Option<K> = None;
            let mut bad = None;
            open(&mut w.m, &w.s, view).for_each(&mut |i| {
                let k = i.k.unwrap();
                if let Some(l) = last {
                    // true comes before false.
                    if l.component() > k.component() || (k.component() == 0 && l.component() == 0 && K::NAME == "DK" && k.num() > l.num()) {
                        bad.get_or_insert((l, k));
                    }
                }
                last = Some(k);
            });
            ensure!(bad.is_none(), "{view:?} yields out of order: {bad:?}");
        }
        Ok(())
    });
}

pub fn c07<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let n = w.n() as usize;
        for view in ALL {
            let mut it = open(&mut w.m, &w.s, view);
            let mut notes = Vec::new();
            let mut count = 0usize;
            let step = 1 + n / 40;
            loop {
                if count % step == 0 || count + 2 > n {
                    notes.push((it.size_hint(), it.exact(), count));
                }
                if it.next().is_none() {
                    break;
                }
                count += 1;
            }
            notes.push((it.size_hint(), it.exact(), count));
            for ((lo, hi), e, at) in notes {
                let left = count - at;
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{view:?} after {at}: size hint ({lo}, {hi:?}), {left} items follow");
                ensure!(e.map_or(true, |e| e == left), "{view:?} after {at}: exact length {e:?}, {left} items follow");
            }
            crate::ctx::beat();
        }
        let (m, s) = (w.m.iter().count(), w.s.iter().count());
        ensure!(w.m.len() == m, "map: len() is {}, iteration yields {m}", w.m.len());
        ensure!(w.s.len() == s, "set: len() is {}, iteration yields {s}", w.s.len());
        let t: Set<K> = (w.lo..w.hi + 3).filter(|i| i % 3 != 0).map(K::at).collect();
        for (a, b) in [(&w.s, &t), (&t, &w.s)] {
            let mut it = a.intersection(b);
            let total = it.clone().count();
            for at in 0..=total {
                let (lo, hi) = it.size_hint();
                let left = total - at;
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "intersection after {at}: size hint ({lo}, {hi:?}), {left} items follow");
                it.next();
            }
        }
        let _ = ctx;
        Ok(())
    });
}

pub fn c08<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let n = w.n() as usize;
        let mut targets: Vec<(u64, bool)> = w.some(ctx, 12).into_iter().map(|i| (i, true)).collect();
        targets.extend(w.others(ctx).into_iter().map(|i| (i, false)));
        for (t, there) in targets {
            let k = K::at(t);
            let was = w.m.get(k).copied();
            ensure!(was.is_some() == there, "get({k:?}) is {was:?}");
            let e = w.m.entry(k);
            ensure!(e.key() == k, "entry({k:?}) has the key {:?}", e.key());
            let x = ctx.rng.u64();
            let how = ctx.rng.below(8);
            let (addr, now) = match (e, how) {
                (e, 0) => {
                    let r = e.or_insert(x);
                    (Some(r as *mut u64), Some(was.unwrap_or(x)))
                }
                (e, 1) => {
                    let r = e.or_insert_with(|| x);
                    (Some(r as *mut u64), Some(was.unwrap_or(x)))
                }
                (e, 2) => {
                    let mut bad = None;
                    let r = e.or_insert_with_key(|q| {
                        if q != k {
                            bad = Some(q);
                        }
                        x
                    }) as *mut u64;
                    ensure!(bad.is_none(), "or_insert_with_key({k:?}) shows {bad:?}");
                    (Some(r), Some(was.unwrap_or(x)))
                }
                (e, 3) => {
                    let r = e.and_modify(|v| *v = v.wrapping_add(1)).or_default();
                    (Some(r as *mut u64), Some(was.map_or(0, |v| v.wrapping_add(1))))
                }
                (Entry::Occupied(mut e), 4) => {
                    ensure!(there && e.key() == k && Some(*e.get()) == was, "an occupied entry for {k:?}, holding {:?}", was);
                    ensure!(Some(e.insert(x)) == was && *e.get() == x, "insert into the entry of {k:?}");
                    *e.get_mut() ^= 1;
                    (Some(e.into_mut() as *mut u64), Some(x ^ 1))
                }
                (Entry::Occupied(e), _) => {
                    ensure!(there, "an occupied entry for {k:?}");
                    let r = e.remove();
                    ensure!(Some(r) == was, "remove of the entry of {k:?} returns {r}");
                    (None, None)
                }
                (Entry::Vacant(e), 5) => {
                    ensure!(!there, "a vacant entry for {k:?}");
                    drop(e);
                    (None, None)
                }
                (Entry::Vacant(e), _) => {
                    ensure!(!there && e.key() == k, "a vacant entry for {k:?}");
                    (Some(e.insert(x) as *mut u64), Some(x))
                }
            };
            let got = w.m.get(k);
            ensure!(got.copied() == now, "after entry way {how} on {k:?} get is {got:?}, expected {now:?}");
            ensure!(got.map(|v| v as *const u64) == addr.map(|a| a as *const u64), "way {how} returns a reference to another value than that of {k:?}");
            let len = n + usize::from(now.is_some()) - usize::from(there);
            ensure!(w.m.len() == len, "after entry way {how} on {k:?} len is {}, expected {len}", w.m.len());
            match was {
                Some(v) => drop(w.m.insert(k, v)),
                None => drop(w.m.remove(k)),
            }
        }
        for i in w.some(ctx, 200) {
            let (g, e) = (w.m.get(K::at(i)).copied(), w.expect(i));
            ensure!(g == e, "number {i} is {g:?}, expected {e:?}");
        }
        Ok(())
    });
}

pub fn c09<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        for plan in 0..4 {
            let bits = ctx.rng.u64();
            let one = w.lo + ctx.rng.below(w.n() as usize + 1) as u64;
            let keep = |i: u64| match plan {
                0 => mix(bits ^ i) & 1 == 1,
                1 => i == one,
                2 => i != one,
                _ => bits & 1 == 1,
            };
            let mut m = K::clone_map(&w.m);
            let mut calls: HashMap<u64, u32> = HashMap::new();
            let mut bad = None;
            m.retain(|k, v| {
                let Some(i) = k.num() else {
                    bad.get_or_insert(format!("{k:?} is shown"));
                    return true;
                };
                *calls.entry(i).or_default() += 1;
                if w.expect(i) != Some(*v) {
                    bad.get_or_insert(format!("{k:?} is shown with {v}, holds {:?}", w.expect(i)));
                }
                *v = v.wrapping_add(3);
                keep(i)
            });
            ensure!(bad.is_none(), "retain (plan {plan}): {bad:?}");
            ensure!(calls.len() as u64 == w.n() && calls.values().all(|c| *c == 1), "retain (plan {plan}): {} keys shown", calls.len());
            let mut left = 0;
            for i in w.lo..w.hi {
                let (got, want) = (m.get(K::at(i)).copied(), keep(i).then(|| w.expect(i).unwrap().wrapping_add(3)));
                ensure!(got == want, "retain (plan {plan}): number {i} holds {got:?}, expected {want:?}");
                left += usize::from(want.is_some());
            }
            ensure!(m.len() == left && m.iter().count() == left, "retain (plan {plan}): len {}, iteration {}, expected {left}", m.len(), m.iter().count());
            let mut s = K::clone_set(&w.s);
            let mut shown = HashSet::new();
            let mut twice = false;
            s.retain(|k| {
                let i = k.num().unwrap_or(u64::MAX);
                twice |= !shown.insert(i);
                keep(i)
            });
            ensure!(!twice && shown.len() as u64 == w.n(), "set retain (plan {plan}): {} elements shown, twice: {twice}", shown.len());
            for i in w.lo..w.hi {
                ensure!(s.contains(K::at(i)) == keep(i), "set retain (plan {plan}): number {i}");
            }
            ensure!(s.len() == left, "set retain (plan {plan}): len {}, expected {left}", s.len());
            crate::ctx::beat();
        }
        Ok(())
    });
}

/// Ownership over large tables.
pub fn c10<K: Deep>(ctx: &mut Ctx, most: u64) {
    let most = most.min(K::LIMIT);
    for n in POINTS.iter().copied().filter(|n| *n <= most) {
        for way in 0..10 {
            ctx.case("deep", |ctx| {
                ledger_reset();
                let label = |e: String| format!("{e}; way {way} with {n} values");
                let live = |want: u64, what: &str| -> R {
                    ledger(|l| {
                        if let Some(e) = l.errors.first() {
                            return Err(format!("{what}: {e}"));
                        }
                        ensure!(l.live.len() as u64 == want, "{what}: {} values are alive, {want} are owned", l.live.len());
                        Ok(())
                    })
                };
                let mut m: Map<K, Tr> = Map::new();
                for i in 0..n {
                    m.insert(K::at(i), Tr::new(i));
                }
                live(n, "inserting").map_err(label)?;
                match way {
                    0 => {
                        m.clear();
                        live(0, "clear").map_err(label)?;
                        m.insert(K::at(0), Tr::new(1));
                        live(1, "insertion after clear").map_err(label)?;
                    }
                    1 => {
                        m.retain(|_, v| v.payload % 3 == 0);
                        live((n + 2) / 3, "retain").map_err(label)?;
                        m.retain(|_, _| false);
                        live(0, "retain of nothing").map_err(label)?;
                    }
                    2 => {
                        for i in 0..n {
                            m.insert(K::at(i), Tr::new(i + 7));
                        }
                        live(n, "overwriting").map_err(label)?;
                    }
                    3 => {
                        for i in 0..n {
                            ensure!(m.remove(K::at(i)).map(|t| t.payload) == Some(i), "remove");
                        }
                        live(0, "removing").map_err(label)?;
                    }
                    4 => {
                        let d = K::clone_map(&m);
                        live(2 * n, "clone").map_err(label)?;
                        drop(m);
                        live(n, "dropping the original").map_err(label)?;
                        for i in 0..n {
                            ensure!(d.get(K::at(i)).map(|t| t.payload) == Some(i), "the clone at {i}");
                        }
                        m = d;
                    }
                    5 => {
                        let cut = ctx.rng.below(n as usize + 2);
                        let mut it = open_owned::<K>(m);
                        let mut taken = 0;
                        for _ in 0..cut {
                            taken += u64::from(it.next().is_some());
                        }
                        live(n - taken, "an owned iterator").map_err(label)?;
                        drop(it);
                        live(0, "dropping an owned iterator").map_err(label)?;
                        m = Map::new();
                    }
                    6 => {
                        let mut d: Map<K, Tr> = (0..3.min(K::LIMIT)).map(|i| (K::at(i), Tr::new(i))).collect();
                        K::clone_map_from(&mut d, &m);
                        live(2 * n, "clone_from").map_err(label)?;
                        K::clone_map_from(&mut m, &Map::new());
                        live(n, "clone_from an empty map").map_err(label)?;
                    }
                    7 => {
                        let d: Map<K, Tr> = (0..n).chain(0..n).map(|i| (K::at(i), Tr::new(i))).collect();
                        live(2 * n, "collecting").map_err(label)?;
                        ensure!(d.len() as u64 == n, "collecting: len {}", d.len());
                    }
                    8 => {
                        for i in 0..n {
                            m.entry(K::at(i)).or_insert(Tr::new(0));
                            if let Entry::Occupied(mut e) = m.entry(K::at(i)) {
                                drop(e.insert(Tr::new(1)));
                                if i % 2 == 0 {
                                    e.remove();
                                }
                            }
                        }
                        live(n / 2, "entries").map_err(label)?;
                    }
                    _ => {
                        m = m;
                        let b = Box::new(m);
                        m = *b;
                        live(n, "moving").map_err(label)?;
                    }
                }
                drop(m);
                ledger_verdict(0).map_err(label)
            });
            ctx.eval(fp(&[4245, n, way]));
        }
    }
    ledger_reset();
}

fn open_owned<K: Deep>(m: Map<K, Tr>) -> Box<dyn crate::iters::It<'static, K>> {
    K::view::<Tr>(crate::iters::MapSrc::Own(m), View::Into)
}

pub fn c13<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let salt = ctx.rng.u64();
        for how in 0..4 {
            let f = |i: u64| mix(salt ^ i ^ how << 50) >> 1;
            match how {
                0 => {
                    for (k, v) in w.m.iter_mut() {
                        *v = f(k.num().ok_or("an unknown key")?);
                    }
                }
                1 => {
                    let ns: Vec<u64> = w.m.keys().map(|k| k.num().unwrap_or(0)).collect();
                    for (i, v) in ns.into_iter().zip(w.m.values_mut()) {
                        *v = f(i);
                    }
                }
                2 => {
                    for i in w.lo..w.hi {
                        *w.m.get_mut(K::at(i)).ok_or("get_mut misses a key")? = f(i);
                    }
                }
                _ => {
                    for (k, v) in &mut w.m {
                        *v = f(k.num().ok_or("an unknown key")?);
                    }
                }
            }
            for i in w.lo..w.hi {
                let g = w.m.get(K::at(i)).copied();
                ensure!(g == Some(f(i)), "written in way {how}, get of number {i} is {g:?}, expected {}", f(i));
            }
            for (k, v) in w.m.iter() {
                let a = w.m.get(k).ok_or("get misses a key iterated over")?;
                ensure!(core::ptr::eq(a, v), "iter and get designate different values of {k:?}");
            }
            let vs: Vec<*const u64> = w.m.values().map(|v| v as *const u64).collect();
            let is: Vec<*const u64> = w.m.iter().map(|(_, v)| v as *const u64).collect();
            ensure!(vs == is, "values and iter designate different values");
            crate::ctx::beat();
        }
        for i in w.lo..w.hi {
            w.m.insert(K::at(i), w.expect(i).unwrap());
        }
        Ok(())
    });
}

pub fn c14<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let n = w.n();
        let both = |a: &Map<K, u64>, b: &Map<K, u64>, want: bool, what: &str| -> R {
            crate::ctx::beat();
            for (x, y) in [(a, b), (b, a)] {
                ensure!(K::map_eq(x, y) == want && K::map_ne(x, y) != want, "{what}: maps compare {}, expected {want}", K::map_eq(x, y));
            }
            Ok(())
        };
        let sets = |a: &Set<K>, b: &Set<K>, want: bool, what: &str| -> R {
            for (x, y) in [(a, b), (b, a)] {
                ensure!(K::set_eq(x, y) == want && K::set_ne(x, y) != want, "{what}: sets compare {}, expected {want}", K::set_eq(x, y));
            }
            Ok(())
        };
        let mut m: Map<K, u64> = Map::new();
        let mut s: Set<K> = Set::new();
        for i in (w.lo..w.hi).rev() {
            m.insert(K::at(i), w.expect(i).unwrap());
            s.insert(K::at(i));
        }
        both(&w.m, &m, true, "the same in reverse")?;
        sets(&w.s, &s, true, "the same in reverse")?;
        both(&w.m, &K::clone_map(&w.m), true, "a clone")?;
        sets(&w.s, &K::clone_set(&w.s), true, "a clone")?;
        if n > 0 {
            let i = w.lo + ctx.rng.below(n as usize) as u64;
            let k = K::at(i);
            *m.get_mut(k).ok_or("get_mut")? ^= 1 << ctx.rng.below(64);
            both(&w.m, &m, false, "one value differs")?;
            m.remove(k);
            s.remove(k);
            both(&w.m, &m, false, "one is missing")?;
            sets(&w.s, &s, false, "one is missing")?;
            if let Some(j) = w.others(ctx).first() {
                m.insert(K::at(*j), w.expect(i).unwrap());
                s.insert(K::at(*j));
                both(&w.m, &m, false, "one key differs")?;
                sets(&w.s, &s, false, "one key differs")?;
                m.remove(K::at(*j));
                s.remove(K::at(*j));
            }
            m.insert(k, w.expect(i).unwrap());
            s.insert(k);
        }
        if let Some(j) = w.others(ctx).first() {
            m.insert(K::at(*j), 1);
            s.insert(K::at(*j));
            both(&w.m, &m, false, "one more")?;
            sets(&w.s, &s, false, "one more")?;
        }
        Ok(())
    });
}

pub fn c18<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let top = w.hi + 5;
        for style in 0..6 {
            let bits = ctx.rng.u64();
            let one = w.lo + ctx.rng.below(w.n() as usize + 1) as u64;
            let other = |i: u64| match style {
                0 => mix(bits ^ i) & 1 == 1,
                1 => i == one,
                2 => i != one,
                3 => mix(bits ^ i) & 63 == 1,
                4 => false,
                _ => i >= w.hi || i % 7 == 0,
            };
            let t: Set<K> = (w.lo..top).filter(|i| *i < K::LIMIT && other(*i)).map(K::at).collect();
            let want: Vec<u64> = (w.lo..w.hi).filter(|i| other(*i)).collect();
            for (name, a, b) in [("with", &w.s, &t), ("from", &t, &w.s)] {
                let mut it = a.intersection(b);
                let mut got = Vec::new();
                while let Some(k) = it.next() {
                    got.push(k);
                    ensure!(got.len() <= want.len(), "intersection {name} style {style} yields more than {} items", want.len());
                }
                ensure!(it.next().is_none(), "intersection {name} style {style} goes on after its end");
                let folded = a.intersection(b).fold(Vec::new(), |mut v, k| {
                    v.push(k);
                    v
                });
                ensure!(folded == got, "intersection {name} style {style}: fold and next differ");
                ensure!(a.intersection(b).count() == got.len(), "intersection {name} style {style}: count");
                ensure!(a.intersection(b).last() == got.last().copied(), "intersection {name} style {style}: last");
                let mut ns: Vec<u64> = got.iter().map(|k| k.num().unwrap_or(u64::MAX)).collect();
                ns.sort_unstable();
                ensure!(ns == want, "intersection {name} style {style} yields {} items, {} are common", ns.len(), want.len());
                crate::ctx::beat();
            }
        }
        Ok(())
    });
}

pub fn c19<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |ctx, w| {
        let mut m = K::clone_map(&w.m);
        let mut s = K::clone_set(&w.s);
        let mut m2: Map<K, u64> = (0..ctx.rng.below(40) as u64).filter(|i| *i < K::LIMIT).map(|i| (K::at(i), 1)).collect();
        let mut s2: Set<K> = (0..ctx.rng.below(40) as u64).filter(|i| *i < K::LIMIT).map(K::at).collect();
        K::clone_map_from(&mut m2, &w.m);
        K::clone_set_from(&mut s2, &w.s);
        let n = w.n() as usize;
        let same = |m: &Map<K, u64>, s: &Set<K>, w: &World<K>, what: &str| -> R {
            crate::ctx::beat();
            ensure!(m.len() == n && s.len() == n, "{what}: {} and {} of {n}", m.len(), s.len());
            for i in w.lo..w.hi {
                let k = K::at(i);
                ensure!(m.get(k).copied() == w.expect(i) && s.contains(k), "{what}: {k:?} is {:?} and {}", m.get(k), s.contains(k));
            }
            ensure!(m.iter().count() == n && s.iter().count() == n, "{what}: iteration");
            Ok(())
        };
        same(&m, &s, w, "a clone")?;
        same(&m2, &s2, w, "cloned into another")?;
        // Changing any leaves the others alone.
        for i in w.some(ctx, 300) {
            m.insert(K::at(i), 1);
            s.remove(K::at(i));
        }
        for i in w.others(ctx) {
            m.insert(K::at(i), 2);
            s.insert(K::at(i));
        }
        let (m0, s0) = (core::mem::take(&mut w.m), core::mem::take(&mut w.s));
        let r = same(&m0, &s0, w, "the original after changes to its clone");
        w.m = m0;
        w.s = s0;
        r?;
        same(&m2, &s2, w, "a clone after changes to another")?;
        m.clear();
        s.clear();
        drop((m, s));
        same(&m2, &s2, w, "a clone after another's end")?;
        core::mem::swap(&mut w.m, &mut m2);
        core::mem::swap(&mut w.s, &mut s2);
        m2.clear();
        s2.clear();
        let r = same(&K::clone_map(&w.m), &K::clone_set(&w.s), w, "a clone of a clone");
        r
    });
}

pub fn c24<K: Deep>(ctx: &mut Ctx, most: u64) {
    let most = most.min(K::LIMIT);
    for n in POINTS.iter().copied().filter(|n| *n <= most) {
        for style in 0..5 {
            ctx.case("deep", |ctx| {
                let mut list: Vec<(u64, u64)> = (0..n).map(|i| (i, value(i))).collect();
                match style {
                    1 => ctx.rng.shuffle(&mut list),
                    2 => {
                        for _ in 0..n {
                            let i = ctx.rng.below(n as usize) as u64;
                            let x = ctx.rng.u64();
                            let at = ctx.rng.below(list.len() + 1);
                            list.insert(at.max(list.len().saturating_sub(50)), (i, x));
                        }
                    }
                    3 => list.reverse(),
                    _ => {}
                }
                let mut want: HashMap<u64, u64> = HashMap::new();
                for (i, x) in &list {
                    want.insert(*i, *x);
                }
                let pairs = list.iter().map(|(i, x)| (K::at(*i), *x));
                let keys = list.iter().map(|(i, _)| K::at(*i));
                let (m, s): (Map<K, u64>, Set<K>) = match style {
                    0 => (pairs.collect(), keys.collect()),
                    // No promise of a length.
                    1 => (pairs.filter(|_| true).collect(), keys.filter(|_| true).collect()),
                    2 => (pairs.rev().collect::<Vec<_>>().into_iter().rev().collect(), keys.collect()),
                    3 => {
                        let (a, b) = (list.len() / 2, list.len() - list.len() / 2);
                        (pairs.clone().take(a).chain(pairs.skip(a).take(b)).collect(), keys.clone().take(a).chain(keys.skip(a)).collect())
                    }
                    _ => (Map::from_iter(pairs), Set::from_iter(keys)),
                };
                ensure!(m.len() == want.len() && s.len() == want.len(), "style {style}: {} and {} of {}", m.len(), s.len(), want.len());
                for (i, x) in &want {
                    let k = K::at(*i);
                    ensure!(m.get(k) == Some(x), "style {style}, {n} keys: {k:?} is {:?}, the last one given is {x}", m.get(k));
                    ensure!(s.contains(k), "style {style}, {n} keys: {k:?} is missing");
                }
                ensure!(m.iter().count() == want.len() && s.iter().count() == want.len(), "style {style}: iteration");
                Ok(())
            });
            ctx.eval(fp(&[4246, n, style]));
        }
    }
}

pub fn c25<K: Deep>(ctx: &mut Ctx, most: u64) {
    stages::<K>(ctx, most, |_, w| {
        let same = |a: String, b: String, what: &str| -> R {
            crate::ctx::beat();
            if a == b {
                return Ok(());
            }
            let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let cut = |s: &str| s.chars().skip(at.saturating_sub(20)).take(60).collect::<String>();
            Err(format!("{what} differs from the standard one at byte {at}: {:?} and {:?}", cut(&a), cut(&b)))
        };
        let pairs: Vec<(K, u64)> = w.m.iter().map(|(k, v)| (k, *v)).collect();
        let keys: Vec<K> = w.s.iter().collect();
        same(format!("{:?}", w.m), format!("{:?}", AsMap(&pairs)), "a map's text")?;
        same(format!("{:#?}", w.m), format!("{:#?}", AsMap(&pairs)), "a map's alternate text")?;
        same(format!("{:?}", w.s), format!("{:?}", AsSet(&keys)), "a set's text")?;
        same(format!("{:#?}", w.s), format!("{:#?}", AsSet(&keys)), "a set's alternate text")?;
        let mut o = String::new();
        write!(o, "{:?}", w.s.intersection(&w.s)).map_err(|e| e.to_string())?;
        let i: Vec<K> = w.s.intersection(&w.s).collect();
        same(o, format!("{i:?}"), "an intersection's text")?;
        Ok(())
    });
}

struct AsMap<'a, K>(&'a [(K, u64)]);
impl<K: std::fmt::Debug> std::fmt::Debug for AsMap<'_, K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.0.iter().map(|(k, v)| (k, v))).finish()
    }
}
struct AsSet<'a, K>(&'a [K]);
impl<K: std::fmt::Debug> std::fmt::Debug for AsSet<'_, K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_set().entries(self.0).finish()
    }
}

#[cfg(feature = "serde")]
pub fn c20<K: Deep + serde::Serialize + serde::de::DeserializeOwned>(ctx: &mut Ctx, most: u64) {
    use super::c20::{parse, write, FORMATS};
    use crate::sd::{record, Node};
    stages::<K>(ctx, most, |ctx, w| {
        let n = w.n() as usize;
        if n > 3000 && ctx.rng.chance(2, 3) && n != 65536 {
            return Ok(());
        }
        for f in FORMATS {
            if n > 3000 && ctx.rng.bool() {
                continue;
            }
            // Keys which are no strings need a format for which that is no matter.
            if let Ok(b) = write(f, &w.m) {
                let m: Map<K, u64> = parse(f, &b).map_err(|e| format!("{f:?}: reading a map back: {e}"))?;
                ensure!(K::map_eq(&m, &w.m) && m.len() == n, "{f:?}: a map of {n} comes back with {} entries", m.len());
            } else {
                ensure!(matches!(f, super::c20::Format::Json | super::c20::Format::JsonValue), "{f:?}: a map cannot be written");
            }
            let b = write(f, &w.s).map_err(|e| format!("{f:?}: writing a set: {e}"))?;
            let s: Set<K> = parse(f, &b).map_err(|e| format!("{f:?}: reading a set back: {e}"))?;
            ensure!(K::set_eq(&s, &w.s) && s.len() == n, "{f:?}: a set of {n} comes back with {} elements", s.len());
            crate::ctx::beat();
        }
        match record(&w.m) {
            Node::Map(len, items) => ensure!(items.len() == n && len.map_or(true, |l| l == n), "a map announces {len:?} and writes {}", items.len()),
            x => return Err(format!("a map is written as {x:?}")),
        }
        match record(&w.s) {
            Node::Seq(len, items) => ensure!(items.len() == n && len.map_or(true, |l| l == n), "a set announces {len:?} and writes {}", items.len()),
            x => return Err(format!("a set is written as {x:?}")),
        }
        Ok(())
    });
}

#[cfg(feature = "serde")]
pub fn c21<K: Deep + serde::Serialize + serde::de::DeserializeOwned>(ctx: &mut Ctx, most: u64) {
    use crate::sd::{read, record, Hint, Node, Plan};
    let most = most.min(K::LIMIT / 2).min(70_000);
    for n in POINTS.iter().copied().filter(|n| *n <= most) {
        for style in 0..4 {
            ctx.case("deep", |ctx| {
                // Some twice, the later one counting.
                let mut list: Vec<(u64, u64)> = (0..n).map(|i| (i, value(i))).collect();
                for _ in 0..n / 3 {
                    list.push((ctx.rng.below(n as usize) as u64, ctx.rng.u64() >> 1));
                }
                let hint = match style {
                    0 => Hint::Exact,
                    1 => Hint::Nothing,
                    2 => Hint::Is(0),
                    _ => Hint::Is(usize::MAX),
                };
                let plan = Plan { hint, ..Plan::default() };
                let node = Node::Map(Some(list.len()), list.iter().map(|(i, x)| (record(&K::at(*i)), Node::U(u128::from(*x), 64))).collect());
                let m: Map<K, u64> = read(&node, &plan).map_err(|e| format!("a map of {n}: {e}"))?;
                let want: HashMap<u64, u64> = list.iter().copied().collect();
                ensure!(m.len() == want.len(), "a map of {n} with hint {hint:?} has {} entries", m.len());
                for (i, x) in &want {
                    let k = K::at(*i);
                    ensure!(m.get(k) == Some(x), "{k:?} is {:?}, the last one given is {x}", m.get(k));
                }
                let node = Node::Seq(Some(list.len()), list.iter().map(|(i, _)| record(&K::at(*i))).collect());
                let plan = Plan { hint, ..Plan::default() };
                let s: Set<K> = read(&node, &plan).map_err(|e| format!("a set of {n}: {e}"))?;
                ensure!(s.len() == want.len() && (0..n).all(|i| s.contains(K::at(i))), "a set of {n} with hint {hint:?} has {} elements", s.len());
                Ok(())
            });
            ctx.eval(fp(&[4247, n, style]));
        }
    }
}
