//! C11: a workload for the sanitizers: every operation, references kept and
//! used for as long as they may be, all layouts.

use std::panic::{catch_unwind, AssertUnwindSafe};

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map_style, build_set, content_fp, random_content, small, Content};
use crate::iters::{It, MapSrc, SetSrc, View};
use crate::shape::{Api, OrdMapApi, OrdSetApi, RawApi};
use crate::val::Val;
use crate::views;

/// Histories which touch the given keys only.
fn build_map<K: Api, V: Val>(keys: &[K], c: &Content, rng: &mut crate::rng::Rng) -> Map<K, V> {
    let style = [0, 1, 2, 3, 4, 6, 7, 8][rng.below(8)];
    build_map_style(keys, c, style, rng)
}

/// At most `max` keys, the ends included.
fn some_keys<K: Api>(ctx: &mut Ctx, max: usize) -> Vec<K> {
    let all = K::universe();
    if all.len() <= max {
        return all;
    }
    let mut pick: Vec<usize> = (0..all.len()).collect();
    ctx.rng.shuffle(&mut pick);
    pick.truncate(max - 2);
    pick.extend([0, all.len() - 1]);
    pick.sort_unstable();
    pick.dedup();
    pick.into_iter().map(|i| all[i]).collect()
}

struct W<K: Api, V: Val> {
    keys: Vec<K>,
    map: Map<K, V>,
    model: Content,
    set: Set<K>,
    smodel: Vec<bool>,
}

impl<K: Api, V: Val> W<K, V> {
    fn verify(&self, what: &str) -> R {
        for (i, k) in self.keys.iter().enumerate() {
            let got = self.map.get(*k);
            if let Some(v) = got {
                v.poke();
            }
            ensure!(got.map(Val::sig) == self.model[i], "{what}: {k:?} holds {:?}, expected {:?}", got.map(Val::sig), self.model[i]);
            ensure!(self.map.contains_key(*k) == self.model[i].is_some(), "{what}: contains_key({k:?}) is {}", self.model[i].is_none());
            ensure!(self.set.contains(*k) == self.smodel[i], "{what}: contains({k:?}) is {}", !self.smodel[i]);
        }
        let n = self.model.iter().flatten().count();
        ensure!(self.map.len() == n, "{what}: len is {}, expected {n}", self.map.len());
        ensure!(self.map.is_empty() == (n == 0), "{what}: is_empty is {} with {n} entries", n != 0);
        let n = self.smodel.iter().filter(|x| **x).count();
        ensure!(self.set.len() == n && self.set.is_empty() == (n == 0), "{what}: set len is {}, expected {n}", self.set.len());
        Ok(())
    }
}

/// Step an iterator by a random word, then finish or drop it.
fn walk<'a, K: Api>(ctx: &mut Ctx, mut it: Box<dyn It<'a, K> + 'a>, limit: usize) -> R {
    let steps = ctx.rng.below(limit + 3);
    let mut seen = 0;
    for _ in 0..steps {
        let r = match ctx.rng.below(if it.double_ended() { 8 } else { 4 }) {
            0..=2 => it.next(),
            3 => it.nth(ctx.rng.below(3)),
            4..=6 => it.next_back(),
            _ => it.nth_back(ctx.rng.below(3)),
        };
        seen += usize::from(r.is_some());
        let _ = it.size_hint();
    }
    ensure!(seen <= limit, "an iterator over {limit} entries yielded {seen}");
    if let Some(d) = it.dup() {
        let mut n = 0;
        d.for_each(&mut |_| n += 1);
        ensure!(n + seen <= limit, "a cloned iterator yielded {n} after {seen}");
    }
    let mut n = 0;
    match ctx.rng.below(6) {
        0 => {}
        1 => n = it.count(),
        2 => n = usize::from(it.last().is_some()),
        3 => n = it.collect().len(),
        4 if it.double_ended() => it.rfor_each(&mut |_| n += 1),
        _ => it.for_each(&mut |_| n += 1),
    }
    ensure!(seen + n <= limit, "an iterator over {limit} entries yielded {seen} and then {n}");
    Ok(())
}

const OPS: usize = 30;

fn op<K: Api, V: Val>(ctx: &mut Ctx, w: &mut W<K, V>, o: usize) -> R {
    let n = w.keys.len();
    let (x, y) = (small(&mut ctx.rng), small(&mut ctx.rng));
    let i = ctx.rng.below(n);
    let Some(&k) = w.keys.get(i) else {
        // No key at all: what remains are whole-container operations.
        let mut m = K::clone_map(&w.map);
        m.clear();
        m.retain(|_, _| true);
        ensure!(m.is_empty() && m.iter_mut().next().is_none() && m.values_mut().next().is_none(), "a map without keys has entries");
        return Ok(());
    };
    let before = w.model[i];
    match o {
        0 => {
            let old = w.map.insert(k, V::make(x));
            ensure!(old.map(|v| v.sig()) == before, "insert of {k:?} returned something else than what was stored");
            w.model[i] = Some(V::norm(x));
        }
        1 => {
            let old = w.map.remove(k);
            ensure!(old.map(|v| v.sig()) == before, "remove of {k:?} returned something else than what was stored");
            w.model[i] = None;
        }
        2 => {
            // A mutable reference, kept while written and read twice.
            if let Some(r) = w.map.get_mut(k) {
                let _ = r.sig();
                *r = V::make(x);
                r.poke();
                let old = std::mem::replace(r, V::make(y));
                ensure!(old.sig() == V::norm(x), "a value read back through its reference changed");
            }
            w.model[i] = before.map(|_| V::norm(y));
        }
        3 => {
            // All shared references at once, used together.
            let all: Vec<Option<&V>> = w.keys.iter().map(|k| w.map.get(*k)).collect();
            let it: Vec<(K, &V)> = w.map.iter().collect();
            let vs: Vec<&V> = w.map.values().collect();
            for v in all.iter().flatten().chain(&vs) {
                v.poke();
            }
            let a: u64 = all.iter().flatten().fold(0, |h, v| h.wrapping_add(v.sig()));
            let b: u64 = it.iter().fold(0, |h, (_, v)| h.wrapping_add(v.sig()));
            let c: u64 = vs.iter().rev().fold(0, |h, v| h.wrapping_add(v.sig()));
            let want: u64 = w.model.iter().flatten().fold(0, |h, v| h.wrapping_add(*v));
            ensure!(a == want && b == want && c == want, "values read through live references sum up to {a}, {b}, {c}, expected {want}");
        }
        4 => {
            // All mutable references at once, written in another order.
            let mut all: Vec<(K, &mut V)> = w.map.iter_mut().collect();
            ctx.rng.shuffle(&mut all);
            for (_, v) in &mut all {
                **v = V::make(x);
            }
            if all.len() >= 2 {
                let (a, b) = all.split_at_mut(1);
                std::mem::swap(a[0].1, b[0].1);
            }
            for (_, v) in all.iter().rev() {
                v.poke();
                ensure!(v.sig() == V::norm(x), "a value written through iter_mut reads back differently");
            }
            for v in w.model.iter_mut().flatten() {
                *v = V::norm(x);
            }
        }
        5 => {
            let mut all: Vec<&mut V> = w.map.values_mut().collect();
            all.reverse();
            for v in &mut all {
                **v = V::make(y);
            }
            for v in &all {
                ensure!(v.sig() == V::norm(y), "a value written through values_mut reads back differently");
            }
            for v in w.model.iter_mut().flatten() {
                *v = V::norm(y);
            }
        }
        6 => {
            // Mutable references taken while iteration goes on.
            let mut kept: Vec<&mut V> = Vec::new();
            let mut it = w.map.iter_mut();
            while let Some((_, v)) = it.next() {
                if let Some(l) = kept.last_mut() {
                    **l = V::make(x);
                }
                *v = V::make(x);
                kept.push(v);
            }
            for v in kept {
                ensure!(v.sig() == V::norm(x), "a value written during iteration reads back differently");
            }
            for v in w.model.iter_mut().flatten() {
                *v = V::norm(x);
            }
        }
        7 => {
            let r = w.map.entry(k).or_insert(V::make(x));
            r.poke();
            let s = r.sig();
            *r = V::make(y);
            ensure!(s == before.unwrap_or(V::norm(x)), "or_insert designates {s}");
            w.model[i] = Some(V::norm(y));
        }
        8 => {
            let r = w.map.entry(k).and_modify(|v| *v = V::make(y)).or_insert_with_key(|_| V::make(x));
            let s = r.sig();
            w.model[i] = Some(if before.is_some() { V::norm(y) } else { V::norm(x) });
            ensure!(Some(s) == w.model[i], "and_modify.or_insert_with_key designates {s}");
        }
        9..=13 => match w.map.entry(k) {
            Entry::Vacant(e) => {
                ensure!(before.is_none(), "the entry of present {k:?} is vacant");
                ensure!(e.key() == k, "entry key is {:?}", e.key());
                if o % 2 == 1 {
                    let moved = Box::new(e);
                    let r = moved.insert(V::make(x));
                    ensure!(r.sig() == V::norm(x), "an inserted value reads back as {}", r.sig());
                    *r = V::make(y);
                    r.poke();
                    w.model[i] = Some(V::norm(y));
                }
            }
            Entry::Occupied(mut e) => {
                ensure!(before.is_some(), "the entry of absent {k:?} is occupied");
                ensure!(e.key() == k, "entry key is {:?}", e.key());
                let (a, b) = (e.get(), e.get());
                a.poke();
                ensure!(Some(a.sig()) == before && Some(b.sig()) == before, "get reads {} and {}", a.sig(), b.sig());
                match o {
                    9 => {
                        *e.get_mut() = V::make(x);
                        let r = e.into_mut();
                        ensure!(r.sig() == V::norm(x), "into_mut reads {}", r.sig());
                        *r = V::make(y);
                        w.model[i] = Some(V::norm(y));
                    }
                    10 => {
                        let old = e.insert(V::make(x));
                        ensure!(Some(old.sig()) == before && e.get().sig() == V::norm(x), "insert returns {}", old.sig());
                        let old = e.insert(V::make(y));
                        ensure!(old.sig() == V::norm(x), "insert returns {}", old.sig());
                        w.model[i] = Some(V::norm(y));
                    }
                    11 => {
                        *e.get_mut() = V::make(x);
                        let moved = Box::new(e);
                        let old = moved.remove();
                        ensure!(old.sig() == V::norm(x), "remove returns {}", old.sig());
                        w.model[i] = None;
                    }
                    12 => {
                        let r = Entry::<K::MapStorage<V>, K, V>::Occupied(e).or_insert(V::make(x));
                        ensure!(Some(r.sig()) == before, "or_insert reads {}", r.sig());
                        std::mem::swap(r, &mut V::make(y));
                        w.model[i] = Some(V::norm(y));
                    }
                    _ => drop(e),
                }
            }
        },
        14 => {
            // A closure which panics before anything is stored.
            let r = catch_unwind(AssertUnwindSafe(|| {
                w.map.entry(k).or_insert_with(|| panic!("thrown"));
            }));
            let mut texts: Map<K, String> = Map::new();
            texts.entry(k).or_default().push('x');
            texts.entry(k).or_default().push('y');
            ensure!(texts.get(k).map(String::as_str) == Some("xy") && texts.len() == 1, "or_default twice leaves {texts:?}");
            ensure!(r.is_err() == before.is_none(), "or_insert_with {} with the key {}", if r.is_err() { "panicked" } else { "returned" }, if before.is_some() { "present" } else { "absent" });
        }
        15 => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _ = w.map.entry(k).and_modify(|v| {
                    *v = V::make(x);
                    panic!("thrown")
                });
            }));
            ensure!(r.is_err() == before.is_some(), "and_modify panicked: {}", r.is_err());
            w.model[i] = before.map(|_| V::norm(x));
        }
        16 => {
            // Retain with writes; now and then it panics, after which what
            // remains is looked up.
            let boom = if ctx.rng.chance(1, 3) { ctx.rng.below(n) } else { usize::MAX };
            let mut calls = 0;
            let keys = w.keys.clone();
            let r = catch_unwind(AssertUnwindSafe(|| {
                w.map.retain(|q, v| {
                    if calls == boom {
                        panic!("thrown");
                    }
                    calls += 1;
                    v.poke();
                    let keep = keys.iter().position(|k| *k == q).map_or(true, |p| p % 3 != i % 3);
                    *v = V::make(x);
                    keep
                });
            }));
            for (p, k) in keys.iter().enumerate() {
                let got = w.map.get(*k).map(Val::sig);
                if r.is_ok() {
                    let want = w.model[p].filter(|_| p % 3 != i % 3).map(|_| V::norm(x));
                    ensure!(got == want, "after retain {k:?} holds {got:?}, expected {want:?}");
                } else {
                    ensure!(got.is_none() || w.model[p].is_some(), "a panicking retain added {k:?}");
                }
                w.model[p] = got;
            }
        }
        17 => {
            w.map.clear();
            ensure!(w.map.is_empty(), "not empty after clear");
            w.model.fill(None);
        }
        18 => {
            // Clones live on their own; the original may go first.
            let c = K::clone_map(&w.map);
            if let Some(v) = w.map.get_mut(k) {
                *v = V::make(x);
            }
            let old = std::mem::replace(&mut w.map, c);
            drop(old);
        }
        19 => {
            let c = random_content(n, &mut ctx.rng);
            let mut d: Map<K, V> = build_map(&w.keys, &c, &mut ctx.rng);
            K::clone_map_from(&mut d, &w.map);
            ensure!(K::map_eq(&d, &K::clone_map(&d)) || V::NAME.contains("f64"), "a map differs from its clone");
            w.map = d;
        }
        20 => {
            // Moved about in memory; niches of the containers themselves.
            let mut b = Box::new(Some(std::mem::take(&mut w.map)));
            let mut v = vec![None, b.take(), None];
            ensure!(b.is_none() && v[0].is_none() && v[1].is_some(), "an optional map lost itself");
            v.rotate_left(1);
            w.map = v.swap_remove(0).unwrap();
            let mut s = [None, Some(std::mem::take(&mut w.set))];
            s.swap(0, 1);
            w.set = s[0].take().unwrap();
        }
        21 | 22 => {
            let len = w.model.iter().flatten().count();
            let view = views::ALL[ctx.rng.below(8)];
            let it = views::open(&mut w.map, &w.set, view);
            walk(ctx, it, len)?;
        }
        23 => {
            // An owning iterator dropped midway, or panicking midway.
            let c = random_content(n, &mut ctx.rng);
            let m: Map<K, V> = build_map(&w.keys, &c, &mut ctx.rng);
            let len = c.iter().flatten().count();
            walk(ctx, K::view::<V>(MapSrc::Own(m), View::Into), len)?;
            let m: Map<K, V> = build_map(&w.keys, &c, &mut ctx.rng);
            let stop = ctx.rng.below(len + 1);
            let r = catch_unwind(AssertUnwindSafe(|| {
                for (j, (_, v)) in m.into_iter().enumerate() {
                    if j == stop {
                        panic!("thrown");
                    }
                    drop(v);
                }
            }));
            ensure!(r.is_err() == (stop < len), "an owning iterator over {len} entries ended early or late");
        }
        24 => {
            // Collecting from a source which panics.
            let c = random_content(n, &mut ctx.rng);
            let stop = ctx.rng.below(n + 2);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let m: Map<K, V> = w.keys.iter().zip(&c).enumerate().filter_map(|(j, (k, x))| {
                    if j == stop {
                        panic!("thrown");
                    }
                    x.map(|x| (*k, V::make(x)))
                }).collect();
                m.len()
            }));
            ensure!(r.is_err() == (stop < n), "collecting stopped early or late");
        }
        25 => {
            let was = w.smodel[i];
            if ctx.rng.bool() {
                ensure!(w.set.insert(k) != was, "set insert of {k:?} returned {was}");
                w.smodel[i] = true;
            } else {
                ensure!(w.set.remove(k) == was, "set remove of {k:?} returned {}", !was);
                w.smodel[i] = false;
            }
        }
        26 => {
            let boom = if ctx.rng.chance(1, 3) { ctx.rng.below(n) } else { usize::MAX };
            let mut calls = 0;
            let _ = catch_unwind(AssertUnwindSafe(|| {
                w.set.retain(|q| {
                    if calls == boom {
                        panic!("thrown");
                    }
                    calls += 1;
                    q != k
                });
            }));
            for (p, q) in w.keys.iter().enumerate() {
                let got = w.set.contains(*q);
                ensure!(!got || w.smodel[p], "retain added {q:?}");
                w.smodel[p] = got;
            }
        }
        27 => {
            let c = random_content(n, &mut ctx.rng);
            let other = build_set(&w.keys, &c, &mut ctx.rng);
            let a = w.set.intersection(&other).count();
            let b = other.intersection(&w.set).fold(0, |n, _| n + 1);
            ensure!(a == b, "intersections of {a} and {b}");
            let mut mine = K::clone_set(&other);
            ensure!(K::set_eq(&mine, &other), "a set differs from its clone");
            K::clone_set_from(&mut mine, &w.set);
            w.set = mine;
        }
        28 => {
            let len = w.smodel.iter().filter(|x| **x).count();
            let view = [View::SetIter, View::SetRef][ctx.rng.below(2)];
            walk(ctx, K::set_view(SetSrc::Ref(&w.set), view), len)?;
            let s = K::clone_set(&w.set);
            walk(ctx, K::set_view(SetSrc::Own(s), View::SetInto), len)?;
        }
        _ => {
            let a = format!("{:?} {:?}", w.map, w.set);
            let b = format!("{:#?}", w.map);
            ensure!(!a.is_empty() && !b.is_empty(), "empty debug output");
        }
    }
    Ok(())
}

fn budget(ctx: &Ctx) -> (usize, usize, usize) {
    // (keys, histories, steps)
    if cfg!(miri) {
        (7, ctx.factor, 34)
    } else {
        (40, 20 * ctx.factor, 90)
    }
}

pub fn run<K: Api, V: Val>(ctx: &mut Ctx) {
    let (max, rounds, steps) = budget(ctx);
    ctx.count("value types", 1);
    for _ in 0..rounds {
        let ok = ctx.case("history", |ctx| {
            let keys = some_keys::<K>(ctx, max);
            let (c, s) = (random_content(keys.len(), &mut ctx.rng), random_content(keys.len(), &mut ctx.rng));
            let map = build_map(&keys, &c, &mut ctx.rng);
            let set = build_set(&keys, &s, &mut ctx.rng);
            let model = c.iter().map(|x| x.map(V::norm)).collect();
            let mut w: W<K, V> = W { keys, map, model, set, smodel: s.iter().map(Option::is_some).collect() };
            w.verify("after building")?;
            let mut order: Vec<usize> = (0..OPS).collect();
            for t in 0..steps {
                if t % OPS == 0 {
                    ctx.rng.shuffle(&mut order);
                }
                let o = order[t % OPS];
                let before = content_fp(&w.model);
                op(ctx, &mut w, o)?;
                ctx.eval(fp(&[o as u64, before, content_fp(&w.model)]));
                ctx.count("operations", 1);
                if t % 8 == 7 {
                    w.verify(&format!("after operation {o}"))?;
                }
            }
            w.verify("at the end")?;
            ctx.sample(|| format!("{steps} operations on {} keys of {} values, ending with {} entries", w.keys.len(), V::NAME, w.map.len()));
            Ok(())
        });
        if !ok {
            break;
        }
    }
}

/// Comparisons and hashes of sets.
pub fn ordered_sets<K: OrdSetApi>(ctx: &mut Ctx) {
    let (max, rounds, _) = budget(ctx);
    for _ in 0..rounds {
        ctx.case("ordered sets", |ctx| {
            let keys = some_keys::<K>(ctx, max);
            let (c, d) = (random_content(keys.len(), &mut ctx.rng), random_content(keys.len(), &mut ctx.rng));
            let (a, b) = (build_set(&keys, &c, &mut ctx.rng), build_set(&keys, &d, &mut ctx.rng));
            let o = K::set_cmp(&a, &b);
            ensure!(K::set_partial_cmp(&b, &a) == Some(o.reverse()), "comparison is not antisymmetric");
            let mut h = std::collections::hash_map::DefaultHasher::new();
            K::set_hash(&a, &mut h);
            K::set_hash_slice(&[K::clone_set(&a), K::clone_set(&b)], &mut h);
            let m = K::set_max(K::clone_set(&a), K::clone_set(&b));
            ensure!(K::set_eq(&m, if o.is_gt() { &a } else { &b }), "max is neither");
            ctx.eval(fp(&[77, content_fp(&c), content_fp(&d)]));
            Ok(())
        });
    }
}

/// Comparisons and hashes of maps.
pub fn ordered<K: OrdMapApi, V: Val + Ord + std::hash::Hash>(ctx: &mut Ctx) {
    let (max, rounds, _) = budget(ctx);
    ordered_sets::<K>(ctx);
    for _ in 0..rounds {
        ctx.case("ordered maps", |ctx| {
            let keys = some_keys::<K>(ctx, max);
            let (c, d) = (random_content(keys.len(), &mut ctx.rng), random_content(keys.len(), &mut ctx.rng));
            let (a, b): (Map<K, V>, Map<K, V>) = (build_map(&keys, &c, &mut ctx.rng), build_map(&keys, &d, &mut ctx.rng));
            let o = K::map_cmp(&a, &b);
            ensure!(K::map_partial_cmp(&b, &a) == Some(o.reverse()), "comparison is not antisymmetric");
            let mut h = std::collections::hash_map::DefaultHasher::new();
            K::map_hash(&a, &mut h);
            let (x, y) = (K::clone_map(&a), K::clone_map(&b));
            let m = K::map_min(x, y);
            ensure!(K::map_eq(&m, if o.is_gt() { &b } else { &a }), "min is neither");
            ctx.eval(fp(&[78, content_fp(&c), content_fp(&d)]));
            Ok(())
        });
    }
}

/// Raw values of bitset sets, with stray bits.
pub fn raw<K: RawApi>(ctx: &mut Ctx) {
    let (_, rounds, _) = budget(ctx);
    for _ in 0..rounds * 3 {
        ctx.case("raw", |ctx| {
            let b = u128::from(ctx.rng.u64()) << 64 | u128::from(ctx.rng.u64());
            let s = K::from_raw(b);
            let keys = K::universe();
            let mut n = 0;
            for k in s.iter() {
                // A variant which is not one of the enum's would be found here.
                let i = k.index();
                ensure!(i.is_some_and(|i| keys[i] == k), "iteration yields a key which is none");
                n += 1;
            }
            ensure!(n == s.len(), "len is {}, iteration yields {n}", s.len());
            let n2 = K::set_view(SetSrc::Own(s), View::SetInto).count();
            ensure!(n == n2, "{n} and {n2} elements");
            ctx.eval(fp(&[79, b as u64, (b >> 64) as u64]));
            Ok(())
        });
    }
}

/// The building blocks of entries.
pub fn buckets<V: Val>(ctx: &mut Ctx) {
    use fixed_map::option_bucket::{NoneBucket, OptionBucket, SomeBucket};
    let (_, rounds, _) = budget(ctx);
    for r in 0..rounds * 12 {
        ctx.case("buckets", |ctx| {
            let (x, y) = (small(&mut ctx.rng), small(&mut ctx.rng));
            let mut slot: Option<V> = ctx.rng.bool().then(|| V::make(x));
            let was = slot.is_some();
            ensure!(SomeBucket::new(&mut slot).is_some() == was && NoneBucket::new(&mut slot).is_some() != was, "a bucket of the wrong kind");
            let want = match OptionBucket::new(&mut slot) {
                OptionBucket::None(b) => {
                    ensure!(!was, "a full option gives an empty bucket");
                    let v = b.insert(V::make(y));
                    v.poke();
                    let got = v.sig();
                    ensure!(got == V::norm(y), "inserted {}, found {got}", V::norm(y));
                    *v = V::make(x);
                    Some(V::norm(x))
                }
                OptionBucket::Some(mut b) => {
                    ensure!(was, "an empty option gives a full bucket");
                    ensure!(b.as_ref().sig() == V::norm(x), "a bucket reads {}", b.as_ref().sig());
                    match r % 4 {
                        0 => {
                            ensure!(b.take().sig() == V::norm(x), "take returned something else");
                            None
                        }
                        1 => {
                            *b.as_mut() = V::make(y);
                            let v = b.into_mut();
                            v.poke();
                            ensure!(v.sig() == V::norm(y), "a bucket reads {}", v.sig());
                            Some(V::norm(y))
                        }
                        2 => {
                            let old = b.replace(V::make(y));
                            ensure!(old.sig() == V::norm(x) && b.as_ref().sig() == V::norm(y), "replace returned something else");
                            Some(V::norm(y))
                        }
                        _ => Some(V::norm(x)),
                    }
                }
            };
            ensure!(slot.as_ref().map(Val::sig) == want, "the option holds {:?}, expected {want:?}", slot.as_ref().map(Val::sig));
            ctx.eval(fp(&[80, r as u64 % 4, u64::from(was)]));
            Ok(())
        });
    }
}
