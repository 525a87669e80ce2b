//! C27: optional features never change the behaviour of containers.
//!
//! One program is built under many configurations. Each run prints a digest
//! of everything it observed in each round; the digests of all builds must
//! agree. With `FM_DUMP=<section> <round>` a run prints that round in full.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

use super::c23::{self, Log};
use crate::ctx::{esc, fp, Ctx, R};
use crate::gen::{build_map, build_set, random_content};
use crate::iters::{MapSrc, SetSrc, View};
use crate::rng::{hash_str, Rng};
use crate::shape::{Api, OrdMapApi, OrdSetApi};
use crate::val::Val;

pub fn digest(ctx: &mut Ctx, section: &str, round: usize, log: &Log) -> R {
    let mut h = 7u64;
    for l in &log.lines {
        h = fp(&[h, hash_str(l)]);
    }
    println!("@@D {{\"shape\":{},\"section\":{},\"round\":{round},\"lines\":{},\"digest\":\"{h:016x}\"}}", esc(ctx.shape_name()), esc(section), log.lines.len());
    if std::env::var("FM_DUMP").map_or(false, |d| d == format!("{section} {round}")) {
        for l in &log.lines {
            println!("@@L {}", esc(l));
        }
    }
    ctx.count("observations logged", log.lines.len() as u64);
    ctx.eval(fp(&[h]));
    ctx.sample(|| format!("{section} round {round}: {}", log.lines.join("; ").chars().take(300).collect::<String>()));
    Ok(())
}

fn idx<K: Api>(k: K) -> usize {
    k.index().unwrap_or(99_999)
}

/// Entries, with their closures, and unwinding out of them.
fn entries<K: Api, V: Val>(rng: &mut Rng) -> Log {
    let keys = K::universe();
    let n = keys.len();
    let mut log = Log::default();
    let c = random_content(n, rng);
    let mut m: Map<K, V> = build_map(&keys, &c, rng);
    for _ in 0..24 {
        if n == 0 {
            break;
        }
        let i = rng.below(n);
        let k = keys[i];
        let x = V::make(rng.u64() >> 20);
        let kind = rng.below(9);
        let r = match kind {
            0 => format!("{}", m.entry(k).or_insert(x).sig()),
            1 => {
                let mut called = 0;
                let r = m
                    .entry(k)
                    .and_modify(|_| called += 1)
                    .or_insert_with_key(|k| {
                        let _ = k;
                        x
                    })
                    .sig();
                format!("{r} {called}")
            }
            2 => match m.entry(k) {
                Entry::Occupied(mut e) => format!("{} {}", idx(e.key()), e.insert(x).sig()),
                Entry::Vacant(e) => format!("vacant {}", idx(e.key())),
            },
            3 => match m.entry(k) {
                Entry::Occupied(e) => format!("{}", e.remove().sig()),
                Entry::Vacant(e) => format!("inserted {}", e.insert(x).sig()),
            },
            4 => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    m.entry(k).or_insert_with(|| panic!("here"));
                }));
                format!("{}", r.is_ok())
            }
            5 => match m.get_mut(k) {
                Some(v) => format!("{}", std::mem::replace(v, x).sig()),
                None => "none".into(),
            },
            6 => {
                let mut s = 0u64;
                for v in m.values_mut() {
                    s = s.wrapping_add(v.sig());
                }
                format!("{s}")
            }
            7 => {
                let stop = rng.below(n + 1);
                let mut left = stop;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    m.retain(|_, _| {
                        if left == 0 {
                            panic!("here");
                        }
                        left -= 1;
                        true
                    });
                }));
                format!("{}", r.is_ok())
            }
            _ => {
                let d: Map<K, V> = m.iter().map(|(k, v)| (k, v.clone())).filter(|(k, _)| idx(*k) % 3 != 1).collect();
                format!("{} {} {}", d.len(), K::map_eq(&d, &m), K::map_ne(&d, &m))
            }
        };
        log.put(format!("{kind} {i}: {r}"));
        let mut all: Vec<(usize, u64)> = m.iter().map(|(k, v)| (idx(k), v.sig())).collect();
        if !K::FIXED {
            all.sort();
        }
        log.put(format!("now {} {all:?}", m.len()));
    }
    log
}

/// What the iterators promise.
fn hints<K: Api, V: Val>(rng: &mut Rng) -> Log {
    let keys = K::universe();
    let mut log = Log::default();
    let c = random_content(keys.len(), rng);
    let mut m: Map<K, V> = build_map(&keys, &c, rng);
    let s: Set<K> = build_set(&keys, &c, rng);
    for view in View::MAP {
        let it = match view {
            View::Into => K::view(MapSrc::Own(K::clone_map(&m)), view),
            v if v.by_mut() => K::view(MapSrc::Mut(&mut m), view),
            _ => K::view(MapSrc::Ref(&m), view),
        };
        log.put(format!("{view:?} {:?} {:?} {}", it.size_hint(), it.exact(), it.double_ended()));
        log.put(format!("{}", it.count()));
    }
    for view in View::SET {
        let it = match view {
            View::SetInto => K::set_view(SetSrc::Own(K::clone_set(&s)), view),
            _ => K::set_view(SetSrc::Ref(&s), view),
        };
        log.put(format!("{view:?} {:?} {:?} {}", it.size_hint(), it.exact(), it.double_ended()));
        log.put(format!("{}", it.count()));
    }
    if K::FIXED {
        log.put(format!("{} {}", std::mem::size_of::<Map<K, V>>(), std::mem::size_of::<Set<K>>()));
    }
    log
}

pub fn run<K: Api, V: Val, W: Val>(ctx: &mut Ctx) {
    let mut ops = BTreeMap::new();
    let rounds = ctx.factor * if K::COUNT <= 40 { 12 } else { 5 };
    for round in 0..rounds {
        let seed = ctx.rng.u64();
        let rng = || Rng::new(seed);
        ctx.case("sets", |ctx| digest(ctx, "sets", round, &c23::sets::<K>(&mut rng(), &mut ops)));
        ctx.case("maps", |ctx| digest(ctx, "maps", round, &c23::maps::<K, V>(&mut rng())));
        ctx.case("maps", |ctx| digest(ctx, "more maps", round, &c23::maps::<K, W>(&mut rng())));
        ctx.case("entries", |ctx| digest(ctx, "entries", round, &entries::<K, V>(&mut rng())));
        ctx.case("entries", |ctx| digest(ctx, "more entries", round, &entries::<K, W>(&mut rng())));
        ctx.case("hints", |ctx| digest(ctx, "hints", round, &hints::<K, V>(&mut rng())));
    }
}

pub fn ordered_sets<K: OrdSetApi>(ctx: &mut Ctx) {
    for round in 0..4 * ctx.factor {
        let mut rng = Rng::new(ctx.rng.u64());
        ctx.case("ordered sets", |ctx| {
            let keys = K::universe();
            let mut log = Log::default();
            let sets: Vec<Set<K>> = (0..5).map(|_| build_set(&keys, &random_content(keys.len(), &mut rng), &mut rng)).collect();
            for a in &sets {
                for b in &sets {
                    log.put(format!("{:?} {:?} {:?}", K::set_cmp(a, b), K::set_partial_cmp(a, b), K::set_ops(a, b)));
                }
                let mut h = super::c15::Calls::default();
                K::set_hash(a, &mut h);
                log.put(format!("{h:?}"));
            }
            digest(ctx, "ordered sets", round, &log)
        });
    }
}

pub fn ordered<K: OrdMapApi>(ctx: &mut Ctx) {
    ordered_sets::<K>(ctx);
    for round in 0..6 * ctx.factor {
        let seed = ctx.rng.u64();
        ctx.case("ordered", |ctx| digest(ctx, "ordered", round, &c23::ordered::<K>(&mut Rng::new(seed))));
    }
}

/// Which interfaces are there, as the caller found out.
pub fn traits(ctx: &mut Ctx, what: &[(&str, bool)]) {
    let has: Vec<String> = what.iter().filter(|t| t.1).map(|t| esc(t.0)).collect();
    println!("@@I {{\"shape\":{},\"has\":[{}]}}", esc(ctx.shape_name()), has.join(","));
    ctx.count("interfaces asked for", what.len() as u64);
}

/// Whether a concrete type implements a trait.
#[macro_export]
macro_rules! implements {
    ($t:ty: $($b:tt)+) => {{
        trait No {
            const YES: bool = false;
        }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(::std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($b)+> W<T> {
            const YES: bool = true;
        }
        (concat!(stringify!($t), ": ", stringify!($($b)+)), <W<$t>>::YES)
    }};
}

/// The interfaces of the containers of one key type, whatever the features.
#[macro_export]
macro_rules! interfaces {
    ($ctx:expr, $k:ty) => {{
        use ::std::cmp::Ordering;
        type K = $k;
        type M = $crate::Map<$k, u32>;
        type F = $crate::Map<$k, f64>;
        type T = $crate::Map<$k, ::std::string::String>;
        type U = $crate::Map<$k, ::std::rc::Rc<u8>>;
        type N = $crate::Map<$k, $crate::props::c27::Bare>;
        type S = $crate::Set<$k>;
        type Iter = $crate::fixed_map::map::Iter<'static, $k, u32>;
        type IterMut = $crate::fixed_map::map::IterMut<'static, $k, u32>;
        type Keys = $crate::fixed_map::map::Keys<'static, $k, u32>;
        type Values = $crate::fixed_map::map::Values<'static, $k, u32>;
        type ValuesMut = $crate::fixed_map::map::ValuesMut<'static, $k, u32>;
        type IntoIter = $crate::fixed_map::map::IntoIter<$k, u32>;
        type SetIter = $crate::fixed_map::set::Iter<'static, $k>;
        type SetIntoIter = $crate::fixed_map::set::IntoIter<$k>;
        macro_rules! all {
            ($y:ty) => {
                &[
                    $crate::implements!($y: Clone), $crate::implements!($y: Copy), $crate::implements!($y: ::std::fmt::Debug),
                    $crate::implements!($y: Default), $crate::implements!($y: PartialEq), $crate::implements!($y: Eq),
                    $crate::implements!($y: PartialOrd), $crate::implements!($y: Ord), $crate::implements!($y: ::std::hash::Hash),
                    $crate::implements!($y: Send), $crate::implements!($y: Sync), $crate::implements!($y: Unpin),
                    $crate::implements!($y: ::std::panic::UnwindSafe), $crate::implements!($y: ::std::panic::RefUnwindSafe),
                    $crate::implements!($y: IntoIterator), $crate::implements!($y: Iterator),
                    $crate::implements!($y: DoubleEndedIterator), $crate::implements!($y: ExactSizeIterator),
                    $crate::implements!($y: ::std::iter::FusedIterator), $crate::implements!($y: FromIterator<($k, u32)>),
                    $crate::implements!($y: FromIterator<$k>), $crate::implements!($y: From<[($k, u32); 2]>),
                    $crate::implements!($y: From<[$k; 2]>), $crate::implements!($y: ::std::ops::Index<$k>),
                    $crate::implements!($y: Extend<($k, u32)>), $crate::implements!($y: Extend<$k>),
                    $crate::implements!($y: ::std::error::Error),
                ][..]
            };
        }
        let mut v: ::std::vec::Vec<(&str, bool)> = ::std::vec::Vec::new();
        for l in [all!(M), all!(F), all!(T), all!(U), all!(N), all!(S), all!(Iter), all!(IterMut), all!(Keys), all!(Values),
                  all!(ValuesMut), all!(IntoIter), all!(SetIter), all!(SetIntoIter)] {
            v.extend_from_slice(l);
        }
        $crate::props::c27::traits($ctx, &v);
    }};
}

/// A value with no interfaces at all.
pub struct Bare(pub *const u8);

#[cfg(feature = "serde")]
pub fn serde<K: Api + serde::Serialize + serde::de::DeserializeOwned, V: Val + serde::Serialize + serde::de::DeserializeOwned>(ctx: &mut Ctx) {
    for round in 0..4 * ctx.factor {
        let mut rng = Rng::new(ctx.rng.u64());
        ctx.case("serde", |ctx| {
            let keys = K::universe();
            let c = random_content(keys.len(), &mut rng);
            let m: Map<K, V> = build_map(&keys, &c, &mut rng);
            let s: Set<K> = build_set(&keys, &c, &mut rng);
            let mut log = Log::default();
            let mut bytes = |mut b: Vec<u8>| {
                if !K::FIXED {
                    b.sort();
                }
                log.put(format!("{b:?}"));
            };
            bytes(bincode::serialize(&m).map_err(|e| e.to_string())?);
            bytes(bincode::serialize(&s).map_err(|e| e.to_string())?);
            bytes(serde_json::to_vec(&s).map_err(|e| e.to_string())?);
            let d: Map<K, V> = bincode::deserialize(&bincode::serialize(&m).unwrap()).map_err(|e| e.to_string())?;
            let e: Set<K> = bincode::deserialize(&bincode::serialize(&s).unwrap()).map_err(|e| e.to_string())?;
            log.put(format!("{} {}", K::map_eq(&m, &d), K::set_eq(&s, &e)));
            let r: Result<Set<K>, _> = serde_json::from_str("[[[]]]");
            log.put(format!("{:?}", r.map(|_| ()).map_err(|e| e.to_string())));
            let r: Result<Set<K>, _> = serde_json::from_str("17");
            log.put(format!("{:?}", r.map(|_| ()).map_err(|e| e.to_string())));
            let r: Result<Map<K, V>, _> = serde_json::from_str("17");
            log.put(format!("{:?}", r.map(|_| ()).map_err(|e| e.to_string())));
            digest(ctx, "serde", round, &log)
        });
    }
}
