//! C23: bitset storage is observably the same set.
//!
//! One history is run on two key types identical but for the storage they ask
//! for; everything the containers say is written to a log, and the logs must
//! be the same.

use std::collections::BTreeMap;

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, random_content};
use crate::iters::{MapSrc, SetSrc, View};
use crate::rng::Rng;
use crate::shape::{Api, OrdMapApi};
use crate::val::Val;

#[derive(Default)]
pub struct Log {
    pub lines: Vec<String>,
}

impl Log {
    pub fn put(&mut self, s: String) {
        self.lines.push(s);
    }
}

fn idx<K: Api>(k: K) -> usize {
    k.index().unwrap_or(99_999)
}

/// The order of hashed parts is nobody's promise.
fn order<K: Api, T: Ord>(mut v: Vec<T>) -> Vec<T> {
    if !K::FIXED {
        v.sort();
    }
    v
}

fn walk<'a, K: Api>(log: &mut Log, rng: &mut Rng, mut it: Box<dyn crate::iters::It<'a, K> + 'a>, name: &str, cap: usize) {
    if !K::FIXED {
        let v: Vec<(usize, u64)> = it.collect().into_iter().map(|i| (i.k.map_or(0, idx), i.v.unwrap_or(0))).collect();
        log.put(format!("{name}: {:?}", order::<K, _>(v)));
        return;
    }
    let mut s = format!("{name}:");
    let both = rng.chance(2, 3);
    let mut nones = 0;
    for _ in 0..2 * cap + 6 {
        let r = rng.below(12);
        let x = if both && r >= 6 { it.next_back() } else if r == 5 { it.nth(rng.below(3)) } else { it.next() };
        match x {
            Some(i) => s.push_str(&format!(" {}{}", if both && r >= 6 { "b" } else { "f" }, i.k.map_or(0, idx))),
            None => {
                nones += 1;
                s.push_str(" -");
            }
        }
        if nones > 2 {
            break;
        }
        if r == 4 {
            if let Some(d) = it.dup() {
                if rng.bool() {
                    s.push_str(" dup");
                    it = d;
                } else {
                    let mut n = 0;
                    d.for_each(&mut |_| n += 1);
                    s.push_str(&format!(" dup left {n}"));
                }
            }
        }
    }
    log.put(s);
}

fn fmt_all<K: Api, T: std::fmt::Debug>(log: &mut Log, t: &T) {
    if !K::FIXED {
        let mut b: Vec<char> = format!("{t:?} {t:#?}").chars().collect();
        b.sort();
        log.put(b.into_iter().collect());
        return;
    }
    log.put(format!("{t:?}"));
    log.put(format!("{t:#?}"));
    log.put(format!("{t:12?}"));
}

/// A history of sets.
pub fn sets<K: Api>(rng: &mut Rng, ops: &mut BTreeMap<&'static str, u64>) -> Log {
    let keys = K::universe();
    let n = keys.len();
    let mut log = Log::default();
    let c = random_content(n, rng);
    let mut pool: Vec<Set<K>> = vec![build_set(&keys, &c, rng), Set::new(), Set::default()];
    for _ in 0..40 {
        let a = rng.below(pool.len());
        let b = rng.below(pool.len());
        let i = rng.below(n.max(1));
        let name;
        match rng.below(16) {
            0 | 1 | 2 if n > 0 => {
                name = "insert";
                let r = pool[a].insert(keys[i]);
                log.put(format!("insert {a} {i}: {r}"));
            }
            3 | 4 if n > 0 => {
                name = "remove";
                let r = pool[a].remove(keys[i]);
                log.put(format!("remove {a} {i}: {r}"));
            }
            5 if rng.chance(1, 4) => {
                name = "clear";
                pool[a].clear();
            }
            6 => {
                name = "retain";
                let bit = rng.u64() | if rng.bool() { rng.u64() } else { 0 };
                let mut s = Vec::new();
                pool[a].retain(|k| {
                    let j = idx(k);
                    s.push(j);
                    bit >> (j % 64) & 1 == 1
                });
                log.put(format!("retain {a}: {:?}", order::<K, _>(s)));
            }
            7 => {
                name = "iter";
                let view = if rng.bool() { View::SetIter } else { View::SetRef };
                walk(&mut log, rng, K::set_view(SetSrc::Ref(&pool[a]), view), "iter", n);
            }
            8 => {
                name = "into_iter";
                let s = K::clone_set(&pool[a]);
                walk(&mut log, rng, K::set_view(SetSrc::Own(s), View::SetInto), "into_iter", n);
            }
            9 => {
                name = "eq";
                log.put(format!("eq {a} {b}: {} {}", K::set_eq(&pool[a], &pool[b]), K::set_ne(&pool[a], &pool[b])));
            }
            10 => {
                name = "intersection";
                let x: Vec<usize> = pool[a].intersection(&pool[b]).map(idx).collect();
                let mut y = Vec::new();
                let mut it = pool[a].intersection(&pool[b]);
                while let Some(k) = it.next() {
                    y.push(idx(k));
                }
                log.put(format!("intersection {a} {b}: {:?} {:?}", order::<K, _>(x), order::<K, _>(y)));
                if K::FIXED {
                    log.put(format!("{:?}", pool[a].intersection(&pool[b])));
                }
            }
            11 => {
                name = "clone";
                let s = K::clone_set(&pool[a]);
                if pool.len() < 6 {
                    pool.push(s);
                } else {
                    pool[b] = s;
                }
            }
            12 => {
                name = "clone_from";
                let mut t = std::mem::take(&mut pool[b]);
                K::clone_set_from(&mut t, &pool[a]);
                pool[b] = t;
            }
            13 => {
                name = "collect";
                let m = rng.below(2 * n + 2);
                let ks: Vec<K> = (0..m).filter_map(|_| (n > 0).then(|| keys[rng.below(n)])).collect();
                pool[a] = match rng.below(3) {
                    0 => ks.into_iter().collect(),
                    1 if n > 0 => Set::from([keys[i], keys[(i + 1) % n], keys[i]]),
                    _ => ks.iter().copied().filter(|_| true).collect(),
                };
            }
            14 => {
                name = "debug";
                fmt_all::<K, _>(&mut log, &pool[a]);
            }
            _ => {
                name = "query";
                let s = &pool[a];
                let has: Vec<usize> = (0..n).filter(|i| s.contains(keys[*i])).collect();
                log.put(format!("query {a}: {has:?} len {} empty {}", s.len(), s.is_empty()));
            }
        }
        *ops.entry(name).or_insert(0) += 1;
        let s = &pool[a];
        let all: Vec<usize> = s.iter().map(idx).collect();
        log.put(format!("now {a} {} {} {:?}", s.len(), s.is_empty(), order::<K, _>(all)));
    }
    log
}

pub fn ordered<K: OrdMapApi>(rng: &mut Rng) -> Log {
    let keys = K::universe();
    let n = keys.len();
    let mut log = Log::default();
    let sets: Vec<Set<K>> = (0..6)
        .map(|_| {
            let c = random_content(n, rng);
            build_set(&keys, &c, rng)
        })
        .collect();
    let list = |s: &Set<K>| -> Vec<usize> { s.iter().map(idx).collect() };
    for a in &sets {
        for b in &sets {
            log.put(format!("{:?} {:?} {:?}", K::set_cmp(a, b), K::set_partial_cmp(a, b), K::set_ops(a, b)));
            log.put(format!("{:?}", list(&K::set_max(K::clone_set(a), K::clone_set(b)))));
            log.put(format!("{:?}", list(&K::set_min(K::clone_set(a), K::clone_set(b)))));
            if K::set_cmp(a, b) != std::cmp::Ordering::Greater {
                let c = &sets[rng.below(sets.len())];
                log.put(format!("{:?}", list(&K::set_clamp(K::clone_set(c), K::clone_set(a), K::clone_set(b)))));
            }
        }
    }
    let mut order: Vec<usize> = (0..sets.len()).collect();
    order.sort_by(|i, j| K::set_cmp(&sets[*i], &sets[*j]));
    log.put(format!("sorted {order:?}"));
    let maps: Vec<Map<K, u8>> = (0..4)
        .map(|_| {
            let c = random_content(n, rng);
            build_map(&keys, &c, rng)
        })
        .collect();
    for a in &maps {
        for b in &maps {
            log.put(format!("{:?} {:?} {:?}", K::map_cmp(a, b), K::map_partial_cmp(a, b), K::map_ops(a, b)));
        }
        let mut h = super::c15::Calls::default();
        K::map_hash(a, &mut h);
        log.put(format!("{h:?}"));
    }
    log
}

/// Maps do not care.
pub fn maps<K: Api, V: Val>(rng: &mut Rng) -> Log {
    let keys = K::universe();
    let n = keys.len();
    let mut log = Log::default();
    let c = random_content(n, rng);
    let mut m: Map<K, V> = build_map(&keys, &c, rng);
    log.put(format!("size {} align {}", std::mem::size_of::<Map<K, V>>(), std::mem::align_of::<Map<K, V>>()));
    for _ in 0..20 {
        let i = rng.below(n.max(1));
        let x = rng.below(1000) as u64;
        match rng.below(8) {
            0 | 1 if n > 0 => {
                let r = m.insert(keys[i], V::make(x)).map(|v| v.sig());
                log.put(format!("insert {i}: {r:?}"));
            }
            2 if n > 0 => {
                let r = m.remove(keys[i]).map(|v| v.sig());
                log.put(format!("remove {i}: {r:?}"));
            }
            3 if n > 0 => {
                let r = m.entry(keys[i]).or_insert_with(|| V::make(x)).sig();
                log.put(format!("entry {i}: {r}"));
            }
            4 => {
                let mut s = Vec::new();
                m.retain(|k, v| {
                    s.push((idx(k), v.sig()));
                    (idx(k) as u64 + x) % 3 > 0
                });
                log.put(format!("retain {:?}", order::<K, _>(s)));
            }
            5 => walk(&mut log, rng, K::view(MapSrc::Ref(&m), View::Iter), "map iter", n),
            6 => walk(&mut log, rng, K::view(MapSrc::Ref(&m), View::Keys), "map keys", n),
            _ => fmt_all::<K, _>(&mut log, &m),
        }
        let all: Vec<(usize, u64)> = m.iter().map(|(k, v)| (idx(k), v.sig())).collect();
        log.put(format!("now {} {} {:?}", m.len(), m.is_empty(), order::<K, _>(all)));
    }
    let d = K::clone_map(&m);
    log.put(format!("clone equal {}", K::map_eq(&m, &d)));
    log
}

fn compare(ctx: &mut Ctx, a: Log, b: Log, what: &str) -> R {
    for (i, (x, y)) in a.lines.iter().zip(&b.lines).enumerate() {
        ensure!(
            x == y,
            "{what}, step {i}: ordinary storage says {x:?}, bitset storage {y:?}; before that {:?}",
            &a.lines[i.saturating_sub(3)..i]
        );
    }
    ensure!(a.lines.len() == b.lines.len(), "{what}: {} and {} observations", a.lines.len(), b.lines.len());
    ctx.count("observations compared", a.lines.len() as u64);
    let text = a.lines.join(";");
    ctx.eval(fp(&[crate::rng::hash_str(&text)]));
    ctx.sample(|| format!("{what}: {}", text.chars().take(300).collect::<String>()));
    Ok(())
}

pub fn rounds<K: Api>(ctx: &Ctx) -> usize {
    ctx.factor * if K::COUNT <= 20 { 60 } else if K::COUNT <= 70 { 30 } else { 12 }
}

pub fn run<A: Api, B: Api, V: Val, W: Val>(ctx: &mut Ctx) {
    let mut ops = BTreeMap::new();
    for _ in 0..rounds::<A>(ctx) {
        let seed = ctx.rng.u64();
        ctx.case("sets", |ctx| {
            let a = sets::<A>(&mut Rng::new(seed), &mut ops);
            let b = sets::<B>(&mut Rng::new(seed), &mut ops);
            compare(ctx, a, b, "sets")
        });
        ctx.case("maps", |ctx| {
            let a = maps::<A, V>(&mut Rng::new(seed));
            let b = maps::<B, V>(&mut Rng::new(seed));
            compare(ctx, a, b, V::NAME)?;
            let a = maps::<A, W>(&mut Rng::new(seed));
            let b = maps::<B, W>(&mut Rng::new(seed));
            compare(ctx, a, b, W::NAME)
        });
    }
    for (k, v) in ops {
        ctx.count(k, v);
    }
}

pub fn run_ord<A: OrdMapApi, B: OrdMapApi, V: Val, W: Val>(ctx: &mut Ctx) {
    run::<A, B, V, W>(ctx);
    for _ in 0..rounds::<A>(ctx) {
        let seed = ctx.rng.u64();
        ctx.case("ordered", |ctx| {
            let a = ordered::<A>(&mut Rng::new(seed));
            let b = ordered::<B>(&mut Rng::new(seed));
            compare(ctx, a, b, "ordering")
        });
    }
}
