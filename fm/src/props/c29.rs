//! C29: containers shared between threads, and used by several at once.

use std::hash::Hasher;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{mpsc, Barrier, RwLock};
use std::thread;

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, random_content, small, Content};
use crate::iters::{MapSrc, SetSrc, View};
use crate::rng::{mix, Rng};
use crate::shape::{Api, OrdMapApi, OrdSetApi};
use crate::val::Val;

/// Values of this kind may go anywhere.
pub trait Free: Val + Send + Sync {}
impl<V: Val + Send + Sync> Free for V {}

/// Lets others in, now and then, for a while.
fn pause(rng: &mut Rng) {
    match rng.below(if cfg!(miri) { 4 } else { 24 }) {
        0 => thread::yield_now(),
        1 if !cfg!(miri) => thread::sleep(std::time::Duration::from_micros(rng.below(40) as u64)),
        2 => {
            for _ in 0..rng.below(if cfg!(miri) { 4 } else { 200 }) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

struct Overlap {
    inside: AtomicUsize,
    most: AtomicUsize,
}

impl Overlap {
    const fn new() -> Self {
        Overlap { inside: AtomicUsize::new(0), most: AtomicUsize::new(0) }
    }
    fn during<T>(&self, f: impl FnOnce() -> T) -> T {
        let n = self.inside.fetch_add(1, Relaxed) + 1;
        self.most.fetch_max(n, Relaxed);
        let r = f();
        self.inside.fetch_sub(1, Relaxed);
        r
    }
}

const READS: usize = 17;

/// One way of reading; the result is the same every time.
fn read<K: Api, V: Free>(m: &Map<K, V>, s: &Set<K>, other: &Set<K>, keys: &[K], way: usize, rng: &mut Rng) -> u64 {
    let index = |k: K| k.index().map_or(u64::MAX, |i| i as u64);
    let mut h = 1u64;
    // For clones, whose order of iteration is their own.
    let mut sum = 0u64;
    let mut add = |a: u64, b: u64| {
        h = mix(h ^ mix(a) ^ b);
        sum = sum.wrapping_add(mix(a ^ mix(b)));
        pause(rng);
    };
    match way {
        0 => {
            for k in keys {
                let v = m.get(*k);
                if let Some(v) = v {
                    v.poke();
                }
                add(1, v.map_or(u64::MAX, Val::sig));
            }
        }
        1 => {
            for k in keys {
                add(u64::from(m.contains_key(*k)), u64::from(s.contains(*k)));
            }
        }
        2 => {
            for (k, v) in m.iter() {
                v.poke();
                add(index(k), v.sig());
            }
        }
        3 => {
            for k in m.keys() {
                add(index(k), 3);
            }
        }
        4 => {
            for v in m.values() {
                add(v.sig(), 4);
            }
        }
        5 => {
            for k in s.iter() {
                add(index(k), 5);
            }
        }
        6 => add(m.len() as u64, s.len() as u64 | u64::from(m.is_empty()) << 32 | u64::from(s.is_empty()) << 33),
        7 => {
            let t = format!("{m:?}{s:?}");
            add(crate::rng::hash_str(&t), t.len() as u64);
        }
        8 => {
            let c = K::clone_map(m);
            for (k, v) in c.iter() {
                add(index(k), v.sig());
            }
            return sum;
        }
        9 => {
            let c = K::clone_map(m);
            for i in K::view::<V>(MapSrc::Own(c), View::Into).collect() {
                add(i.k.map_or(0, index), i.v.unwrap_or(7));
            }
            return sum;
        }
        10 => {
            let c = K::clone_set(s);
            for i in K::set_view(SetSrc::Own(c), View::SetInto).collect() {
                add(i.k.map_or(0, index), 8);
            }
            return sum;
        }
        11 => add(u64::from(K::set_eq(s, other)), u64::from(K::set_ne(other, s))),
        12 => add(u64::from(K::map_eq(m, m)), u64::from(K::map_ne(m, &K::clone_map(m)))),
        13 => {
            for k in s.intersection(other) {
                add(index(k), 13);
            }
            for k in other.intersection(s) {
                add(index(k), 14);
            }
            return sum;
        }
        14 => {
            // A clone, changed, is no one else's business.
            let mut c = K::clone_map(m);
            for (n, k) in keys.iter().enumerate() {
                if n % 2 == 0 {
                    c.insert(*k, V::make(n as u64));
                } else {
                    c.remove(*k);
                }
                add(c.get(*k).map_or(1, Val::sig), 15);
            }
        }
        15 => {
            let mut c = K::clone_set(s);
            c.retain(|k| index(k) % 2 == 0);
            for k in keys {
                add(u64::from(c.contains(*k)), u64::from(c.insert(*k)));
            }
        }
        _ => {
            let mut i = m.iter();
            add(i.next().map_or(0, |(_, v)| v.sig()), i.count() as u64);
        }
    }
    h
}

fn threads() -> usize {
    if cfg!(miri) {
        3
    } else {
        6
    }
}

fn some_keys<K: Api>(ctx: &mut Ctx) -> Vec<K> {
    let all = K::universe();
    let max = if cfg!(miri) { 6 } else { 70 };
    if all.len() <= max {
        return all;
    }
    let mut v: Vec<K> = (0..max - 2).map(|_| all[ctx.rng.below(all.len())]).collect();
    v.push(all[0]);
    v.push(all[all.len() - 1]);
    v.sort_by_key(|k| k.index());
    v.dedup_by_key(|k| k.index());
    v
}

fn full(keys: &[impl crate::shape::Shape], n: usize) -> Vec<usize> {
    // Places of the chosen keys in the universe.
    let _ = n;
    keys.iter().map(|k| k.index().unwrap_or(0)).collect()
}

/// Builds over the whole universe, of which only the given keys are used.
fn build<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> Map<K, V> {
    if keys.len() == K::COUNT {
        return build_map(keys, c, &mut ctx.rng);
    }
    let mut m = Map::new();
    for (k, x) in keys.iter().zip(c) {
        if let Some(x) = x {
            m.insert(*k, V::make(*x));
        }
    }
    m
}

/// Many readers of the same containers.
fn readers<K: Api, V: Free>(ctx: &mut Ctx) -> R
where
    Map<K, V>: Send + Sync,
    Set<K>: Send + Sync,
{
    static OVERLAP: Overlap = Overlap::new();
    let keys = some_keys::<K>(ctx);
    let c = random_content(keys.len(), &mut ctx.rng);
    let d = random_content(keys.len(), &mut ctx.rng);
    let e = random_content(keys.len(), &mut ctx.rng);
    let m: Map<K, V> = build(ctx, &keys, &c);
    let (s, o) = (build_set(&keys, &d, &mut ctx.rng), build_set(&keys, &e, &mut ctx.rng));
    let mut quiet = Rng::new(1);
    let alone: Vec<u64> = (0..READS).map(|w| read(&m, &s, &o, &keys, w, &mut quiet)).collect();
    let n = threads();
    let barrier = Barrier::new(n);
    let rounds = if cfg!(miri) { 3 } else { 24 };
    let reads = AtomicU64::new(0);
    let bad = thread::scope(|scope| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let mut rng = Rng::new(ctx.rng.u64() ^ t as u64);
                let (m, s, o, keys, alone, barrier, reads) = (&m, &s, &o, &keys, &alone, &barrier, &reads);
                scope.spawn(move || -> R {
                    barrier.wait();
                    for _ in 0..rounds {
                        let w = rng.below(READS);
                        let got = OVERLAP.during(|| read(m, s, o, keys, w, &mut rng));
                        reads.fetch_add(1, Relaxed);
                        crate::ctx::beat();
                        ensure!(got == alone[w], "way {w} of reading gave another result while other threads were reading too");
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reading thread panicked".into()))).find(|r| r.is_err())
    });
    if let Some(r) = bad {
        return r;
    }
    for (w, a) in alone.iter().enumerate() {
        ensure!(read(&m, &s, &o, &keys, w, &mut quiet) == *a, "way {w} of reading gives another result after other threads were reading");
    }
    ctx.count("concurrent reads", reads.load(Relaxed));
    ctx.eval(fp(&[1, content_fp(&c), content_fp(&d), content_fp(&e)]));
    let most = OVERLAP.most.load(Relaxed) as u64;
    ctx.count("reader rounds in which reads overlapped", u64::from(most > 1));
    Ok(())
}

/// A container and what it should hold.
struct Pair<K: Api, V: Val> {
    map: Map<K, V>,
    set: Set<K>,
    model: Content,
    smodel: Vec<bool>,
}

impl<K: Api, V: Val> Pair<K, V> {
    fn new(ctx: &mut Ctx, keys: &[K]) -> Self {
        let c = random_content(keys.len(), &mut ctx.rng);
        let d = random_content(keys.len(), &mut ctx.rng);
        Pair {
            map: build(ctx, keys, &c),
            set: build_set(keys, &d, &mut ctx.rng),
            model: c.iter().map(|x| x.map(V::norm)).collect(),
            smodel: d.iter().map(Option::is_some).collect(),
        }
    }

    fn twin(&self) -> Self {
        Pair { map: K::clone_map(&self.map), set: K::clone_set(&self.set), model: self.model.clone(), smodel: self.smodel.clone() }
    }

    fn verify(&self, keys: &[K], what: &str) -> R {
        for (i, k) in keys.iter().enumerate() {
            let got = self.map.get(*k).map(Val::sig);
            ensure!(got == self.model[i], "{what}: {k:?} holds {got:?}, expected {:?}", self.model[i]);
            ensure!(self.set.contains(*k) == self.smodel[i], "{what}: contains({k:?}) is {}", !self.smodel[i]);
        }
        ensure!(self.map.len() == self.model.iter().flatten().count(), "{what}: len is {}", self.map.len());
        ensure!(self.set.iter().count() == self.smodel.iter().filter(|x| **x).count(), "{what}: the set has {} elements", self.set.iter().count());
        ensure!(self.map.iter().count() == self.map.len(), "{what}: iteration and len differ");
        Ok(())
    }

    fn step(&mut self, keys: &[K], rng: &mut Rng) -> R {
        let n = keys.len();
        if n == 0 {
            self.map.clear();
            return Ok(());
        }
        let i = rng.below(n);
        let k = keys[i];
        let x = small(rng);
        let before = self.model[i];
        match rng.below(13) {
            0 | 1 => {
                let old = self.map.insert(k, V::make(x)).map(|v| v.sig());
                pause(rng);
                ensure!(old == before, "insert of {k:?} returned {old:?}, stored was {before:?}");
                self.model[i] = Some(V::norm(x));
            }
            2 => {
                let old = self.map.remove(k).map(|v| v.sig());
                ensure!(old == before, "remove of {k:?} returned {old:?}, stored was {before:?}");
                self.model[i] = None;
            }
            3 => {
                if let Some(v) = self.map.get_mut(k) {
                    pause(rng);
                    *v = V::make(x);
                    self.model[i] = Some(V::norm(x));
                }
                ensure!(before.is_some() == self.model[i].is_some() && self.map.contains_key(k) == before.is_some(), "get_mut of {k:?} disagrees");
            }
            4 => {
                let r = self.map.entry(k).or_insert_with(|| V::make(x));
                pause(rng);
                let s = r.sig();
                ensure!(s == before.unwrap_or(V::norm(x)), "or_insert_with reads {s}");
                self.model[i] = Some(s);
            }
            5 => match self.map.entry(k) {
                Entry::Occupied(mut e) => {
                    pause(rng);
                    ensure!(Some(e.get().sig()) == before, "the entry of {k:?} reads {}", e.get().sig());
                    if x % 2 == 0 {
                        e.insert(V::make(x));
                        self.model[i] = Some(V::norm(x));
                    } else {
                        e.remove();
                        self.model[i] = None;
                    }
                }
                Entry::Vacant(e) => {
                    ensure!(before.is_none(), "the entry of present {k:?} is vacant");
                    pause(rng);
                    e.insert(V::make(x));
                    self.model[i] = Some(V::norm(x));
                }
            },
            6 => {
                let m = rng.below(3);
                self.map.retain(|q, _| q.index().unwrap_or(0) % 3 != m);
                pause(rng);
                for (q, v) in keys.iter().zip(&mut self.model) {
                    if q.index().unwrap_or(0) % 3 == m {
                        *v = None;
                    }
                }
            }
            7 => {
                for v in self.map.values_mut() {
                    *v = V::make(x);
                    pause(rng);
                }
                for v in self.model.iter_mut().flatten() {
                    *v = V::norm(x);
                }
            }
            8 => {
                let mut n = 0;
                for (k, v) in self.map.iter() {
                    pause(rng);
                    let i = keys.iter().position(|q| *q == k);
                    ensure!(i.is_some_and(|i| self.model[i] == Some(v.sig())), "iteration gives {k:?} with {}", v.sig());
                    n += 1;
                }
                ensure!(n == self.map.len(), "iteration gives {n} entries of {}", self.map.len());
            }
            9 => {
                let was = self.smodel[i];
                ensure!(self.set.insert(k) != was, "set insert of {k:?} returned {was}");
                self.smodel[i] = true;
            }
            10 => {
                let was = self.smodel[i];
                ensure!(self.set.remove(k) == was, "set remove of {k:?} returned {}", !was);
                self.smodel[i] = false;
            }
            11 => {
                let n = self.twin();
                pause(rng);
                n.verify(keys, "a clone")?;
                *self = n;
            }
            _ => {
                if rng.chance(1, 4) {
                    self.map.clear();
                    self.model.fill(None);
                } else {
                    let m = rng.below(3);
                    self.set.retain(|q| q.index().unwrap_or(0) % 3 != m);
                    for (q, v) in keys.iter().zip(&mut self.smodel) {
                        *v &= q.index().unwrap_or(0) % 3 != m;
                    }
                }
            }
        }
        Ok(())
    }
}

/// Every thread has containers of its own: clones of the same, made before or
/// inside; they come back when done.
fn writers<K: Api, V: Free>(ctx: &mut Ctx) -> R
where
    Map<K, V>: Send + Sync,
    Set<K>: Send + Sync,
{
    let keys = some_keys::<K>(ctx);
    let base: Pair<K, V> = Pair::new(ctx, &keys);
    let steps = if cfg!(miri) { 14 } else { 120 };
    let n = threads();
    let barrier = Barrier::new(n);
    let mut own: Vec<Option<Pair<K, V>>> = Vec::new();
    for t in 0..n {
        own.push(match t % 3 {
            0 => Some(base.twin()),
            1 => Some(Pair::new(ctx, &keys)),
            _ => None,
        });
    }
    let (tx, rx) = mpsc::channel();
    let r = thread::scope(|scope| {
        let mut hs = Vec::new();
        for (t, own) in own.into_iter().enumerate() {
            let mut rng = Rng::new(ctx.rng.u64() ^ t as u64);
            let (keys, base, barrier, tx) = (&keys, &base, &barrier, tx.clone());
            hs.push(scope.spawn(move || -> R {
                barrier.wait();
                let mut p = own.unwrap_or_else(|| base.twin());
                for i in 0..steps {
                    p.step(keys, &mut rng)?;
                    crate::ctx::beat();
                    if i % 5 == 4 {
                        p.verify(keys, &format!("thread {t} after step {i}"))?;
                    }
                    if i % 7 == 3 {
                        base.verify(keys, "the shared original")?;
                    }
                }
                tx.send((t, p)).map_err(|_| "channel".to_string())
            }));
        }
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a writing thread panicked".into()))).find(|r| r.is_err())
    });
    if let Some(r) = r {
        return r;
    }
    drop(tx);
    let mut back = 0;
    for (t, mut p) in rx {
        p.verify(&keys, &format!("returned by thread {t}"))?;
        let mut rng = Rng::new(ctx.rng.u64());
        for _ in 0..4 {
            p.step(&keys, &mut rng)?;
        }
        p.verify(&keys, &format!("returned by thread {t} and used"))?;
        back += 1;
    }
    base.verify(&keys, "the original in the end")?;
    ensure!(back == n, "{back} of {n} containers came back");
    ctx.count("concurrent writes", (n * steps) as u64);
    ctx.eval(fp(&[2, content_fp(&base.model), full(&keys, 0).len() as u64]));
    Ok(())
}

/// A container handed from thread to thread, each changing it, dropped in the
/// last; meanwhile another does the same with another one.
fn relay<K: Api, V: Free>(ctx: &mut Ctx) -> R
where
    Map<K, V>: Send,
    Set<K>: Send,
{
    let keys = some_keys::<K>(ctx);
    let stages = threads();
    let rounds = if cfg!(miri) { 2 } else { 12 };
    let mut packets: Vec<Pair<K, V>> = (0..rounds).map(|_| Pair::new(ctx, &keys)).collect();
    let first: Vec<Pair<K, V>> = std::mem::take(&mut packets);
    let r = thread::scope(|scope| {
        let (mut tx, mut rx) = mpsc::channel::<Box<Pair<K, V>>>();
        let start = tx.clone();
        let mut hs = Vec::new();
        for t in 0..stages {
            let (ntx, nrx) = mpsc::channel();
            let mine = std::mem::replace(&mut rx, nrx);
            let _ = std::mem::replace(&mut tx, ntx.clone());
            let keys = &keys;
            let mut rng = Rng::new(ctx.rng.u64() ^ t as u64);
            hs.push(scope.spawn(move || -> R {
                for mut p in mine {
                    p.verify(keys, &format!("arrived at stage {t}"))?;
                    for _ in 0..6 {
                        p.step(keys, &mut rng)?;
                    }
                    crate::ctx::beat();
                    pause(&mut rng);
                    if t + 1 < stages {
                        ntx.send(p).map_err(|_| "channel".to_string())?;
                    } else {
                        p.verify(keys, "arrived at the end")?;
                    }
                }
                Ok(())
            }));
        }
        drop((tx, rx));
        for p in first {
            let _ = start.send(Box::new(p));
        }
        drop(start);
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a relaying thread panicked".into()))).find(|r| r.is_err())
    });
    ctx.count("hand-overs", (rounds * stages) as u64);
    let x = ctx.rng.u64();
    ctx.eval(fp(&[3, keys.len() as u64, x]));
    r.unwrap_or(Ok(()))
}

/// The mutable references of one iteration, dealt out to threads.
fn dealt<K: Api, V: Free>(ctx: &mut Ctx) -> R
where
    Map<K, V>: Send,
{
    let keys = some_keys::<K>(ctx);
    let c = random_content(keys.len(), &mut ctx.rng);
    let mut m: Map<K, V> = build(ctx, &keys, &c);
    let n = threads();
    let x = ctx.rng.u64() >> 8;
    let mut hands: Vec<Vec<(K, &mut V)>> = (0..n).map(|_| Vec::new()).collect();
    for (j, kv) in m.iter_mut().enumerate() {
        hands[j % n].push(kv);
    }
    let bad = thread::scope(|scope| {
        let hs: Vec<_> = hands
            .into_iter()
            .map(|hand| {
                let mut rng = Rng::new(ctx.rng.u64());
                scope.spawn(move || -> R {
                    for (k, v) in hand {
                        let i = k.index().unwrap_or(0) as u64;
                        *v = V::make(x.wrapping_add(i));
                        pause(&mut rng);
                        v.poke();
                        ensure!(v.sig() == V::norm(x.wrapping_add(i)), "a value changed under its only reference");
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).find(|r| r.is_err())
    });
    if let Some(r) = bad {
        return r;
    }
    for (k, c) in keys.iter().zip(&c) {
        let want = c.map(|_| V::norm(x.wrapping_add(k.index().unwrap_or(0) as u64)));
        let got = m.get(*k).map(Val::sig);
        ensure!(got == want, "{k:?} holds {got:?}, its thread wrote {want:?}");
    }
    ctx.eval(fp(&[4, content_fp(&c)]));
    Ok(())
}

/// Readers and writers taking turns behind a lock.
fn locked<K: Api, V: Free>(ctx: &mut Ctx) -> R
where
    Map<K, V>: Send + Sync,
    Set<K>: Send + Sync,
{
    let keys = some_keys::<K>(ctx);
    let lock: RwLock<Pair<K, V>> = RwLock::new(Pair::new(ctx, &keys));
    let steps = if cfg!(miri) { 4 } else { 40 };
    let n = threads();
    let bad = thread::scope(|scope| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (lock, keys) = (&lock, &keys);
                let mut rng = Rng::new(ctx.rng.u64());
                scope.spawn(move || -> R {
                    for _ in 0..steps {
                        if t % 3 == 0 {
                            lock.write().map_err(|_| "poisoned")?.step(keys, &mut rng)?;
                        } else {
                            lock.read().map_err(|_| "poisoned")?.verify(keys, "read under the lock")?;
                        }
                        crate::ctx::beat();
                        pause(&mut rng);
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).find(|r| r.is_err())
    });
    ctx.count("turns under a lock", (n * steps) as u64);
    let x = ctx.rng.u64();
    ctx.eval(fp(&[5, keys.len() as u64, x]));
    bad.unwrap_or(Ok(()))
}

const TIGHT: usize = 21;

/// A short operation (whose result is the same in any order of iteration, as
/// that of hashed keys may change) that leaves its containers as they were; the result is
/// the same every time.
#[inline(never)]
fn tight<K: Api, V: Free>(m: &mut Map<K, V>, s: &mut Set<K>, o: &Set<K>, k: K, x: V, way: usize) -> u64 {
    let opt = |v: Option<&V>| v.map_or(u64::MAX, Val::sig);
    match way {
        0 => s.len() as u64,
        1 => m.len() as u64,
        2 => u64::from(s.is_empty()) << 1 | u64::from(m.is_empty()),
        3 => u64::from(s.contains(k)) << 1 | u64::from(m.contains_key(k)),
        4 => opt(m.get(k)),
        5 => opt(m.get_mut(k).as_deref()),
        6 => s.iter().count() as u64,
        7 => m.iter().fold(0u64, |n, (k, v)| n.wrapping_add(mix(v.sig() ^ k.index().unwrap_or(3) as u64))),
        8 => m.values_mut().fold(0u64, |n, v| n.wrapping_add(mix(v.sig()))),
        9 => m.keys().filter_map(|k| k.index()).fold(0u64, |n, i| n.wrapping_add(mix(i as u64))),
        10 => s.iter().filter_map(|k| k.index()).fold(0u64, |n, i| n.wrapping_add(mix(i as u64))),
        11 => s.intersection(o).filter_map(|k| k.index()).sum::<usize>() as u64,
        12 => u64::from(K::set_eq(s, o)) << 1 | u64::from(K::map_eq(m, m)),
        13 => {
            let was = s.contains(k);
            let a = s.insert(k);
            let l = s.len();
            let b = was || s.remove(k);
            (l as u64) << 2 | u64::from(a) << 1 | u64::from(b)
        }
        14 => {
            let old = m.insert(k, x);
            let (l, now) = (m.len() as u64, opt(m.get(k)));
            let r = mix(now) ^ l ^ mix(opt(old.as_ref())).rotate_left(7);
            match old {
                Some(old) => drop(m.insert(k, old)),
                None => drop(m.remove(k)),
            }
            r
        }
        15 => match m.entry(k) {
            Entry::Occupied(e) => mix(e.get().sig()) ^ e.key().index().unwrap_or(3) as u64,
            Entry::Vacant(e) => e.key().index().unwrap_or(3) as u64,
        },
        16 => {
            let mut n = 0u64;
            m.retain(|k, v| {
                n = n.wrapping_add(mix(v.sig() ^ mix(k.index().unwrap_or(9) as u64)));
                true
            });
            n
        }
        17 => {
            let mut n = 0u64;
            s.retain(|k| {
                n = n.wrapping_add(mix(k.index().unwrap_or(9) as u64));
                true
            });
            n
        }
        18 => (s.iter().size_hint().0 as u64) << 32 | m.iter().len_low() << 16 | m.iter().skip(1).count() as u64,
        19 => {
            let c = K::clone_set(s);
            (c.len() as u64) << 1 | u64::from(K::set_eq(&c, s))
        }
        _ => {
            let c = K::clone_map(m);
            (c.len() as u64) << 1 | u64::from(K::map_eq(&c, m))
        }
    }
}

trait LenLow: Iterator {
    fn len_low(&self) -> u64 {
        self.size_hint().0 as u64
    }
}
impl<I: Iterator> LenLow for I {}

/// Threads which do one thing to containers of their own, all of different
/// contents, as often as they can.
fn hammer<K: Api, V: Free>(ctx: &mut Ctx) -> R
where
    Map<K, V>: Send + Sync,
    Set<K>: Send + Sync,
{
    let keys = some_keys::<K>(ctx);
    if keys.is_empty() {
        return Ok(());
    }
    let n = threads();
    let times = if cfg!(miri) { 5 } else { 700 };
    let barrier = Barrier::new(n);
    let shared: Pair<K, V> = Pair::new(ctx, &keys);
    let ways: Vec<usize> = if cfg!(miri) {
        let first = ctx.rng.below(TIGHT);
        let mut w = vec![0, 1];
        w.extend((0..7).map(|i| (first + i * 5) % TIGHT));
        w
    } else {
        (0..TIGHT).collect()
    };
    let bad = thread::scope(|scope| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                // Thread t holds about a t-th of the keys.
                let mut c: Content = vec![None; keys.len()];
                let want = t * keys.len() / (n - 1);
                let off = ctx.rng.below(keys.len());
                for i in 0..want {
                    c[(off + i) % keys.len()] = Some(small(&mut ctx.rng));
                }
                let mut m: Map<K, V> = build(ctx, &keys, &c);
                let mut s = build_set(&keys, &c, &mut ctx.rng);
                let k = *ctx.rng.pick(&keys);
                let x = ctx.rng.u64() >> 8;
                let alone: Vec<u64> = ways.iter().map(|w| tight(&mut m, &mut s, &shared.set, k, V::make(x), *w)).collect();
                let (barrier, shared, ways, keys) = (&barrier, &shared, &ways, &keys);
                scope.spawn(move || -> R {
                    let mut r = Ok(());
                    for (w, alone) in ways.iter().zip(&alone) {
                        barrier.wait();
                        crate::ctx::beat();
                        for i in 0..times {
                            let got = tight(&mut m, &mut s, &shared.set, k, V::make(x), *w);
                            if got != *alone && r.is_ok() {
                                r = Err(format!("tight operation {w} on a thread's own containers gave another result (at turn {i}) while other threads were using theirs"));
                            }
                        }
                    }
                    r?;
                    ensure!(m.len() == want && s.iter().count() == want, "tight operations changed a container: {} entries, {} elements of {want}", m.len(), s.iter().count());
                    for (k, c) in keys.iter().zip(&c) {
                        ensure!(m.get(*k).map(Val::sig) == c.map(V::norm) && s.contains(*k) == c.is_some(), "tight operations changed what {k:?} holds");
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread in a tight loop panicked".into()))).find(|r| r.is_err())
    });
    ctx.count("tight operations", (ways.len() * times * n) as u64);
    let x = ctx.rng.u64();
    ctx.eval(fp(&[8, keys.len() as u64, x]));
    bad.unwrap_or(Ok(()))
}

pub fn run<K: Api, V: Free>(ctx: &mut Ctx)
where
    Map<K, V>: Send + Sync,
    Set<K>: Send + Sync,
{
    let rounds = if cfg!(miri) { ctx.factor } else { 3 * ctx.factor };
    for _ in 0..rounds {
        let ok = ctx.case("readers", |ctx| readers::<K, V>(ctx))
            && ctx.case("writers", |ctx| writers::<K, V>(ctx))
            && ctx.case("relay", |ctx| relay::<K, V>(ctx))
            && ctx.case("dealt out", |ctx| dealt::<K, V>(ctx))
            && ctx.case("locked", |ctx| locked::<K, V>(ctx))
            && ctx.case("tight loops", |ctx| hammer::<K, V>(ctx));
        if !ok {
            return;
        }
        ctx.sample(|| format!("{} threads reading, writing, relaying {} values", threads(), V::NAME));
    }
}

/// Concurrent comparisons and hashes of sets.
pub fn ordered_sets<K: OrdSetApi>(ctx: &mut Ctx)
where
    Set<K>: Send + Sync,
{
    let rounds = if cfg!(miri) { 1 } else { 4 * ctx.factor };
    for _ in 0..rounds {
        ctx.case("ordered sets", |ctx| {
            let keys = some_keys::<K>(ctx);
            let sets: Vec<Set<K>> = (0..4).map(|_| {
                let c = random_content(keys.len(), &mut ctx.rng);
                build_set(&keys, &c, &mut ctx.rng)
            }).collect();
            let all = || {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                for a in &sets {
                    K::set_hash(a, &mut h);
                    for b in &sets {
                        h.write_i8(K::set_cmp(a, b) as i8);
                        h.write_u8(K::set_ops(a, b).iter().fold(0, |n, x| n * 2 + u8::from(*x)));
                    }
                }
                h.finish()
            };
            let want = all();
            same(want, all)?;
            ctx.eval(fp(&[6, want]));
            Ok(())
        });
    }
}

pub fn ordered<K: OrdMapApi, V: Free + Ord + std::hash::Hash>(ctx: &mut Ctx)
where
    Map<K, V>: Send + Sync,
    Set<K>: Send + Sync,
{
    ordered_sets::<K>(ctx);
    let rounds = if cfg!(miri) { 1 } else { 4 * ctx.factor };
    for _ in 0..rounds {
        ctx.case("ordered maps", |ctx| {
            let keys = some_keys::<K>(ctx);
            let maps: Vec<Map<K, V>> = (0..3).map(|_| {
                let c = random_content(keys.len(), &mut ctx.rng);
                build(ctx, &keys, &c)
            }).collect();
            let all = || {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                for a in &maps {
                    K::map_hash(a, &mut h);
                    for b in &maps {
                        h.write_i8(K::map_cmp(a, b) as i8);
                        h.write_u8(K::map_ops(a, b).iter().fold(0, |n, x| n * 2 + u8::from(*x)));
                    }
                }
                h.finish()
            };
            let want = all();
            same(want, all)?;
            ctx.eval(fp(&[7, want]));
            Ok(())
        });
    }
}

fn same(want: u64, f: impl Fn() -> u64 + Sync) -> R {
    let n = threads();
    let ok = thread::scope(|scope| {
        let hs: Vec<_> = (0..n).map(|_| scope.spawn(|| (0..3).all(|_| f() == want))).collect();
        hs.into_iter().all(|h| h.join().unwrap_or(false))
    });
    ensure!(ok, "comparisons and hashes give other results while other threads compare the same");
    Ok(())
}
