//! C08: the entry API acts on exactly the addressed slot.

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, content_fp, contents, observe, show, Content};
use crate::shape::Shape;
use crate::val::{ledger, ledger_reset, ledger_verdict, Val};

const OPS: usize = 22;

fn at<V>(v: &V) -> usize {
    v as *const V as usize
}

/// Perform one entry operation; returns what the key must hold afterwards and,
/// where a reference was handed out, its address.
fn op<K: Shape, V: Val + Default>(
    m: &mut Map<K, V>,
    k: K,
    op: usize,
    x: u64,
    before: Option<u64>,
) -> Result<(Option<u64>, Option<usize>), String> {
    let new = V::norm(x);
    let y = x.wrapping_add(1);
    let own = before.unwrap_or(new);
    let e = m.entry(k);
    ensure!(e.key() == k, "entry({k:?}).key() is {:?}", e.key());
    match (&e, before) {
        (Entry::Occupied(_), None) => return Err(format!("entry({k:?}) of an absent key is occupied")),
        (Entry::Vacant(_), Some(_)) => return Err(format!("entry({k:?}) of a present key is vacant")),
        _ => {}
    }
    let mut calls = 0;
    match op {
        0 => {
            let r = e.or_insert(V::make(x));
            ensure!(r.sig() == own, "or_insert designates {}, expected {own}", r.sig());
            let a = at(r);
            Ok((Some(own), Some(a)))
        }
        1 => {
            let r = e.or_insert(V::make(x));
            *r = V::make(y);
            let a = at(r);
            Ok((Some(V::norm(y)), Some(a)))
        }
        2 => {
            let r = e.or_insert_with(|| {
                calls += 1;
                V::make(x)
            });
            let (s, a) = (r.sig(), at(r));
            ensure!(s == own, "or_insert_with designates {s}, expected {own}");
            ensure!(calls == usize::from(before.is_none()), "or_insert_with called its closure {calls} times, present before: {}", before.is_some());
            Ok((Some(own), Some(a)))
        }
        3 => {
            let mut seen = None;
            let r = e.or_insert_with_key(|q| {
                calls += 1;
                seen = Some(q);
                V::make(x)
            });
            let (s, a) = (r.sig(), at(r));
            ensure!(s == own, "or_insert_with_key designates {s}, expected {own}");
            ensure!(calls == usize::from(before.is_none()), "or_insert_with_key called its closure {calls} times, present before: {}", before.is_some());
            if before.is_none() {
                ensure!(seen == Some(k), "or_insert_with_key was given {seen:?} for {k:?}");
            }
            Ok((Some(own), Some(a)))
        }
        4 => {
            let d = V::default().sig();
            let r = e.or_default();
            let (s, a) = (r.sig(), at(r));
            let want = before.unwrap_or(d);
            ensure!(s == want, "or_default designates {s}, expected {want}");
            Ok((Some(want), Some(a)))
        }
        5 => {
            // and_modify, which may do nothing.
            let mut seen = None;
            let e = e.and_modify(|v| {
                calls += 1;
                seen = Some(v.sig());
                *v = V::make(y);
            });
            ensure!(e.key() == k, "and_modify returned an entry of {:?}", e.key());
            let occ = matches!(e, Entry::Occupied(_));
            ensure!(occ == before.is_some(), "and_modify returned an {} entry", if occ { "occupied" } else { "vacant" });
            ensure!(calls == usize::from(before.is_some()), "and_modify called its closure {calls} times, present before: {}", before.is_some());
            ensure!(seen == before, "and_modify's closure saw {seen:?}, stored was {before:?}");
            Ok((before.map(|_| V::norm(y)), None))
        }
        6 => {
            let r = e.and_modify(|v| *v = V::make(y)).or_insert(V::make(x));
            let want = if before.is_some() { V::norm(y) } else { new };
            ensure!(r.sig() == want, "and_modify.or_insert designates {}, expected {want}", r.sig());
            let a = at(r);
            Ok((Some(want), Some(a)))
        }
        7 => {
            let r = e
                .and_modify(|v| *v = V::make(x))
                .and_modify(|v| {
                    calls += usize::from(v.sig() == new);
                    *v = V::make(y);
                })
                .or_insert_with(|| {
                    calls += 10;
                    V::make(x)
                });
            let a = at(r);
            let (want, n) = if before.is_some() { (V::norm(y), 1) } else { (new, 10) };
            ensure!(r.sig() == want, "chained and_modify designates {}, expected {want}", r.sig());
            ensure!(calls == n, "chained closures made {calls} calls, expected {n}");
            Ok((Some(want), Some(a)))
        }
        _ => match e {
            Entry::Vacant(e) => {
                ensure!(e.key() == k, "vacant entry's key is {:?}, asked for {k:?}", e.key());
                match op {
                    8 | 9 | 10 => {
                        let r = e.insert(V::make(x));
                        ensure!(r.sig() == new, "vacant insert designates {}, inserted {new}", r.sig());
                        let a = at(r);
                        Ok((Some(new), Some(a)))
                    }
                    11 | 12 => {
                        let r = e.insert(V::make(x));
                        *r = V::make(y);
                        let a = at(r);
                        Ok((Some(V::norm(y)), Some(a)))
                    }
                    13 => {
                        let key = e.key();
                        let r = e.insert(V::make(x));
                        ensure!(key == k, "key changed");
                        let a = at(r);
                        Ok((Some(new), Some(a)))
                    }
                    // Dropped: nothing happens.
                    _ => {
                        drop(e);
                        Ok((None, None))
                    }
                }
            }
            Entry::Occupied(mut e) => {
                ensure!(e.key() == k, "occupied entry's key is {:?}, asked for {k:?}", e.key());
                let b = before.unwrap();
                match op {
                    8 => {
                        ensure!(e.get().sig() == b, "get() is {}, stored is {b}", e.get().sig());
                        let a = at(e.get());
                        Ok((before, Some(a)))
                    }
                    9 => {
                        let a = at(&*e.get_mut());
                        ensure!(e.get_mut().sig() == b, "get_mut() is {}, stored is {b}", e.get_mut().sig());
                        *e.get_mut() = V::make(x);
                        ensure!(e.get().sig() == new, "get() after get_mut() is {}", e.get().sig());
                        Ok((Some(new), Some(a)))
                    }
                    10 => {
                        let r = e.into_mut();
                        ensure!(r.sig() == b, "into_mut() is {}, stored is {b}", r.sig());
                        let a = at(r);
                        Ok((before, Some(a)))
                    }
                    11 => {
                        let r = e.into_mut();
                        *r = V::make(x);
                        let a = at(r);
                        Ok((Some(new), Some(a)))
                    }
                    12 => {
                        let old = e.insert(V::make(x)).sig();
                        ensure!(old == b, "occupied insert returns {old}, stored was {b}");
                        ensure!(e.get().sig() == new, "get() after insert is {}, inserted {new}", e.get().sig());
                        Ok((Some(new), None))
                    }
                    13 => {
                        let old = e.insert(V::make(x)).sig();
                        let older = e.insert(V::make(y)).sig();
                        ensure!(old == b && older == new, "two inserts return {old}, {older}; expected {b}, {new}");
                        let last = e.remove().sig();
                        ensure!(last == V::norm(y), "remove after insert returns {last}");
                        Ok((None, None))
                    }
                    14 | 15 | 16 => {
                        let old = e.remove().sig();
                        ensure!(old == b, "occupied remove returns {old}, stored was {b}");
                        Ok((None, None))
                    }
                    17 => {
                        *e.get_mut() = V::make(x);
                        let r = e.into_mut();
                        ensure!(r.sig() == new, "into_mut() after get_mut() is {}", r.sig());
                        let a = at(r);
                        Ok((Some(new), Some(a)))
                    }
                    18 => {
                        // The references are one and the same place.
                        let a = at(e.get());
                        let b2 = at(&*e.get_mut());
                        let c = at(&*e.into_mut());
                        ensure!(a == b2 && a == c, "get, get_mut and into_mut designate different places");
                        Ok((before, Some(c)))
                    }
                    _ => {
                        drop(e);
                        Ok((before, None))
                    }
                }
            }
        },
    }
}

fn apply<K: Shape, V: Val + Default>(ctx: &mut Ctx, m: &mut Map<K, V>, keys: &[K], i: usize, o: usize, obs: &mut Content) -> R {
    let x = ctx.rng.below(1000) as u64;
    ctx.eval(fp(&[o as u64, i as u64, content_fp(obs)]));
    let (want, addr) = op(m, keys[i], o, x, obs[i])
        .map_err(|e| format!("entry operation #{o} on {:?}: {e}; contents before {}", keys[i], show(obs)))?;
    obs[i] = want;
    if let Some(a) = addr {
        let b = m.get(keys[i]).map(at);
        ensure!(b == Some(a), "entry operation #{o} on {:?} designates {a:#x}, the map stores its value at {b:x?}", keys[i]);
        ctx.count("references checked", 1);
    }
    Ok(())
}

fn same<K: Shape, V: Val>(m: &Map<K, V>, keys: &[K], obs: &Content, what: &str) -> R {
    let now = observe(m, keys);
    for j in 0..keys.len() {
        ensure!(
            now[j] == obs[j],
            "{what}: {:?} holds {:?}, expected {:?}",
            keys[j], now[j], obs[j]
        );
    }
    let n = crate::gen::present(obs);
    ensure!(m.len() == n, "{what}: len is {}, expected {n}", m.len());
    Ok(())
}

/// Every operation on every key of one content, each from the same state.
fn grid<K: Shape, V: Val + Default>(ctx: &mut Ctx, keys: &[K], c: &Content, some: usize) -> R {
    for i in 0..keys.len() {
        if keys.len() > some && !ctx.rng.chance(some, keys.len()) {
            continue;
        }
        let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
        let base = observe(&m, keys);
        for o in 0..OPS {
            let mut obs = base.clone();
            apply(ctx, &mut m, keys, i, o, &mut obs)?;
            same(&m, keys, &obs, &format!("after entry operation #{o} on {:?} of {} ({})", keys[i], show(&base), V::NAME))?;
            // Back to where it was.
            match base[i] {
                None => drop(m.remove(keys[i])),
                Some(_) => drop(m.insert(keys[i], V::make(c[i].unwrap()))),
            }
            if keys.len() > 40 {
                continue;
            }
            same(&m, keys, &base, "after restoring")?;
        }
    }
    ctx.sample(|| format!("{OPS} entry operations on keys of {} ({})", show(c), V::NAME));
    Ok(())
}

fn history<K: Shape, V: Val + Default>(ctx: &mut Ctx, keys: &[K], len: usize) -> R {
    let n = keys.len();
    let mut m = Map::<K, V>::new();
    let mut obs: Content = vec![None; n];
    let focus = 1 + ctx.rng.below(n);
    let mut log = Vec::new();
    for s in 0..len {
        let i = ctx.rng.below(focus);
        let o = ctx.rng.below(OPS);
        log.push((i, o));
        let r = apply(ctx, &mut m, keys, i, o, &mut obs).and_then(|()| {
            if n <= 20 || s % 8 == 7 {
                same(&m, keys, &obs, "in a history of entry operations")
            } else {
                Ok(())
            }
        });
        if let Err(e) = r {
            let tail: Vec<_> = log.iter().rev().take(30).rev().collect();
            return Err(format!("{e}; history of (key, operation): {tail:?}; values {}", V::NAME));
        }
    }
    Ok(())
}

pub fn run<K: Shape, A: Val + Default, B: Val + Default>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
    with_value::<K, B>(ctx);
}

fn with_value<K: Shape, V: Val + Default>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ledger_reset();
    if n == 0 {
        ctx.eval(0);
        return;
    }
    let random = if n <= 20 { 6 * f } else { 2 * f };
    for c in contents(n, random, if f > 3 { 6 } else { 4 }, &mut ctx.rng) {
        ctx.case("grid", |ctx| grid::<K, V>(ctx, &keys, &c, 24));
    }
    for _ in 0..3 * f {
        ctx.case("history", |ctx| history::<K, V>(ctx, &keys, 100));
    }
    ctx.case("ownership", |_| ledger_verdict(0));
    let _ = ledger(|l| l.made);
    let _: Option<Set<K>> = None;
}
