//! C13: mutable access reaches the one stored value, without aliasing.

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::Map;

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, content_fp, contents, observe, show, Content};
use crate::shape::Shape;
use crate::val::{ledger_reset, ledger_verdict, Val};

fn at<V>(v: &V) -> usize {
    v as *const V as usize
}

/// Pointers handed out together: aligned, disjoint, inside the same place get
/// reports.
fn disjoint<V>(refs: &[(usize, usize)], what: &str) -> R {
    let (size, align) = (core::mem::size_of::<V>(), core::mem::align_of::<V>());
    let mut sorted: Vec<(usize, usize)> = refs.to_vec();
    sorted.sort_by_key(|r| r.1);
    for r in &sorted {
        ensure!(r.1 != 0 && r.1 % align == 0, "{what}: reference {:#x} is not aligned to {align}", r.1);
    }
    if size > 0 {
        for w in sorted.windows(2) {
            ensure!(
                w[0].1 + size <= w[1].1,
                "{what}: the references for keys number {} ({:#x}) and {} ({:#x}) overlap",
                w[0].0, w[0].1, w[1].0, w[1].1
            );
        }
    }
    Ok(())
}

fn places<K: Shape, V: Val>(m: &Map<K, V>, keys: &[K]) -> Vec<Option<usize>> {
    keys.iter().map(|k| m.get(*k).map(at)).collect()
}

fn designate<K: Shape>(refs: &[(usize, usize)], places: &[Option<usize>], keys: &[K], what: &str) -> R {
    for (i, a) in refs {
        ensure!(
            places[*i] == Some(*a),
            "{what} pairs {:?} with {a:#x}, get designates {:x?}",
            keys[*i], places[*i]
        );
    }
    let n = places.iter().filter(|p| p.is_some()).count();
    ensure!(refs.len() == n, "{what} hands out {} references, {n} keys are present", refs.len());
    Ok(())
}

const PATHS: usize = 11;

/// Write through one path to the keys chosen, returning the expected contents.
fn write<K: Shape, V: Val>(ctx: &mut Ctx, m: &mut Map<K, V>, keys: &[K], obs: &Content, path: usize, pick: u64) -> Result<Content, String> {
    let mut want = obs.clone();
    let place = places(m, keys);
    let chosen = |i: usize| crate::rng::mix(pick ^ i as u64) & 1 == 1;
    let base = 10_000 + 1000 * path as u64;
    let mut refs: Vec<(usize, usize)> = Vec::new();
    let index = |k: K| k.index().ok_or_else(|| format!("{k:?} was never inserted"));
    match path {
        0 => {
            for (i, k) in keys.iter().enumerate() {
                if let Some(v) = m.get_mut(*k) {
                    refs.push((i, at(v)));
                    if chosen(i) {
                        *v = V::make(base + i as u64);
                        want[i] = Some(V::norm(base + i as u64));
                    }
                }
            }
            designate(&refs, &place, keys, "get_mut")?;
        }
        1 | 2 => {
            // All references of one iteration at once, used in random order.
            let mut all: Vec<(K, &mut V)> = if path == 1 { m.iter_mut().collect() } else { (&mut *m).into_iter().collect() };
            for (k, v) in &all {
                refs.push((index(*k)?, at(&**v)));
            }
            let what = if path == 1 { "iter_mut" } else { "&mut into_iter" };
            disjoint::<V>(&refs, what)?;
            designate(&refs, &place, keys, what)?;
            let mut order: Vec<usize> = (0..all.len()).collect();
            ctx.rng.shuffle(&mut order);
            for j in order {
                let i = refs[j].0;
                if chosen(i) {
                    *all[j].1 = V::make(base + i as u64);
                    want[i] = Some(V::norm(base + i as u64));
                }
            }
            // Still all live: nobody else's write shows through.
            for (j, (k, v)) in all.iter().enumerate() {
                let i = refs[j].0;
                ensure!(Some(v.sig()) == want[i], "{what}: while all references are live, {k:?} reads {}, expected {:?}", v.sig(), want[i]);
            }
        }
        3 => {
            let by_place: std::collections::HashMap<usize, usize> =
                place.iter().enumerate().filter_map(|(i, p)| p.map(|p| (p, i))).collect();
            let sized = core::mem::size_of::<V>() > 0;
            let order: Vec<usize> = m.keys().filter_map(|k| k.index()).collect();
            let mut all: Vec<&mut V> = m.values_mut().collect();
            ensure!(all.len() == order.len(), "values_mut yields {} references for {} keys", all.len(), order.len());
            for (j, v) in all.iter().enumerate() {
                let i = if sized {
                    match by_place.get(&at(&**v)) {
                        Some(i) => *i,
                        None => return Err(format!("values_mut designates {:#x} where no key's value is stored", at(&**v))),
                    }
                } else {
                    order[j]
                };
                // The views of one map run in parallel.
                ensure!(i == order[j], "values_mut hands out the value of {:?} at position {j}, where keys has {:?}", keys[i], keys[order[j]]);
                refs.push((i, at(&**v)));
            }
            disjoint::<V>(&refs, "values_mut")?;
            let mut seq: Vec<usize> = (0..all.len()).collect();
            ctx.rng.shuffle(&mut seq);
            for j in seq {
                let i = refs[j].0;
                if chosen(i) {
                    *all[j] = V::make(base + i as u64);
                    want[i] = Some(V::norm(base + i as u64));
                }
            }
        }
        4 => {
            for (i, k) in keys.iter().enumerate() {
                if let Entry::Occupied(mut e) = m.entry(*k) {
                    refs.push((i, at(&*e.get_mut())));
                    if chosen(i) {
                        *e.get_mut() = V::make(base + i as u64);
                        want[i] = Some(V::norm(base + i as u64));
                    }
                }
            }
            designate(&refs, &place, keys, "occupied get_mut")?;
        }
        5 => {
            for (i, k) in keys.iter().enumerate() {
                if let Entry::Occupied(e) = m.entry(*k) {
                    let r = e.into_mut();
                    refs.push((i, at(&*r)));
                    if chosen(i) {
                        *r = V::make(base + i as u64);
                        want[i] = Some(V::norm(base + i as u64));
                    }
                }
            }
            designate(&refs, &place, keys, "occupied into_mut")?;
        }
        6 => {
            let mut bad = Ok(());
            m.retain(|k, v| {
                match k.index() {
                    Some(i) => {
                        refs.push((i, at(&*v)));
                        if chosen(i) {
                            *v = V::make(base + i as u64);
                            want[i] = Some(V::norm(base + i as u64));
                        }
                    }
                    None => bad = Err(format!("retain shows {k:?} which nobody inserted")),
                }
                true
            });
            bad?;
            designate(&refs, &place, keys, "retain")?;
        }
        7 => {
            for (i, k) in keys.iter().enumerate() {
                if !chosen(i) {
                    continue;
                }
                if obs[i].is_some() {
                    let r = m.entry(*k).and_modify(|v| *v = V::make(1)).or_insert_with(|| V::make(2));
                    *r = V::make(base + i as u64);
                    want[i] = Some(V::norm(base + i as u64));
                }
            }
        }
        8 => {
            // Fresh entries through vacant slots; the reference stays the one.
            for (i, k) in keys.iter().enumerate() {
                if chosen(i) {
                    let fresh = match m.entry(*k) {
                        Entry::Vacant(e) => {
                            let r = e.insert(V::make(3));
                            *r = V::make(base + i as u64);
                            Some(at(&*r))
                        }
                        Entry::Occupied(_) => None,
                    };
                    if let Some(a) = fresh {
                        want[i] = Some(V::norm(base + i as u64));
                        let b = m.get(*k).map(at);
                        ensure!(b == Some(a), "vacant insert of {k:?} designates {a:#x}, get {b:x?}");
                    }
                }
            }
        }
        9 => {
            for (k, v) in &mut *m {
                let i = index(k)?;
                if chosen(i) {
                    *v = V::make(base + i as u64);
                    want[i] = Some(V::norm(base + i as u64));
                }
            }
        }
        _ => {
            for (i, k) in keys.iter().enumerate() {
                if chosen(i) {
                    if let Entry::Occupied(mut e) = m.entry(*k) {
                        drop(e.insert(V::make(base + i as u64)));
                        want[i] = Some(V::norm(base + i as u64));
                    }
                }
            }
        }
    }
    Ok(want)
}

fn one<K: Shape, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let mut obs = observe(&m, keys);
    for _ in 0..PATHS {
        let path = ctx.rng.below(PATHS);
        let pick = ctx.rng.u64();
        let want = write(ctx, &mut m, keys, &obs, path, pick)
            .map_err(|e| format!("path {path}: {e}; content {}; values {}", show(&obs), V::NAME))?;
        // What every later access returns.
        let now = observe(&m, keys);
        for i in 0..keys.len() {
            ensure!(
                now[i] == want[i],
                "after writing through path {path} get({:?}) is {:?}, expected {:?}; content before {}; values {}",
                keys[i], now[i], want[i], show(&obs), V::NAME
            );
        }
        let place = places(&m, keys);
        let mut seen = 0;
        for (k, v) in &m {
            let i = k.index().ok_or_else(|| format!("iter yields {k:?}"))?;
            ensure!(Some(v.sig()) == want[i] && Some(at(v)) == place[i], "iter after path {path}: {k:?} is {} at {:#x}, get says {:?} at {:x?}", v.sig(), at(v), want[i], place[i]);
            seen += 1;
        }
        ensure!(seen == crate::gen::present(&want), "iter after path {path} yields {seen} items");
        let mut vals: Vec<u64> = m.values().map(Val::sig).collect();
        let mut expected: Vec<u64> = want.iter().filter_map(|x| *x).collect();
        vals.sort_unstable();
        expected.sort_unstable();
        ensure!(vals == expected, "values after path {path} are {vals:?}, expected {expected:?}");
        let shared: Vec<(usize, usize)> = place.iter().enumerate().filter_map(|(i, p)| p.map(|p| (i, p))).collect();
        disjoint::<V>(&shared, "get")?;
        ctx.eval(fp(&[path as u64, pick, content_fp(&obs)]));
        ctx.count("references compared", 3 * shared.len() as u64);
        obs = now;
    }
    ctx.sample(|| format!("writes through {PATHS} access paths from {} ({})", show(c), V::NAME));
    Ok(())
}

fn with_value<K: Shape, V: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ledger_reset();
    let random = if n <= 20 { 16 * f } else if n <= 70 { 6 * f } else { 3 * f };
    for c in contents(n, random, if f > 10 { 7 } else { 4 }, &mut ctx.rng) {
        ctx.case("paths", |ctx| one::<K, V>(ctx, &keys, &c));
    }
    ctx.case("ownership", |_| ledger_verdict(0));
}

pub fn run<K: Shape, A: Val, B: Val>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
    with_value::<K, B>(ctx);
}
