//! C03: distinct keys never share or disturb a slot.

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, observe, observe_set, random_content, show};
use crate::shape::Shape;
use crate::val::Val;

/// Everything in; everything found again under its own key.
fn fill<K: Shape, V: Val>(ctx: &mut Ctx, keys: &[K]) -> R {
    let n = keys.len();
    let mut order: Vec<usize> = (0..n).collect();
    ctx.rng.shuffle(&mut order);
    let mut m = Map::<K, V>::new();
    let mut s = Set::<K>::new();
    for (done, &i) in order.iter().enumerate() {
        ensure!(m.get(keys[i]).is_none(), "key {:?} is present before it was inserted", keys[i]);
        ensure!(!s.contains(keys[i]), "element {:?} is present before it was inserted", keys[i]);
        m.insert(keys[i], V::make(i as u64));
        s.insert(keys[i]);
        ensure!(m.len() == done + 1, "after inserting {} different keys len is {}", done + 1, m.len());
        ensure!(s.len() == done + 1, "after inserting {} different elements len is {}", done + 1, s.len());
        ctx.eval(fp(&[i as u64, 1]));
    }
    for (i, k) in keys.iter().enumerate() {
        let got = m.get(*k).map(Val::sig);
        ensure!(got == Some(V::norm(i as u64)), "full map: get({k:?}) is {got:?}, its own value is {}", V::norm(i as u64));
        ensure!(s.contains(*k), "full set lacks {k:?}");
    }
    // And out again in another order.
    ctx.rng.shuffle(&mut order);
    for (done, &i) in order.iter().enumerate() {
        ensure!(m.contains_key(keys[i]), "{:?} vanished when another key was removed", keys[i]);
        ensure!(s.contains(keys[i]), "element {:?} vanished when another one was removed", keys[i]);
        let got = m.remove(keys[i]).map(|v| v.sig());
        ensure!(got == Some(V::norm(i as u64)), "remove({:?}) is {got:?}", keys[i]);
        s.remove(keys[i]);
        ensure!(m.len() == n - done - 1 && s.len() == n - done - 1, "len after removing {} of {n}", done + 1);
    }
    Ok(())
}

/// An action on one key leaves every other key alone, in any surrounding.
fn frame<K: Shape, V: Val>(ctx: &mut Ctx, keys: &[K]) -> R {
    let n = keys.len();
    let c = random_content(n, &mut ctx.rng);
    let mut m = build_map::<K, V>(keys, &c, &mut ctx.rng);
    let mut s = build_set::<K>(keys, &c, &mut ctx.rng);
    let targets: Vec<usize> = if n <= 40 {
        (0..n).collect()
    } else {
        (0..24).map(|_| ctx.rng.below(n)).chain([0, n - 1]).collect()
    };
    let mut before = observe(&m, keys);
    let mut sbefore = observe_set(&s, keys);
    for i in targets {
        let act = ctx.rng.below(9);
        let k = keys[i];
        match act {
            0 | 1 => drop(m.insert(k, V::make(5000 + i as u64))),
            2 | 3 => drop(m.remove(k)),
            4 => {
                if let Some(v) = m.get_mut(k) {
                    *v = V::make(6000 + i as u64);
                }
            }
            5 => {
                if let Entry::Occupied(e) = m.entry(k) {
                    drop(e.remove());
                }
            }
            6 => {
                if let Entry::Vacant(e) = m.entry(k) {
                    e.insert(V::make(7000));
                }
            }
            7 => {
                if let Entry::Occupied(mut e) = m.entry(k) {
                    e.insert(V::make(8000));
                }
            }
            _ => {
                m.entry(k).and_modify(|v| *v = V::make(9000)).or_insert_with(|| V::make(9001));
            }
        }
        let after = observe(&m, keys);
        ctx.eval(fp(&[i as u64, act as u64, crate::gen::content_fp(&before)]));
        for j in 0..n {
            ensure!(
                j == i || after[j] == before[j],
                "an operation (#{act}) on {k:?} changed {:?} from {:?} to {:?}; before {}",
                keys[j],
                before[j],
                after[j],
                show(&before)
            );
        }
        before = after;

        if ctx.rng.bool() {
            s.insert(k);
        } else {
            s.remove(k);
        }
        let after = observe_set(&s, keys);
        for j in 0..n {
            ensure!(
                j == i || after[j] == sbefore[j],
                "inserting or removing {k:?} changed membership of {:?}; before {}",
                keys[j],
                show(&sbefore)
            );
        }
        sbefore = after;
    }
    ctx.sample(|| format!("frame condition around single key operations, content {}", show(&c)));
    Ok(())
}

/// For every pair of keys: writing one does not make or change the other.
fn pairs<K: Shape, V: Val>(ctx: &mut Ctx, keys: &[K]) -> R {
    let n = keys.len();
    let cap = if ctx.factor > 1 { 600 } else { 130 };
    for i in 0..n {
        if n > cap && !ctx.rng.chance(cap, n) {
            continue;
        }
        let mut m = Map::<K, V>::new();
        let mut s = Set::<K>::new();
        m.insert(keys[i], V::make(1));
        s.insert(keys[i]);
        let o = observe(&m, keys);
        let so = observe_set(&s, keys);
        for j in 0..n {
            ensure!(
                o[j].is_some() == (i == j),
                "map holding only {:?}: get({:?}) is {:?}",
                keys[i],
                keys[j],
                o[j]
            );
            ensure!(
                so[j].is_some() == (i == j),
                "set holding only {:?}: contains({:?}) is {}",
                keys[i],
                keys[j],
                so[j].is_some()
            );
        }
        ctx.count("ordered pairs of keys", n as u64);
        ctx.eval(fp(&[i as u64, 3]));
    }
    Ok(())
}

fn with_value<K: Shape, V: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    if keys.is_empty() {
        ctx.case("empty", |ctx| {
            let (m, s) = (Map::<K, V>::new(), Set::<K>::new());
            ensure!(m.len() == 0 && s.len() == 0 && m.is_empty() && s.is_empty(), "a container without keys is not empty");
            ctx.eval(1);
            Ok(())
        });
        return;
    }
    let f = ctx.factor;
    ctx.case("pairs", |ctx| pairs::<K, V>(ctx, &keys));
    for _ in 0..4 * f {
        ctx.case("fill", |ctx| fill::<K, V>(ctx, &keys));
    }
    let rounds = if keys.len() <= 40 { 12 } else { 4 };
    for _ in 0..rounds * f {
        ctx.case("frame", |ctx| frame::<K, V>(ctx, &keys));
    }
}

pub fn run<K: Shape, A: Val, B: Val>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
    with_value::<K, B>(ctx);
}
