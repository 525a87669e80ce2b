//! C19: clones and copies are equal and independent.

use std::collections::VecDeque;

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, observe, observe_set, random_content, show, Content};
use crate::iters::{drain, It, Item, View};
use crate::shape::{Api, FixedApi};
use crate::val::{ledger, ledger_reset, ledger_verdict, Tr, Val};
use crate::views::{open, same, same_seq, shown, shown1, ALL};

/// Any operation, on one map.
fn disturb<K: Api, V: Val>(ctx: &mut Ctx, m: &mut Map<K, V>, keys: &[K]) {
    let n = keys.len();
    for _ in 0..1 + ctx.rng.below(6) {
        let i = ctx.rng.below(n.max(1));
        let x = ctx.rng.below(1000) as u64;
        match ctx.rng.below(9) {
            0 | 1 if n > 0 => drop(m.insert(keys[i], V::make(x))),
            2 | 3 if n > 0 => drop(m.remove(keys[i])),
            4 => m.clear(),
            5 => {
                let bit = ctx.rng.u64();
                m.retain(|k, _| k.index().map_or(true, |i| bit >> (i % 64) & 1 == 1));
            }
            6 => {
                for v in m.values_mut() {
                    *v = V::make(x);
                }
            }
            7 if n > 0 => {
                m.entry(keys[i]).and_modify(|v| *v = V::make(x)).or_insert_with(|| V::make(x));
            }
            8 => {
                for (_, v) in m.iter_mut() {
                    *v = V::make(x + 1);
                }
            }
            _ => {}
        }
    }
}

fn disturb_set<K: Api>(ctx: &mut Ctx, s: &mut Set<K>, keys: &[K]) {
    let n = keys.len();
    for _ in 0..1 + ctx.rng.below(6) {
        let i = ctx.rng.below(n.max(1));
        match ctx.rng.below(6) {
            0 | 1 if n > 0 => {
                s.insert(keys[i]);
            }
            2 | 3 if n > 0 => {
                s.remove(keys[i]);
            }
            4 => s.clear(),
            5 => {
                let bit = ctx.rng.u64();
                s.retain(|k| k.index().map_or(true, |i| bit >> (i % 64) & 1 == 1));
            }
            _ => {}
        }
    }
}

fn maps<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let mut pool: Vec<Map<K, V>> = vec![build_map(keys, c, &mut ctx.rng)];
    let mut obs: Vec<Content> = vec![observe(&pool[0], keys)];
    for step in 0..10 {
        let i = ctx.rng.below(pool.len());
        let how;
        if ctx.rng.bool() && pool.len() < 5 {
            how = "clone";
            let m = K::clone_map(&pool[i]);
            let now = observe(&m, keys);
            ensure!(now == obs[i], "clone has {}, the original {}", show(&now), show(&obs[i]));
            ensure!(m.len() == pool[i].len(), "clone has len {}, the original {}", m.len(), pool[i].len());
            let refl = K::map_eq(&pool[i], &pool[i]);
            ensure!(K::map_eq(&m, &pool[i]) == refl, "clone == original is {}", !refl);
            pool.push(m);
            obs.push(now);
        } else if ctx.rng.chance(1, 4) && pool.len() > 1 {
            how = "clone_from";
            let j = ctx.rng.below(pool.len());
            if i != j {
                let mut t = std::mem::take(&mut pool[j]);
                K::clone_map_from(&mut t, &pool[i]);
                let now = observe(&t, keys);
                ensure!(now == obs[i], "clone_from gives {}, the original has {}", show(&now), show(&obs[i]));
                pool[j] = t;
                obs[j] = now;
            }
        } else {
            how = "operation";
            disturb(ctx, &mut pool[i], keys);
            obs[i] = observe(&pool[i], keys);
        }
        // Nobody else noticed.
        for (j, m) in pool.iter().enumerate() {
            let now = observe(m, keys);
            ensure!(
                now == obs[j],
                "{how} on map {i} changed map {j} from {} to {} (step {step}, values {})",
                show(&obs[j]), show(&now), V::NAME
            );
        }
        ctx.eval(fp(&[step, content_fp(&obs[i]), pool.len() as u64, crate::rng::hash_str(how)]));
    }
    ctx.sample(|| format!("{} maps going separate ways from {} ({})", pool.len(), show(c), V::NAME));
    Ok(())
}

fn sets<K: Api>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let mut pool: Vec<Set<K>> = vec![build_set(keys, c, &mut ctx.rng)];
    let mut obs: Vec<Content> = vec![observe_set(&pool[0], keys)];
    for step in 0..10 {
        let i = ctx.rng.below(pool.len());
        if ctx.rng.bool() && pool.len() < 5 {
            let s = K::clone_set(&pool[i]);
            let now = observe_set(&s, keys);
            ensure!(now == obs[i], "the clone of set {} is {}", show(&obs[i]), show(&now));
            ensure!(K::set_eq(&s, &pool[i]), "a set differs from its clone");
            pool.push(s);
            obs.push(now);
        } else if ctx.rng.chance(1, 4) && pool.len() > 1 {
            let j = ctx.rng.below(pool.len());
            if i != j {
                let mut t = std::mem::take(&mut pool[j]);
                K::clone_set_from(&mut t, &pool[i]);
                obs[j] = observe_set(&t, keys);
                ensure!(obs[j] == obs[i], "clone_from of set {} gives {}", show(&obs[i]), show(&obs[j]));
                pool[j] = t;
            }
        } else {
            disturb_set(ctx, &mut pool[i], keys);
            obs[i] = observe_set(&pool[i], keys);
        }
        for (j, s) in pool.iter().enumerate() {
            let now = observe_set(s, keys);
            ensure!(now == obs[j], "an operation on set {i} changed set {j} from {} to {}", show(&obs[j]), show(&now));
        }
        ctx.eval(fp(&[100 + step, content_fp(&obs[i]), pool.len() as u64]));
    }
    Ok(())
}

/// Each stored value is cloned exactly once.
fn counted<K: Api>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    ledger_reset();
    {
        let m: Map<K, Tr> = build_map(keys, c, &mut ctx.rng);
        let mut want: Vec<u64> = keys.iter().filter_map(|k| m.get(*k).map(|t| t.uid)).collect();
        want.sort_unstable();
        let at = ledger(|l| l.clones_of.len());
        let d = K::clone_map(&m);
        let mut got = ledger(|l| l.clones_of[at..].to_vec());
        got.sort_unstable();
        ensure!(got == want, "cloning clones the values {got:?}, stored are {want:?}; {}", show(c));
        for k in keys {
            let (a, b) = (m.get(*k), d.get(*k));
            if let (Some(a), Some(b)) = (a, b) {
                let src = ledger(|l| l.source.get(&b.uid).copied());
                ensure!(src == Some(a.uid), "{k:?} in the clone holds a clone of value {src:?}, in the original it holds {}", a.uid);
            }
        }
        // Owned iterators as well, consumed from both ends.
        for _ in 0..2 {
            let mut it = K::view::<Tr>(crate::iters::MapSrc::Own(K::clone_map(&d)), View::Into);
            let cut = ctx.rng.below(want.len() + 2);
            let mut taken = 0;
            for _ in 0..cut {
                let back = it.double_ended() && ctx.rng.bool();
                taken += usize::from(if back { it.next_back() } else { it.next() }.is_some());
            }
            let at = ledger(|l| l.clones_of.len());
            if let Some(e) = it.dup() {
                let n = ledger(|l| l.clones_of.len()) - at;
                ensure!(n == want.len() - taken, "cloning an owned iterator with {} items left clones {n} values", want.len() - taken);
                let n = e.count();
                ensure!(n == want.len() - taken, "a clone of an owned iterator with {} items left has {n}", want.len() - taken);
            }
        }
    }
    ctx.eval(fp(&[777, content_fp(c)]));
    ctx.count("clones counted", 1);
    ledger_verdict(0)
}

/// Steps from either end, against the items in order.
fn wander<'a, K: PartialEq + std::fmt::Debug + Copy + 'a>(
    ctx: &mut Ctx,
    it: &mut Box<dyn It<'a, K> + 'a>,
    left: &mut VecDeque<Item<K>>,
    steps: usize,
    who: &str,
) -> R {
    let de = it.double_ended();
    for _ in 0..steps {
        let j = ctx.rng.below(3);
        let (got, want, how) = match ctx.rng.below(6) {
            0 => {
                for _ in 0..j {
                    left.pop_front();
                }
                (it.nth(j), left.pop_front(), "nth")
            }
            1 if de => {
                let at = left.len() - j.min(left.len());
                left.truncate(at);
                (it.nth_back(j), left.pop_back(), "nth_back")
            }
            2 | 3 if de => (it.next_back(), left.pop_back(), "next_back"),
            _ => (it.next(), left.pop_front(), "next"),
        };
        let ok = match (&got, &want) {
            (None, None) => true,
            (Some(a), Some(b)) => same(a, b),
            _ => false,
        };
        ensure!(ok, "{who}: {how} (jump {j}) returns {}, expected {}", shown1(&got), shown1(&want));
    }
    Ok(())
}

/// To the end, by one of three ways.
fn rest<'a, K: PartialEq + std::fmt::Debug + Copy + 'a>(it: Box<dyn It<'a, K> + 'a>, left: VecDeque<Item<K>>, mode: usize) -> R {
    let l: Vec<Item<K>> = left.into();
    let cap = l.len() + 8;
    let got = match mode {
        0 => drain(it, cap)?,
        1 => crate::iters::drain_fold(it, cap),
        _ if it.double_ended() => {
            let mut v = Vec::new();
            it.rfor_each(&mut |i| v.push(i));
            v.reverse();
            v
        }
        _ => it.collect(),
    };
    ensure!(same_seq(&got, &l), "ends with {}, expected {}", shown(&got), shown(&l));
    Ok(())
}

/// Clones of iterators yield the rest, whatever happens to the original.
fn iterators<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let cap = keys.len() + 8;
    for view in ALL {
        // The order of an owned hash table is its own.
        if !K::FIXED && matches!(view, View::Into | View::SetInto) {
            continue;
        }
        let full: Vec<Item<K>> = drain(open(&mut m, &s, view), cap)?;
        for round in 0..2 {
            let mut left: VecDeque<Item<K>> = full.iter().copied().collect();
            let mut it = open(&mut m, &s, view);
            let cut = ctx.rng.below(full.len() + 2);
            wander(ctx, &mut it, &mut left, cut, "an iterator")?;
            let Some(mut d) = it.dup() else { break };
            let mut dl = left.clone();
            let mut d2 = match round {
                0 => d.dup(),
                _ => d.dup_into(ctx.rng.below(4)),
            };
            let d2l = left.clone();
            let n = left.len();
            let what = |e: String| format!("{view:?} with {n} of {} items left, cloned twice (way {round}): {e}; content {}", full.len(), show(c));
            // One after the other, or in turns; then to the end.
            let k = ctx.rng.below(n + 2);
            if ctx.rng.bool() {
                wander(ctx, &mut it, &mut left, k, "the original").map_err(what)?;
                wander(ctx, &mut d, &mut dl, k, "the clone").map_err(what)?;
            } else {
                for _ in 0..k {
                    wander(ctx, &mut d, &mut dl, 1, "the clone").map_err(what)?;
                    wander(ctx, &mut it, &mut left, 1, "the original").map_err(what)?;
                }
            }
            let modes = [ctx.rng.below(3), ctx.rng.below(3), ctx.rng.below(3)];
            if round == 0 {
                rest(it, left, modes[0]).map_err(|e| what(format!("the original {e}")))?;
                rest(d, dl, modes[1]).map_err(|e| what(format!("the clone {e}")))?;
            } else {
                rest(d, dl, modes[1]).map_err(|e| what(format!("the clone {e}")))?;
                rest(it, left, modes[0]).map_err(|e| what(format!("the original {e}")))?;
            }
            // The clone's clone was not touched by any of this.
            if let Some(d2) = d2.take() {
                rest(d2, d2l, modes[2]).map_err(|e| what(format!("the clone's clone {e}")))?;
            }
            ctx.eval(fp(&[900 + round, view as u64, cut as u64, k as u64, content_fp(c)]));
            ctx.count("iterator clones", 2);
        }
    }
    Ok(())
}

fn copies<K: FixedApi, V: Val + Copy>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let obs = observe(&m, keys);
    let mut d = K::copy_map(&m);
    ensure!(observe(&d, keys) == obs, "a copy has {}, the original {}", show(&observe(&d, keys)), show(&obs));
    disturb(ctx, &mut m, keys);
    ensure!(observe(&d, keys) == obs, "operating on the original changed its copy");
    let now = observe(&m, keys);
    disturb(ctx, &mut d, keys);
    ensure!(observe(&m, keys) == now, "operating on a copy changed its original");
    let mut s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let obs = observe_set(&s, keys);
    let mut t = K::copy_set(&s);
    ensure!(observe_set(&t, keys) == obs, "a copied set differs");
    disturb_set(ctx, &mut s, keys);
    ensure!(observe_set(&t, keys) == obs, "operating on the original set changed its copy");
    let now = observe_set(&s, keys);
    disturb_set(ctx, &mut t, keys);
    ensure!(observe_set(&s, keys) == now, "operating on a copied set changed its original");
    ctx.eval(fp(&[901, content_fp(c)]));
    Ok(())
}

fn todo<K: Api>(ctx: &mut Ctx) -> (Vec<K>, Vec<Content>) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    let random = if n <= 20 { 16 * f } else if n <= 70 { 8 * f } else { 3 * f };
    let mut cs = contents(n, random, 4, &mut ctx.rng);
    for _ in 0..2 * f {
        cs.push(random_content(n, &mut ctx.rng));
    }
    (keys, cs)
}

pub fn run<K: Api, A: Val, B: Val>(ctx: &mut Ctx) {
    let (keys, cs) = todo::<K>(ctx);
    ledger_reset();
    for c in &cs {
        ctx.case("maps", |ctx| maps::<K, A>(ctx, &keys, c));
        ctx.case("maps", |ctx| maps::<K, B>(ctx, &keys, c));
        ctx.case("sets", |ctx| sets::<K>(ctx, &keys, c));
        ctx.case("counted", |ctx| counted::<K>(ctx, &keys, c));
        ctx.case("iterators", |ctx| iterators::<K, A>(ctx, &keys, c));
    }
    ctx.case("ownership", |_| ledger_verdict(0));
}

pub fn run_fixed<K: FixedApi, A: Val, B: Val, C: Val + Copy>(ctx: &mut Ctx) {
    run::<K, A, B>(ctx);
    let (keys, cs) = todo::<K>(ctx);
    for c in &cs {
        ctx.case("copies", |ctx| copies::<K, C>(ctx, &keys, c));
    }
}
