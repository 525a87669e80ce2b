//! C04: every iterator yields exactly the contents, once each.

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, observe, observe_set, present, show, Content};
use crate::iters::{It, Item};
use crate::shape::Api;
use crate::val::{ledger_reset, ledger_verdict, Val};
use crate::views::{exactly, open, same_seq, shown, ALL};

/// Ways to get everything out of an iterator.
const MODES: usize = 9;

fn consume<'a, K: Copy>(mut it: Box<dyn It<'a, K> + 'a>, mode: usize, cut: usize, cap: usize) -> Result<Vec<Item<K>>, String> {
    let mut out: Vec<Item<K>> = Vec::new();
    let push = |out: &mut Vec<Item<K>>, i: Item<K>| {
        if out.len() > cap {
            panic!("iterator yields more than {cap} items");
        }
        out.push(i);
    };
    match mode {
        0 => {
            while let Some(i) = it.next() {
                push(&mut out, i);
            }
        }
        1 => it.for_each(&mut |i| push(&mut out, i)),
        2 => out = it.collect(),
        3 => {
            while let Some(i) = it.nth(0) {
                push(&mut out, i);
            }
        }
        4 => {
            // Some by hand, the rest through fold.
            for _ in 0..cut {
                match it.next() {
                    Some(i) => push(&mut out, i),
                    None => return Ok(out),
                }
            }
            it.for_each(&mut |i| push(&mut out, i));
        }
        5 => {
            // Broken off, then resumed.
            let mut left = cut;
            it.try_each(&mut |i| {
                push(&mut out, i);
                left = left.saturating_sub(1);
                left > 0
            });
            while let Some(i) = it.next() {
                push(&mut out, i);
            }
        }
        6 => {
            for _ in 0..cut {
                match it.next() {
                    Some(i) => push(&mut out, i),
                    None => return Ok(out),
                }
            }
            out.extend(it.collect());
        }
        7 => {
            // From the back where that is possible.
            if !it.double_ended() {
                return consume(it, 0, cut, cap);
            }
            while let Some(i) = it.next_back() {
                push(&mut out, i);
            }
            out.reverse();
        }
        _ => {
            if !it.double_ended() {
                return consume(it, 1, cut, cap);
            }
            for _ in 0..cut {
                match it.next_back() {
                    Some(i) => push(&mut out, i),
                    None => break,
                }
            }
            let mut front = Vec::new();
            if out.len() == cut {
                it.for_each(&mut |i| push(&mut front, i));
            }
            out.reverse();
            front.append(&mut out);
            out = front;
        }
    }
    Ok(out)
}

fn one<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let obs = observe(&m, keys);
    let sobs = observe_set(&s, keys);
    let cap = keys.len() + 8;
    // What each view yields in the first way, to be compared position by position.
    let mut firsts: Vec<(crate::iters::View, Vec<Item<K>>)> = Vec::new();
    for view in ALL {
        let o = if view.has_values() || view == crate::iters::View::Keys { &obs } else { &sobs };
        let total = present(o);
        let kobs: Content = o.clone();
        let mut seen: Option<Vec<Item<K>>> = None;
        for mode in 0..MODES {
            if mode > 0 && keys.len() > 40 && ctx.rng.chance(1, 2) {
                continue;
            }
            let cut = ctx.rng.below(total + 2);
            let items = consume(open(&mut m, &s, view), mode, cut, cap)
                .map_err(|e| format!("{view:?} {e}; content {}", show(c)))?;
            exactly(&items, &kobs, view)
                .map_err(|e| format!("{e} (consumed in way {mode}, cut {cut}; value type {}; content {})", V::NAME, show(c)))?;
            // Consumption by other means agrees with stepping.
            if view.by_ref() || K::FIXED {
                match &seen {
                    None => seen = Some(items),
                    Some(first) => ensure!(
                        same_seq(first, &items),
                        "{view:?} consumed in way {mode} (cut {cut}) yields {}, stepped through it yields {}",
                        shown(&items),
                        shown(first)
                    ),
                }
            }
            ctx.eval(fp(&[view as u64, mode as u64, content_fp(c), cut as u64]));
        }
        ctx.count("iterators consumed", MODES as u64);
        let n = open(&mut m, &s, view).count();
        ensure!(n == total, "{view:?}: count() is {n} where {total} are present; content {}", show(c));
        let l = open(&mut m, &s, view).last();
        ensure!(l.is_some() == (total > 0), "{view:?}: last() is {} of {total} items; content {}", l.is_some(), show(c));
        if let (Some(first), Some(l)) = (&seen, &l) {
            let f = first.last().unwrap();
            ensure!(crate::views::same(f, l), "{view:?}: last() is {}, stepping ends with {}", shown(&[*l]), shown(&[*f]));
        }
        if let Some(items) = seen {
            firsts.push((view, items));
        }
    }
    // The views of one container agree with one another, position by position.
    for half in [true, false] {
        let mine = || firsts.iter().filter(|(v, _)| (v.has_values() || *v == crate::iters::View::Keys) == half);
        let Some((v0, full)) = mine().next() else { continue };
        for (v, items) in mine() {
            for (j, (a, b)) in full.iter().zip(items).enumerate() {
                let agree = a.k.is_none() || b.k.is_none() || a.k == b.k;
                let agree = agree && (a.v.is_none() || b.v.is_none() || a.v == b.v);
                ensure!(agree, "position {j}: {v0:?} yields {}, {v:?} yields {}; content {}", shown(&[*a]), shown(&[*b]), show(c));
            }
            ctx.count("views compared by position", 1);
        }
    }
    // The borrowed views agree with one another.
    let v: &Map<K, V> = &m;
    let a: Vec<(K, u64)> = v.iter().map(|(k, v)| (k, v.sig())).collect();
    let b: Vec<K> = v.keys().collect();
    let d: Vec<u64> = v.values().map(Val::sig).collect();
    ensure!(
        a.len() == b.len() && a.len() == d.len() && a.len() == v.len(),
        "iter yields {}, keys {}, values {}, len is {}; content {}",
        a.len(), b.len(), d.len(), v.len(), show(c)
    );
    if K::FIXED {
        for i in 0..a.len() {
            ensure!(
                a[i].0 == b[i] && a[i].1 == d[i],
                "item {i}: iter yields {:?}, keys {:?}, values {}; content {}",
                a[i], b[i], d[i], show(c)
            );
        }
    }
    ensure!(s.len() == s.iter().count(), "set: len is {}, iter yields {}", s.len(), s.iter().count());
    let after = observe(&m, keys);
    ensure!(after == obs, "iterating changed the map from {} to {}", show(&obs), show(&after));
    ensure!(observe_set(&s, keys) == sobs, "iterating changed the set");
    ctx.sample(|| format!("all 11 iterators in {MODES} ways over {} ({})", show(c), V::NAME));
    Ok(())
}

fn with_value<K: Api, V: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ledger_reset();
    let random = if n <= 20 { 16 * f } else if n <= 70 { 6 * f } else { 2 * f };
    let cs = contents(n, random, if f > 1 { 8 } else { 5 }, &mut ctx.rng);
    for c in cs {
        ctx.case("iterators", |ctx| one::<K, V>(ctx, &keys, &c));
    }
    ctx.case("ownership", |_| ledger_verdict(0));
}

pub fn run<K: Api, A: Val, B: Val>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
    with_value::<K, B>(ctx);
}
