//! C18: intersection yields exactly the common elements.

use fixed_map::Set;

use super::c14::neighbour;
use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_set, content_fp, contents, observe_set, random_content, show, Content};
use crate::shape::Api;

fn one<K: Api>(ctx: &mut Ctx, keys: &[K], groups: &[u32], a: &Set<K>, b: &Set<K>, what: &str) -> R {
    let (oa, ob) = (observe_set(a, keys), observe_set(b, keys));
    let want: Vec<usize> = (0..keys.len()).filter(|i| oa[*i].is_some() && ob[*i].is_some()).collect();
    let cap = keys.len() + 8;
    // External iteration.
    let mut first = Vec::new();
    let mut it = a.intersection(b);
    while let Some(k) = it.next() {
        first.push(k);
        ensure!(first.len() <= cap, "{what}: intersection does not end");
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{what}: intersection goes on after its end");
    }
    let mut idx = Vec::new();
    for k in &first {
        match k.index() {
            Some(i) => idx.push(i),
            None => return Err(format!("{what}: intersection yields {k:?} which nobody inserted")),
        }
    }
    let mut sorted = idx.clone();
    sorted.sort_unstable();
    ensure!(sorted == want, "{what}: intersection yields keys number {idx:?}, common are {want:?}; {} and {}", show(&oa), show(&ob));
    for w in idx.windows(2) {
        ensure!(groups[w[0]] <= groups[w[1]], "{what}: intersection yields number {} before {}", w[0], w[1]);
    }
    // In iteration order; which side's order is open for hashed components.
    let own: Vec<K> = a.iter().filter(|k| b.contains(*k)).collect();
    ensure!(!K::FIXED || own == first, "{what}: intersection yields {first:?}, the receiver's order is {own:?}");
    // Internal iteration, in all its guises.
    let mut v = Vec::new();
    a.intersection(b).for_each(|k| v.push(k));
    ensure!(v == first, "{what}: for_each yields {v:?}, next {first:?}");
    let v = a.intersection(b).fold(Vec::new(), |mut v, k| {
        v.push(k);
        v
    });
    ensure!(v == first, "{what}: fold yields {v:?}, next {first:?}");
    let v: Vec<K> = a.intersection(b).collect();
    ensure!(v == first, "{what}: collect yields {v:?}, next {first:?}");
    let n = a.intersection(b).count();
    ensure!(n == first.len(), "{what}: count is {n}, next yields {}", first.len());
    let l = a.intersection(b).last();
    ensure!(l == first.last().copied(), "{what}: last is {l:?}, next ends with {:?}", first.last());
    let s: usize = a.intersection(b).map(|k| k.index().unwrap_or(9999)).sum();
    ensure!(s == want.iter().sum::<usize>(), "{what}: sum over intersection is {s}");
    let m = a.intersection(b).filter_map(|k| k.index()).max();
    ensure!(m == want.last().copied(), "{what}: max over intersection is {m:?}");
    ensure!(a.intersection(b).any(|_| true) == !want.is_empty(), "{what}: any over intersection");
    let mut d = Vec::new();
    a.intersection(b).partition::<Vec<K>, _>(|k| k.index().map_or(false, |i| i % 2 == 0)).0.iter().for_each(|k| d.push(*k));
    ensure!(d.len() == want.iter().filter(|i| **i % 2 == 0).count(), "{what}: partition of intersection");
    let c: Set<K> = a.intersection(b).collect();
    for (i, k) in keys.iter().enumerate() {
        ensure!(c.contains(*k) == want.contains(&i), "{what}: collected into a set, {k:?} is {}", c.contains(*k));
    }
    let via_loop: Vec<K> = {
        let mut v = Vec::new();
        for k in a.intersection(b) {
            v.push(k);
        }
        v
    };
    ensure!(via_loop == first, "{what}: for loop yields {via_loop:?}");
    // Cut anywhere: clone, nth, fold of the rest.
    for _ in 0..3 {
        let cut = ctx.rng.below(first.len() + 2);
        let mut it = a.intersection(b);
        for k in first.iter().take(cut) {
            ensure!(it.next() == Some(*k), "{what}: a second pass differs");
        }
        let at = cut.min(first.len());
        let mut cl = it.clone();
        if ctx.rng.bool() {
            for _ in 0..ctx.rng.below(3) {
                cl.next();
            }
            if ctx.rng.bool() {
                cl = b.intersection(a);
            }
            cl.clone_from(&it);
        }
        let rest: Vec<K> = if ctx.rng.bool() {
            it.fold(Vec::new(), |mut v, k| {
                v.push(k);
                v
            })
        } else {
            let mut v = Vec::new();
            while let Some(k) = it.next() {
                v.push(k);
                ensure!(v.len() <= cap, "{what}: intersection does not end");
            }
            v
        };
        ensure!(rest == first[at..], "{what}: after {at} items the rest is {rest:?}, expected {:?}", &first[at..]);
        let dbg = format!("{cl:?}");
        let want_dbg = format!("{:?}", &first[at..]);
        ensure!(dbg == want_dbg, "{what}: debug of a clone after {at} items is {dbg}, left are {want_dbg}");
        let dbg = format!("{cl:#?}");
        ensure!(dbg == format!("{:#?}", &first[at..]), "{what}: alternate debug of intersection");
        let rest: Vec<K> = cl.collect();
        ensure!(rest == first[at..], "{what}: a clone after {at} items yields {rest:?}, expected {:?}", &first[at..]);
        let j = ctx.rng.below(4);
        let mut it = a.intersection(b);
        let x = it.nth(j);
        ensure!(x == first.get(j).copied(), "{what}: nth({j}) is {x:?}, expected {:?}", first.get(j));
        let rest: Vec<K> = it.collect();
        ensure!(rest == first[(j + 1).min(first.len())..], "{what}: after nth({j}) the rest is {rest:?}");
        ctx.count("cuts", 1);
    }
    ensure!(observe_set(a, keys) == oa && observe_set(b, keys) == ob, "{what}: intersecting changed a set");
    Ok(())
}

fn pair<K: Api>(ctx: &mut Ctx, keys: &[K], groups: &[u32], c: &Content, d: &Content) -> R {
    let a: Set<K> = build_set(keys, c, &mut ctx.rng);
    let b: Set<K> = build_set(keys, d, &mut ctx.rng);
    one(ctx, keys, groups, &a, &b, "a with b")?;
    one(ctx, keys, groups, &b, &a, "b with a")?;
    one(ctx, keys, groups, &a, &a, "a with itself")?;
    ctx.eval(fp(&[content_fp(c), content_fp(d)]));
    Ok(())
}

pub fn run<K: Api>(ctx: &mut Ctx) {
    let keys = K::universe();
    let groups = K::group_list();
    let n = keys.len();
    let f = ctx.factor;
    if n <= 4 || (n <= 6 && f > 10) {
        for a in 0..1u64 << n {
            for b in 0..1u64 << n {
                let c: Content = (0..n).map(|i| (a >> i & 1 == 1).then_some(0)).collect();
                let d: Content = (0..n).map(|i| (b >> i & 1 == 1).then_some(0)).collect();
                ctx.case("all pairs", |ctx| pair::<K>(ctx, &keys, &groups, &c, &d));
            }
        }
        ctx.count("complete sets of pairs", 1);
    }
    let rounds = if n <= 20 { 50 * f } else if n <= 70 { 20 * f } else { 5 * f };
    for c in contents(n, rounds, 0, &mut ctx.rng) {
        for t in 0..3 {
            let d = if t < 2 { random_content(n, &mut ctx.rng) } else { neighbour(&c, ctx) };
            ctx.case("pairs", |ctx| pair::<K>(ctx, &keys, &groups, &c, &d));
        }
        ctx.sample(|| format!("{} with others, both ways", show(&c)));
    }
}
