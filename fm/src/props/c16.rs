//! C16: ordering of maps matches ordered dictionaries.

use std::cmp::Ordering;
use std::collections::BTreeMap;

use fixed_map::Map;

use super::c14::neighbour;
use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, content_fp, contents, observe, random_content, show, Content};
use crate::shape::OrdMapApi;
use crate::val::{ledger_reset, Val};

/// The standard ordered map of the same entries, keyed by declaration order.
fn model<'a, K: OrdMapApi, V: Val>(m: &'a Map<K, V>, keys: &[K]) -> BTreeMap<usize, &'a V> {
    keys.iter().enumerate().filter_map(|(i, k)| m.get(*k).map(|v| (i, v))).collect()
}

fn partial<K: OrdMapApi, V: Val + PartialOrd>(ctx: &mut Ctx, keys: &[K], c: &Content, d: &Content) -> R {
    let a: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let b: Map<K, V> = build_map(keys, d, &mut ctx.rng);
    let (x, y) = (model(&a, keys), model(&b, keys));
    for (a, b, x, y, n) in [(&a, &b, &x, &y, "a?b"), (&b, &a, &y, &x, "b?a"), (&a, &a, &x, &x, "a?a")] {
        let want = x.partial_cmp(y);
        let what = || format!("{n} of {} and {}; values {}", show(c), show(d), V::NAME);
        let got = K::map_partial_cmp(a, b);
        ensure!(got == want, "partial_cmp is {got:?}, of the ordered maps {want:?}: {}", what());
        let got = K::map_ops(a, b);
        let want = [x < y, x <= y, x > y, x >= y];
        ensure!(got == want, "<, <=, >, >= are {got:?}, of the ordered maps {want:?}: {}", what());
    }
    ctx.eval(fp(&[content_fp(c), content_fp(d), 1]));
    Ok(())
}

fn total<K: OrdMapApi, V: Val + Ord>(ctx: &mut Ctx, keys: &[K], c: &Content, d: &Content, e: &Content) -> R {
    let mk = |ctx: &mut Ctx, c: &Content| -> Map<K, V> { build_map(keys, c, &mut ctx.rng) };
    let (a, b) = (mk(ctx, c), mk(ctx, d));
    let want = model(&a, keys).cmp(&model(&b, keys));
    let what = || format!("{} and {}; values {}", show(c), show(d), V::NAME);
    let got = K::map_cmp(&a, &b);
    ensure!(got == want, "cmp is {got:?}, of the ordered maps {want:?}: {}", what());
    let rev = K::map_cmp(&b, &a);
    ensure!(rev == want.reverse(), "cmp is {got:?} and the other way round {rev:?}: {}", what());
    ensure!((want == Ordering::Equal) == K::map_eq(&a, &b), "cmp is {got:?} but == is {}: {}", K::map_eq(&a, &b), what());
    ctx.count(match want { Ordering::Less => "less", Ordering::Equal => "equal", Ordering::Greater => "greater" }, 1);
    // max, min and clamp hand back the right one of their operands.
    let (oa, ob) = (observe(&a, keys), observe(&b, keys));
    let (lo, hi) = if want == Ordering::Greater { (&ob, &oa) } else { (&oa, &ob) };
    let m = K::map_max(mk(ctx, c), mk(ctx, d));
    ensure!(observe(&m, keys) == *hi, "max is {}: {}", show(&observe(&m, keys)), what());
    let m = K::map_min(mk(ctx, c), mk(ctx, d));
    ensure!(observe(&m, keys) == *lo, "min is {}: {}", show(&observe(&m, keys)), what());
    let x = mk(ctx, e);
    let ox = observe(&x, keys);
    let (low, high) = if want == Ordering::Greater { (mk(ctx, d), mk(ctx, c)) } else { (mk(ctx, c), mk(ctx, d)) };
    let expect = if model(&x, keys) < model(&low, keys) {
        lo
    } else if model(&x, keys) > model(&high, keys) {
        hi
    } else {
        &ox
    };
    let m = K::map_clamp(x, low, high);
    ensure!(observe(&m, keys) == *expect, "clamp of {} is {}, expected {}: {}", show(e), show(&observe(&m, keys)), show(expect), what());
    ctx.eval(fp(&[content_fp(c), content_fp(d), content_fp(e), 2]));
    Ok(())
}

/// Sorting many maps agrees with sorting ordered maps.
fn sorting<K: OrdMapApi, V: Val + Ord>(ctx: &mut Ctx, keys: &[K]) -> R {
    let ms: Vec<Map<K, V>> = (0..12)
        .map(|_| {
            let c = random_content(keys.len(), &mut ctx.rng);
            let c: Content = c.iter().map(|x| x.map(|x| x % 3)).collect();
            build_map(keys, &c, &mut ctx.rng)
        })
        .collect();
    let mut order: Vec<usize> = (0..ms.len()).collect();
    order.sort_by(|i, j| K::map_cmp(&ms[*i], &ms[*j]));
    for w in order.windows(2) {
        let (x, y) = (model(&ms[w[0]], keys), model(&ms[w[1]], keys));
        ensure!(x <= y, "sorting puts a greater map first: {:?} before {:?}", x, y);
    }
    for w in 0..ms.len() {
        for v in w..ms.len() {
            let got = K::map_cmp(&ms[order[w]], &ms[order[v]]);
            ensure!(got != Ordering::Greater, "the order is not transitive");
        }
    }
    let u = ctx.rng.u64();
    ctx.eval(fp(&[u]));
    Ok(())
}

fn cases(ctx: &mut Ctx, n: usize) -> Vec<(Content, Content, Content)> {
    let f = ctx.factor;
    let mut out = Vec::new();
    if n <= 4 {
        for a in 0..1u64 << n {
            for b in 0..1u64 << n {
                let c: Content = (0..n).map(|i| (a >> i & 1 == 1).then(|| ctx.rng.below(2) as u64)).collect();
                let d: Content = (0..n).map(|i| (b >> i & 1 == 1).then(|| ctx.rng.below(2) as u64)).collect();
                let e = random_content(n, &mut ctx.rng);
                out.push((c, d, e));
            }
        }
    }
    let rounds = if n <= 20 { 80 * f } else if n <= 70 { 40 * f } else { 12 * f };
    for c in contents(n, rounds, 0, &mut ctx.rng) {
        for _ in 0..3 {
            let d = neighbour(&c, ctx);
            let e = neighbour(&d, ctx);
            out.push((c.clone(), d, e));
        }
        let d = random_content(n, &mut ctx.rng);
        let e = random_content(n, &mut ctx.rng);
        out.push((c, d, e));
    }
    out
}

pub fn run<K: OrdMapApi, A: Val + Ord, B: Val + Ord, P: Val + PartialOrd>(ctx: &mut Ctx) {
    ledger_reset();
    let keys = K::universe();
    for (c, d, e) in cases(ctx, keys.len()) {
        ctx.case("total", |ctx| total::<K, A>(ctx, &keys, &c, &d, &e));
        ctx.case("total", |ctx| total::<K, B>(ctx, &keys, &c, &d, &e));
        ctx.case("partial", |ctx| partial::<K, A>(ctx, &keys, &c, &d));
        ctx.case("partial", |ctx| partial::<K, P>(ctx, &keys, &c, &d));
        ctx.sample(|| format!("{} against {} ({})", show(&c), show(&d), A::NAME));
    }
    for _ in 0..4 * ctx.factor {
        ctx.case("sorting", |ctx| sorting::<K, A>(ctx, &keys));
    }
}
