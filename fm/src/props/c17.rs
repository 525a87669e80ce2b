//! C17: ordering of sets matches ordered sets, for every storage.

use std::cmp::Ordering;
use std::collections::BTreeSet;

use fixed_map::Set;

use super::c14::neighbour;
use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_set, content_fp, contents, observe_set, random_content, show, Content};
use crate::shape::OrdSetApi;

fn model<K: OrdSetApi>(s: &Set<K>, keys: &[K]) -> BTreeSet<usize> {
    keys.iter().enumerate().filter(|(_, k)| s.contains(**k)).map(|(i, _)| i).collect()
}

fn pair<K: OrdSetApi>(ctx: &mut Ctx, keys: &[K], c: &Content, d: &Content, e: &Content) -> R {
    let mk = |ctx: &mut Ctx, c: &Content| -> Set<K> { build_set(keys, c, &mut ctx.rng) };
    let (a, b) = (mk(ctx, c), mk(ctx, d));
    let (x, y) = (model(&a, keys), model(&b, keys));
    let what = || format!("{x:?} and {y:?}");
    for (a, b, x, y) in [(&a, &b, &x, &y), (&b, &a, &y, &x), (&a, &a, &x, &x)] {
        let want = x.cmp(y);
        let got = K::set_cmp(a, b);
        ensure!(got == want, "cmp is {got:?}, of the ordered sets {want:?}: {x:?} and {y:?}");
        let got = K::set_partial_cmp(a, b);
        ensure!(got == Some(want), "partial_cmp is {got:?}, of the ordered sets {want:?}: {x:?} and {y:?}");
        let got = K::set_ops(a, b);
        let ops = [x < y, x <= y, x > y, x >= y];
        ensure!(got == ops, "<, <=, >, >= are {got:?}, of the ordered sets {ops:?}: {x:?} and {y:?}");
        let eq = K::set_eq(a, b);
        ensure!(eq == (want == Ordering::Equal), "== is {eq} but cmp is {want:?}: {x:?} and {y:?}");
        ctx.count(match want { Ordering::Less => "less", Ordering::Equal => "equal", Ordering::Greater => "greater" }, 1);
    }
    let (lo, hi) = if x > y { (&y, &x) } else { (&x, &y) };
    let m = K::set_max(mk(ctx, c), mk(ctx, d));
    ensure!(model(&m, keys) == *hi, "max is {:?}: {}", model(&m, keys), what());
    let m = K::set_min(mk(ctx, c), mk(ctx, d));
    ensure!(model(&m, keys) == *lo, "min is {:?}: {}", model(&m, keys), what());
    let z = mk(ctx, e);
    let oz = model(&z, keys);
    let (low, high) = if x > y { (b, a) } else { (a, b) };
    let expect = if oz < *lo { lo } else if oz > *hi { hi } else { &oz };
    let m = K::set_clamp(z, low, high);
    ensure!(model(&m, keys) == *expect, "clamp of {oz:?} is {:?}: {}", model(&m, keys), what());
    ctx.eval(fp(&[content_fp(c), content_fp(d), content_fp(e)]));
    let _ = observe_set::<K>;
    Ok(())
}

pub fn run<K: OrdSetApi>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    if n <= 6 {
        for a in 0..1u64 << n {
            for b in 0..1u64 << n {
                let c: Content = (0..n).map(|i| (a >> i & 1 == 1).then_some(0)).collect();
                let d: Content = (0..n).map(|i| (b >> i & 1 == 1).then_some(0)).collect();
                let e = random_content(n, &mut ctx.rng);
                ctx.case("all pairs", |ctx| pair::<K>(ctx, &keys, &c, &d, &e));
            }
        }
        ctx.count("complete sets of pairs", 1);
    }
    let rounds = if n <= 20 { 150 * f } else if n <= 70 { 80 * f } else { 30 * f };
    for c in contents(n, rounds, 0, &mut ctx.rng) {
        for t in 0..4 {
            let d = if t == 0 { random_content(n, &mut ctx.rng) } else { neighbour(&c, ctx) };
            let e = neighbour(&d, ctx);
            ctx.case("pairs", |ctx| pair::<K>(ctx, &keys, &c, &d, &e));
        }
        ctx.sample(|| format!("{} against others", show(&c)));
    }
}
