//! C14: equality means same contents, whatever the history.

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, random_content, show, Content};
use crate::shape::Api;
use crate::val::{ledger_reset, ledger_verdict, Val};

/// A content close to another one: equality must see single differences.
pub fn neighbour(c: &Content, ctx: &mut Ctx) -> Content {
    let n = c.len();
    let mut d = c.clone();
    if n == 0 {
        return d;
    }
    let i = match ctx.rng.below(4) {
        0 => 0,
        1 => n - 1,
        _ => ctx.rng.below(n),
    };
    match ctx.rng.below(6) {
        0 => {}
        1 => d[i] = match d[i] {
            Some(_) => None,
            None => Some(crate::gen::small(&mut ctx.rng)),
        },
        2 => {
            if let Some(x) = &mut d[i] {
                *x = x.wrapping_add(1);
            }
        }
        3 => {
            // Same number of entries, one elsewhere.
            if let Some(j) = (0..n).map(|k| (i + k) % n).find(|j| d[*j].is_some()) {
                if let Some(k) = (0..n).map(|k| (j + 1 + k) % n).find(|k| d[*k].is_none()) {
                    d[k] = d[j].take();
                }
            }
        }
        4 => {
            let j = ctx.rng.below(n);
            d.swap(i, j);
        }
        _ => {
            for x in d.iter_mut().flatten() {
                *x = x.wrapping_add(8);
            }
        }
    }
    d
}

/// Contents compared through point queries only.
fn model_eq<K: Api, V: Val>(a: &Map<K, V>, b: &Map<K, V>, keys: &[K]) -> bool {
    keys.iter().all(|k| match (a.get(*k), b.get(*k)) {
        (None, None) => true,
        (Some(x), Some(y)) => x == y,
        _ => false,
    })
}

fn maps<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content, d: &Content) -> R {
    let a: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let b: Map<K, V> = build_map(keys, d, &mut ctx.rng);
    let want = model_eq(&a, &b, keys);
    let what = || format!("{} and {}; values {}", show(c), show(d), V::NAME);
    for (x, y, n) in [(&a, &b, "a == b"), (&b, &a, "b == a")] {
        let (e, ne) = (K::map_eq(x, y), K::map_ne(x, y));
        ensure!(e == want, "{n} is {e}, contents are {}; {}", if want { "equal" } else { "different" }, what());
        ensure!(ne == !want, "{n} is {e} and its negation is {ne}; {}", what());
    }
    // To itself, as far as the values are.
    let refl = model_eq(&a, &a, keys);
    ensure!(K::map_eq(&a, &a) == refl, "a == a is {}; {}", !refl, show(c));
    let cl = K::clone_map(&a);
    ensure!(K::map_eq(&a, &cl) == refl, "a == a.clone() is {}; {}", !refl, show(c));
    ctx.count(if want { "equal pairs" } else { "different pairs" }, 1);
    ctx.eval(fp(&[content_fp(c), content_fp(d), u64::from(want), 1]));
    Ok(())
}

fn sets<K: Api>(ctx: &mut Ctx, keys: &[K], c: &Content, d: &Content) -> R {
    let a: Set<K> = build_set(keys, c, &mut ctx.rng);
    let b: Set<K> = build_set(keys, d, &mut ctx.rng);
    let want = keys.iter().all(|k| a.contains(*k) == b.contains(*k));
    for (x, y, n) in [(&a, &b, "a == b"), (&b, &a, "b == a")] {
        let (e, ne) = (K::set_eq(x, y), K::set_ne(x, y));
        ensure!(e == want, "sets: {n} is {e}, elements are {}; {} and {}", if want { "equal" } else { "different" }, show(c), show(d));
        ensure!(ne == !want, "sets: {n} is {e} and its negation is {ne}; {} and {}", show(c), show(d));
    }
    ensure!(K::set_eq(&a, &a) && !K::set_ne(&a, &a), "a set differs from itself: {}", show(c));
    ensure!(K::set_eq(&a, &K::clone_set(&a)), "a set differs from its clone: {}", show(c));
    ctx.eval(fp(&[content_fp(c), content_fp(d), u64::from(want), 2]));
    Ok(())
}

/// Three maps of the same contents by three histories, pairwise equal.
fn triple<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let ms: Vec<Map<K, V>> = (0..3).map(|_| build_map(keys, c, &mut ctx.rng)).collect();
    let refl = model_eq(&ms[0], &ms[0], keys);
    for i in 0..3 {
        for j in 0..3 {
            ensure!(
                K::map_eq(&ms[i], &ms[j]) == refl,
                "histories {i} and {j} of one content compare {}; {}; values {}",
                if refl { "different" } else { "equal" }, show(c), V::NAME
            );
        }
    }
    ctx.eval(fp(&[content_fp(c), 3]));
    Ok(())
}

fn with_value<K: Api, V: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ledger_reset();
    if n <= 4 {
        // Every pair of subsets, with values alike and not.
        for a in 0..1u64 << n {
            for b in 0..1u64 << n {
                let c: Content = (0..n).map(|i| (a >> i & 1 == 1).then_some(i as u64 % 2)).collect();
                let mut d: Content = (0..n).map(|i| (b >> i & 1 == 1).then_some(i as u64 % 2)).collect();
                ctx.case("pairs", |ctx| {
                    maps::<K, V>(ctx, &keys, &c, &d)?;
                    sets::<K>(ctx, &keys, &c, &d)?;
                    for i in 0..n {
                        if let Some(x) = d[i] {
                            d[i] = Some(1 - x);
                            maps::<K, V>(ctx, &keys, &c, &d)?;
                            d[i] = Some(x);
                        }
                    }
                    Ok(())
                });
            }
        }
        ctx.count("complete sets of pairs", 1);
    }
    let rounds = if n <= 20 { 60 * f } else if n <= 70 { 30 * f } else { 10 * f };
    for c in contents(n, rounds, 4, &mut ctx.rng) {
        ctx.case("triple", |ctx| triple::<K, V>(ctx, &keys, &c));
        for _ in 0..3 {
            let d = neighbour(&c, ctx);
            ctx.case("neighbours", |ctx| {
                maps::<K, V>(ctx, &keys, &c, &d)?;
                sets::<K>(ctx, &keys, &c, &d)
            });
        }
        let d = random_content(n, &mut ctx.rng);
        ctx.case("random", |ctx| {
            maps::<K, V>(ctx, &keys, &c, &d)?;
            sets::<K>(ctx, &keys, &c, &d)
        });
        ctx.sample(|| format!("{} against neighbours and others ({})", show(&c), V::NAME));
    }
    ctx.case("ownership", |_| ledger_verdict(0));
}

pub fn run<K: Api, A: Val, B: Val>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
    with_value::<K, B>(ctx);
}
