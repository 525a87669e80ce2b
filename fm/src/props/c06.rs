//! C06: double-ended, cloned and exhausted iteration stays consistent.

use std::collections::VecDeque;

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, show, Content};
use crate::iters::{drain, It, Item, View};
use crate::shape::FixedApi;
use crate::val::{ledger_reset, ledger_verdict, Val};
use crate::views::{open, same, shown1, ALL};

#[derive(Clone, Copy, Debug)]
enum Step {
    Front,
    Back,
    Nth(usize),
    NthBack(usize),
    TryFront(usize),
    TryBack(usize),
}

fn expect<K: PartialEq + std::fmt::Debug + Copy>(
    got: Option<Item<K>>,
    want: Option<Item<K>>,
    what: &str,
) -> R {
    let ok = match (&got, &want) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    };
    ensure!(ok, "{what} returns {}, expected {}", shown1(&got), shown1(&want));
    Ok(())
}

fn step<'a, K: PartialEq + std::fmt::Debug + Copy + 'a>(
    it: &mut Box<dyn It<'a, K> + 'a>,
    model: &mut VecDeque<Item<K>>,
    s: Step,
) -> R {
    match s {
        Step::Front => expect(it.next(), model.pop_front(), "next()"),
        Step::Back => expect(it.next_back(), model.pop_back(), "next_back()"),
        Step::Nth(n) => {
            for _ in 0..n {
                model.pop_front();
            }
            expect(it.nth(n), model.pop_front(), "nth()")
        }
        Step::NthBack(n) => {
            for _ in 0..n {
                model.pop_back();
            }
            expect(it.nth_back(n), model.pop_back(), "nth_back()")
        }
        Step::TryFront(n) => {
            let mut got = Vec::new();
            it.try_each(&mut |i| {
                got.push(i);
                got.len() <= n
            });
            for g in got {
                expect(Some(g), model.pop_front(), "try_fold()")?;
            }
            Ok(())
        }
        Step::TryBack(n) => {
            let mut got = Vec::new();
            it.rtry_each(&mut |i| {
                got.push(i);
                got.len() <= n
            });
            for g in got {
                expect(Some(g), model.pop_back(), "try_rfold()")?;
            }
            Ok(())
        }
    }
}

/// Take the rest in one of many ways.
fn finish<'a, K: PartialEq + std::fmt::Debug + Copy + 'a>(
    mut it: Box<dyn It<'a, K> + 'a>,
    mut model: VecDeque<Item<K>>,
    how: usize,
) -> R {
    match how {
        0 => {
            // Exhaust, then keep asking both ends.
            let n = model.len();
            for _ in 0..n {
                step(&mut it, &mut model, Step::Front)?;
            }
            for _ in 0..2 {
                step(&mut it, &mut model, Step::Front)?;
                step(&mut it, &mut model, Step::Back)?;
            }
            step(&mut it, &mut model, Step::Nth(1))?;
            step(&mut it, &mut model, Step::NthBack(1))?;
            Ok(())
        }
        1 => {
            let n = model.len();
            for _ in 0..n {
                step(&mut it, &mut model, Step::Back)?;
            }
            for _ in 0..2 {
                step(&mut it, &mut model, Step::Back)?;
                step(&mut it, &mut model, Step::Front)?;
            }
            Ok(())
        }
        2 => {
            let mut bad = Ok(());
            let mut count = 0;
            it.for_each(&mut |i| {
                count += 1;
                if bad.is_ok() {
                    bad = expect(Some(i), model.pop_front(), "fold()");
                }
            });
            bad?;
            ensure!(model.is_empty(), "fold() stops after {count} items, {} are missing", model.len());
            Ok(())
        }
        3 => {
            let mut bad = Ok(());
            let mut count = 0;
            it.rfor_each(&mut |i| {
                count += 1;
                if bad.is_ok() {
                    bad = expect(Some(i), model.pop_back(), "rfold()");
                }
            });
            bad?;
            ensure!(model.is_empty(), "rfold() stops after {count} items, {} are missing", model.len());
            Ok(())
        }
        4 => {
            let n = it.count();
            ensure!(n == model.len(), "count() is {n}, {} items are left", model.len());
            Ok(())
        }
        5 => expect(it.last(), model.pop_back(), "last()"),
        _ => {
            let v = it.collect();
            for g in v {
                expect(Some(g), model.pop_front(), "collect()")?;
            }
            ensure!(model.is_empty(), "collect() misses {} items", model.len());
            Ok(())
        }
    }
}

fn word<'a, K: PartialEq + std::fmt::Debug + Copy + 'a>(
    ctx: &mut Ctx,
    mut it: Box<dyn It<'a, K> + 'a>,
    full: &[Item<K>],
    steps: &[Step],
    clone_at: usize,
    how: usize,
) -> R {
    let mut model: VecDeque<Item<K>> = full.iter().copied().collect();
    for (n, s) in steps.iter().enumerate() {
        if n == clone_at {
            let dup = match ctx.rng.below(3) {
                0 => it.dup_into(ctx.rng.below(4)),
                _ => it.dup(),
            };
            if let Some(mut d) = dup {
                ctx.count("clones", 1);
                // The clone goes its own way first.
                let mut dm = model.clone();
                let k = ctx.rng.below(dm.len() + 2);
                for _ in 0..k {
                    let st = if ctx.rng.bool() { Step::Front } else { Step::Back };
                    step(&mut d, &mut dm, st).map_err(|e| format!("clone taken before step {n}: {e}"))?;
                }
                if ctx.rng.bool() {
                    let h = ctx.rng.below(7);
                    finish(d, dm, h).map_err(|e| format!("clone taken before step {n}: {e}"))?;
                } else {
                    // And outlives some steps of the original.
                    step(&mut it, &mut model, *s)?;
                    let h = ctx.rng.below(7);
                    finish(d, dm, h).map_err(|e| format!("clone taken before step {n}: {e}"))?;
                    continue;
                }
            }
        }
        step(&mut it, &mut model, *s).map_err(|e| format!("step {n}: {e}"))?;
    }
    finish(it, model, how)
}

fn random_step(ctx: &mut Ctx, n: usize) -> Step {
    match ctx.rng.below(12) {
        0 => Step::Nth(ctx.rng.below(4)),
        1 => Step::NthBack(ctx.rng.below(4)),
        2 => Step::Nth(ctx.rng.below(n + 2)),
        3 => Step::NthBack(ctx.rng.below(n + 2)),
        4 => Step::TryFront(ctx.rng.below(4)),
        5 => Step::TryBack(ctx.rng.below(4)),
        6..=8 => Step::Front,
        _ => Step::Back,
    }
}

fn one<K: FixedApi, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content, words: usize) -> R {
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let s: Set<K> = build_set(keys, c, &mut ctx.rng);
    for view in ALL {
        let full = drain(open(&mut m, &s, view), keys.len() + 8)?;
        let n = full.len();
        let describe = |e: String, steps: &[Step], clone_at: usize, how: usize| {
            format!(
                "{view:?} over {} items: {e}; steps {steps:?}, clone before step {clone_at}, finished by way {how}; content {}; values {}",
                full.len(), show(c), V::NAME
            )
        };
        // All words of front and back, when there are few.
        let len = n + 2;
        if n <= 4 || (n <= 6 && ctx.factor > 1) {
            for w in 0..1u64 << len {
                let steps: Vec<Step> =
                    (0..len).map(|i| if w >> i & 1 == 0 { Step::Front } else { Step::Back }).collect();
                let cl = (w as usize * 7 + n) % (len + 1);
                word(ctx, open(&mut m, &s, view), &full, &steps, cl, w as usize % 2)
                    .map_err(|e| describe(e, &steps, cl, w as usize % 2))?;
                ctx.eval(fp(&[view as u64, w, content_fp(c), 1]));
            }
            ctx.count("complete sets of words", 1);
        }
        // Some off each end, then a jump from either.
        if n > 0 && n <= 6 {
            for a in 0..=n {
                for b in 0..=n - a {
                    for j in 0..=n - a - b + 1 {
                        for jump in [Step::Nth(j), Step::NthBack(j)] {
                            let mut steps = vec![Step::Front; a];
                            steps.extend(vec![Step::Back; b]);
                            if ctx.rng.bool() {
                                steps.reverse();
                            }
                            steps.push(jump);
                            let how = ctx.rng.below(7);
                            let cl = ctx.rng.below(2 * steps.len());
                            word(ctx, open(&mut m, &s, view), &full, &steps, cl, how).map_err(|e| describe(e, &steps, cl, how))?;
                            ctx.eval(fp(&[view as u64, content_fp(c), 2, a as u64, b as u64, j as u64, matches!(jump, Step::Nth(_)) as u64]));
                        }
                    }
                }
            }
            ctx.count("complete sets of jumps", 1);
        }
        for _ in 0..words {
            let lim = if ctx.rng.bool() { n + 3 } else { 6 };
            let len = ctx.rng.below(lim);
            let bias = ctx.rng.below(4);
            let steps: Vec<Step> = (0..len)
                .map(|_| match bias {
                    0 => Step::Front,
                    1 => Step::Back,
                    2 if ctx.rng.bool() => Step::Front,
                    2 => Step::Back,
                    _ => random_step(ctx, n),
                })
                .collect();
            let cl = ctx.rng.below(len + 1);
            let how = ctx.rng.below(7);
            word(ctx, open(&mut m, &s, view), &full, &steps, cl, how).map_err(|e| describe(e, &steps, cl, how))?;
            let code = steps.iter().fold(0u64, |h, s| fp(&[h, match s {
                Step::Front => 1,
                Step::Back => 2,
                Step::Nth(n) => 16 + *n as u64,
                Step::NthBack(n) => 1024 + *n as u64,
                Step::TryFront(n) => 3 + 4096 * *n as u64,
                Step::TryBack(n) => 4 + 4096 * *n as u64,
            }]));
            ctx.eval(fp(&[view as u64, code, content_fp(c), how as u64]));
        }
    }
    // The set's and the map's sequences are the same keys when contents are.
    let a: Vec<K> = drain(open(&mut m, &s, View::Keys), keys.len() + 8)?.iter().filter_map(|i| i.k).collect();
    let b: Vec<K> = drain(open(&mut m, &s, View::SetIter), keys.len() + 8)?.iter().filter_map(|i| i.k).collect();
    ensure!(a == b, "keys of a map {a:?} and elements of the same set {b:?}");
    ctx.sample(|| format!("front/back words over {} ({})", show(c), V::NAME));
    Ok(())
}

fn with_value<K: FixedApi, V: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ledger_reset();
    let (random, words) = if n <= 20 { (14 * f, 8) } else if n <= 70 { (5 * f, 8) } else { (2 * f, 8) };
    for c in contents(n, random, if f > 1 { 6 } else { 4 }, &mut ctx.rng) {
        ctx.case("words", |ctx| one::<K, V>(ctx, &keys, &c, words));
    }
    ctx.case("ownership", |_| ledger_verdict(0));
}

pub fn run<K: FixedApi, A: Val, B: Val>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
    with_value::<K, B>(ctx);
}
