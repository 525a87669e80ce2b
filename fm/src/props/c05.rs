//! C05: iteration follows declaration order and depends only on contents.

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map_style, build_set, content_fp, contents, observe, observe_set, show, Content};
use crate::iters::{drain, drain_fold, Item, View};
use crate::shape::Api;
use crate::val::Val;
use crate::views::{open, same_seq, shown, ALL};

fn ordered<K: Api>(items: &[Item<K>], groups: &[u32], view: View) -> R {
    let mut last: Option<usize> = None;
    for i in items {
        let k = i.k.unwrap();
        let Some(at) = k.index() else {
            return Err(format!("{view:?} yields {k:?} which nobody inserted"));
        };
        if let Some(l) = last {
            let fine = if groups[l] == groups[at] { l != at } else { l < at };
            ensure!(
                fine,
                "{view:?} yields {k:?} (number {at} in declaration order) after number {l}; items {}",
                shown(items)
            );
        }
        last = Some(at);
    }
    Ok(())
}

fn one<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], groups: &[u32], c: &Content, styles: usize) -> R {
    let mut first: Vec<Option<Vec<Item<K>>>> = ALL.iter().map(|_| None).collect();
    let from = ctx.rng.below(10);
    for style in from..from + styles {
        let style = style % 10;
        let mut m: Map<K, V> = build_map_style(keys, c, style, &mut ctx.rng);
        let s: Set<K> = build_set(keys, c, &mut ctx.rng);
        let obs = observe(&m, keys);
        let sobs = observe_set(&s, keys);
        for (n, view) in ALL.into_iter().enumerate() {
            let items = if ctx.rng.bool() {
                drain(open(&mut m, &s, view), keys.len() + 8)?
            } else {
                drain_fold(open(&mut m, &s, view), keys.len() + 8)
            };
            ctx.eval(fp(&[n as u64, style as u64, content_fp(c)]));
            if view.has_keys() {
                ordered(&items, groups, view)
                    .map_err(|e| format!("{e}; content {} (history style {style}, values {})", show(c), V::NAME))?;
            }
            if K::FIXED {
                // The order of values is the order of their keys.
                if !view.has_keys() {
                    let want: Vec<u64> = obs.iter().filter_map(|x| *x).collect();
                    let got: Vec<u64> = items.iter().filter_map(|i| i.v).collect();
                    ensure!(got == want, "{view:?} yields {got:?}; in declaration order it would be {want:?}; content {}", show(c));
                }
                // And the same whatever the history.
                match &first[n] {
                    None => first[n] = Some(items),
                    Some(f) => ensure!(
                        same_seq(f, &items),
                        "{view:?} of equal contents differs between histories: {} and {}; content {}",
                        shown(f), shown(&items), show(c)
                    ),
                }
            }
        }
        ctx.count("orders observed", ALL.len() as u64);
        let _ = sobs;
    }
    ctx.sample(|| format!("order of {} over {styles} histories ({})", show(c), V::NAME));
    Ok(())
}

fn with_value<K: Api, V: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let groups = K::group_list();
    let n = keys.len();
    let f = ctx.factor;
    let random = if n <= 20 { 20 * f } else if n <= 70 { 8 * f } else { 3 * f };
    for c in contents(n, random, if f > 1 { 8 } else { 5 }, &mut ctx.rng) {
        ctx.case("order", |ctx| one::<K, V>(ctx, &keys, &groups, &c, if n <= 70 { 4 } else { 2 }));
    }
}

pub fn run<K: Api, A: Val, B: Val>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
    with_value::<K, B>(ctx);
}
