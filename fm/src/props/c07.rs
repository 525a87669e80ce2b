//! C07: size hints and exact lengths never lie.

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, random_content, show, Content};
use crate::iters::{drain, It};
use crate::shape::Api;
use crate::val::Val;
use crate::views::{open, ALL};

/// Consume an iterator, noting at every point what it promises; afterwards
/// compare with what it actually yielded from there on.
fn watch<'a, K: Copy>(ctx: &mut Ctx, mut it: Box<dyn It<'a, K> + 'a>, what: &str, cap: usize, c: &Content) -> R {
    let mut notes: Vec<((usize, Option<usize>), Option<usize>, usize)> = Vec::new();
    let de = it.double_ended();
    // A prefix which skips: what was skipped does not matter, only the rest.
    let style = ctx.rng.below(6);
    match style {
        0 => {
            let n = ctx.rng.below(cap);
            it.nth(n);
        }
        1 if de => {
            let n = ctx.rng.below(cap);
            it.nth_back(n);
        }
        2 => {
            let mut n = ctx.rng.below(cap);
            it.try_each(&mut |_| {
                n = n.saturating_sub(1);
                n > 0
            });
        }
        _ => {}
    }
    let back = ctx.rng.below(4);
    let mut yielded = 0;
    let mut dup_at = ctx.rng.below(cap + 1);
    let mut after_none = 0;
    loop {
        notes.push((it.size_hint(), it.exact(), yielded));
        if dup_at == 0 {
            // A clone promises the same, about itself.
            let dup = match ctx.rng.below(3) {
                0 => it.dup_into(ctx.rng.below(4)),
                _ => it.dup(),
            };
            if let Some(d) = dup {
                let (h, e) = (d.size_hint(), d.exact());
                let n = drain(d, cap)?.len();
                check(h, e, n, &format!("clone of {what} after {yielded} items"), c)?;
                ctx.count("clones watched", 1);
            }
        }
        dup_at = dup_at.wrapping_sub(1);
        let from_back = de && match back {
            0 => false,
            1 => true,
            _ => ctx.rng.bool(),
        };
        let i = if from_back { it.next_back() } else { it.next() };
        match i {
            Some(_) => yielded += 1,
            None => {
                after_none += 1;
                if after_none > 2 {
                    break;
                }
            }
        }
        if yielded > cap {
            return Err(format!("{what} yields more than {cap} items"));
        }
    }
    ctx.count("points of consumption", notes.len() as u64);
    for (h, e, at) in notes {
        check(h, e, yielded - at, &format!("{what} after {at} items (prefix style {style}, ends {back})"), c)?;
    }
    Ok(())
}

fn check(h: (usize, Option<usize>), e: Option<usize>, n: usize, what: &str, c: &Content) -> R {
    ensure!(h.0 <= n, "{what}: lower size bound {} but only {n} items follow; content {}", h.0, show(c));
    if let Some(u) = h.1 {
        ensure!(u >= n, "{what}: upper size bound {u} but {n} items follow; content {}", show(c));
    }
    if let Some(e) = e {
        ensure!(e == n, "{what}: exact length {e} but {n} items follow; content {}", show(c));
    }
    Ok(())
}

struct Inter<'a, K: fixed_map::Key>(fixed_map::set::Intersection<'a, K>);

impl<'a, K: Api> It<'a, K> for Inter<'a, K> {
    fn next(&mut self) -> Option<crate::iters::Item<K>> {
        self.0.next().map(crate::iters::Item::k)
    }
    fn nth(&mut self, n: usize) -> Option<crate::iters::Item<K>> {
        self.0.nth(n).map(crate::iters::Item::k)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn exact(&self) -> Option<usize> {
        None
    }
    fn for_each(self: Box<Self>, f: &mut dyn FnMut(crate::iters::Item<K>)) {
        self.0.fold((), |(), k| f(crate::iters::Item::k(k)))
    }
    fn try_each(&mut self, f: &mut dyn FnMut(crate::iters::Item<K>) -> bool) {
        let _ = self.0.try_for_each(|k| if f(crate::iters::Item::k(k)) { Ok(()) } else { Err(()) });
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<crate::iters::Item<K>> {
        self.0.last().map(crate::iters::Item::k)
    }
    fn collect(self: Box<Self>) -> Vec<crate::iters::Item<K>> {
        self.0.map(crate::iters::Item::k).collect()
    }
    fn dup(&self) -> Option<Box<dyn It<'a, K> + 'a>> {
        Some(Box::new(Inter(self.0.clone())))
    }
}

fn one<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let cap = keys.len() + 8;
    let times = if keys.len() <= 70 { 3 } else { 1 };
    for view in ALL {
        for _ in 0..times {
            watch(ctx, open(&mut m, &s, view), &format!("{view:?}"), cap, c)?;
            ctx.eval(fp(&[view as u64, content_fp(c)]));
        }
    }
    let n = drain(open(&mut m, &s, crate::iters::View::Iter), cap)?.len();
    ensure!(m.len() == n, "map: len() is {}, iteration yields {n}; content {}", m.len(), show(c));
    let n = drain(open(&mut m, &s, crate::iters::View::SetIter), cap)?.len();
    ensure!(s.len() == n, "set: len() is {}, iteration yields {n}; content {}", s.len(), show(c));
    for _ in 0..2 {
        let d = random_content(keys.len(), &mut ctx.rng);
        let t: Set<K> = build_set(keys, &d, &mut ctx.rng);
        watch::<K>(ctx, Box::new(Inter(s.intersection(&t))), &format!("intersection with {}", show(&d)), cap, c)?;
        watch::<K>(ctx, Box::new(Inter(t.intersection(&s))), &format!("intersection from {}", show(&d)), cap, c)?;
        ctx.eval(fp(&[99, content_fp(c), content_fp(&d)]));
    }
    ctx.sample(|| format!("promises of all iterators over {} at every point ({})", show(c), V::NAME));
    Ok(())
}

fn with_value<K: Api, V: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    let random = if n <= 20 { 30 * f } else if n <= 70 { 8 * f } else { 3 * f };
    for c in contents(n, random, if f > 1 { 8 } else { 6 }, &mut ctx.rng) {
        ctx.case("hints", |ctx| one::<K, V>(ctx, &keys, &c));
    }
}

pub fn run<K: Api, A: Val>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
}
