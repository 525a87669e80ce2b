//! C26: fixed-key containers never allocate and have the promised size.

use std::fmt::{self, Write};
use std::hash::Hasher;
use std::hint::black_box;
use std::mem::{align_of, size_of};

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

use crate::alloc;
use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, show, Content};
use crate::iters::{MapSrc, SetSrc, View};
use crate::shape::{Api, FixedApi, OrdMapApi, OrdSetApi};
use crate::val::Val;

/// Run one operation and count what it allocates; `boxes` are ours.
macro_rules! quiet {
    ($ctx:expr, $name:expr, $what:expr, $op:expr) => {
        quiet!($ctx, $name, $what, 0, $op)
    };
    ($ctx:expr, $name:expr, $what:expr, $boxes:expr, $op:expr) => {{
        alloc::reset();
        let r = black_box($op);
        let t = alloc::tally();
        ensure!(
            t.allocs <= $boxes,
            "{} allocates: {} requests, {} bytes at peak; {}", $name, t.allocs - $boxes, t.peak, $what
        );
        $ctx.count("operations watched", 1);
        r
    }};
}

struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
}

/// Operations which only move values.
fn moves<K: FixedApi, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let n = keys.len();
    let text = format!("map {} of {}", show(c), V::NAME);
    let what = &text;
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    for _ in 0..6 {
        if n == 0 {
            break;
        }
        let i = ctx.rng.below(n);
        let k = keys[i];
        let mut spare: Vec<V> = (0..8).map(|x| V::make(x)).collect();
        let mut out: Vec<V> = Vec::with_capacity(16);
        let mut keep = |o: Option<V>| {
            if let Some(o) = o {
                out.push(o);
            }
        };
        let v = spare.pop().unwrap();
        keep(quiet!(ctx, "insert", what, m.insert(k, v)));
        let v = spare.pop().unwrap();
        keep(quiet!(ctx, "insert over a value", what, m.insert(k, v)));
        quiet!(ctx, "get", what, m.get(k).is_some());
        quiet!(ctx, "get_mut", what, m.get_mut(k).is_some());
        quiet!(ctx, "contains_key", what, m.contains_key(k));
        quiet!(ctx, "len", what, (m.len(), m.is_empty()));
        keep(quiet!(ctx, "remove", what, m.remove(k)));
        keep(quiet!(ctx, "remove of nothing", what, m.remove(k)));
        let v = spare.pop().unwrap();
        quiet!(ctx, "or_insert", what, {
            m.entry(k).or_insert(v);
        });
        let v = spare.pop().unwrap();
        keep(quiet!(ctx, "occupied insert", what, match m.entry(k) {
            Entry::Occupied(mut e) => Some(e.insert(v)),
            Entry::Vacant(_) => None,
        }));
        quiet!(ctx, "and_modify", what, {
            m.entry(k).and_modify(|v| {
                black_box(v);
            });
        });
        keep(quiet!(ctx, "occupied remove", what, match m.entry(k) {
            Entry::Occupied(e) => Some(e.remove()),
            Entry::Vacant(_) => None,
        }));
        let v = spare.pop().unwrap();
        quiet!(ctx, "vacant insert", what, match m.entry(k) {
            Entry::Occupied(_) => {}
            Entry::Vacant(e) => {
                black_box(e.key());
                e.insert(v);
            }
        });
        quiet!(ctx, "iter", what, m.iter().count());
        quiet!(ctx, "iter", what, {
            let mut it = m.iter();
            while let Some(x) = it.next() {
                black_box(x.1);
            }
        });
        quiet!(ctx, "for over &map", what, {
            for x in &m {
                black_box(x.1);
            }
        });
        quiet!(ctx, "keys", what, m.keys().count());
        quiet!(ctx, "values", what, m.values().count());
        quiet!(ctx, "values_mut", what, m.values_mut().count());
        quiet!(ctx, "iter_mut", what, m.iter_mut().count());
        let bit = ctx.rng.u64();
        quiet!(ctx, "retain", what, m.retain(|k, _| k.index().map_or(true, |i| bit >> (i % 64) & 1 == 1)));
        quiet!(ctx, "moving a map", what, {
            let t = std::mem::take(&mut m);
            m = t;
        });
    }
    // Both ends, through boxes made beforehand.
    for view in View::MAP {
        if view == View::Into {
            continue;
        }
        let mut it = if view.by_mut() { K::view(MapSrc::Mut(&mut m), view) } else { K::view(MapSrc::Ref(&m), view) };
        let r = ctx.rng.u64();
        quiet!(ctx, "iterating from both ends", what, {
            let mut j = 0;
            loop {
                let x = if r >> (j % 64) & 1 == 1 { it.next_back() } else { it.next() };
                if x.is_none() {
                    break;
                }
                j += 1;
                if j > n + 4 {
                    break;
                }
            }
        });
    }
    let d: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    quiet!(ctx, "into_iter", what, {
        for x in d {
            black_box(&x.1);
        }
    });
    let d: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    quiet!(ctx, "dropping a half consumed into_iter", what, {
        let mut it = d.into_iter();
        black_box(it.next().is_some());
        drop(it);
    });
    quiet!(ctx, "clear", what, m.clear());
    let items: Vec<(K, V)> = (0..2 * n.min(40)).map(|i| (keys[i % n], V::make(i as u64))).collect();
    let m = quiet!(ctx, "collect", what, items.into_iter().collect::<Map<K, V>>());
    quiet!(ctx, "drop", what, drop(m));
    ctx.eval(fp(&[1, content_fp(c), crate::rng::hash_str(V::NAME)]));
    Ok(())
}

/// Operations which copy and look at values; these do not allocate themselves.
fn copies<K: FixedApi, V: Val + Copy>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let text = format!("map {} of {}", show(c), V::NAME);
    let what = &text;
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let d: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let mut e = quiet!(ctx, "clone", what, K::clone_map(&m));
    quiet!(ctx, "clone_from", what, K::clone_map_from(&mut e, &m));
    quiet!(ctx, "copy", what, K::copy_map(&m));
    quiet!(ctx, "==", what, K::map_eq(&m, &d));
    quiet!(ctx, "!=", what, K::map_ne(&m, &d));
    quiet!(ctx, "debug output", what, write!(Sink(0), "{m:?}"));
    quiet!(ctx, "alternate debug output", what, write!(Sink(0), "{m:#?}"));
    for view in View::MAP {
        let it = match view {
            View::Into => K::view(MapSrc::Own(K::copy_map(&m)), view),
            v if v.by_mut() => K::view(MapSrc::Mut(&mut m), view),
            _ => K::view(MapSrc::Ref(&m), view),
        };
        // One box of ours.
        drop(quiet!(ctx, "cloning an iterator", what, 1, it.dup()));
    }
    ctx.eval(fp(&[2, content_fp(c), crate::rng::hash_str(V::NAME)]));
    Ok(())
}

fn sets<K: FixedApi>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let n = keys.len();
    let text = format!("set {}", show(c));
    let what = &text;
    let mut s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let d = crate::gen::random_content(n, &mut ctx.rng);
    let t: Set<K> = build_set(keys, &d, &mut ctx.rng);
    for _ in 0..4 {
        if n == 0 {
            break;
        }
        let k = keys[ctx.rng.below(n)];
        quiet!(ctx, "insert", what, s.insert(k));
        quiet!(ctx, "contains", what, s.contains(k));
        quiet!(ctx, "remove", what, s.remove(k));
        quiet!(ctx, "insert", what, s.insert(k));
        quiet!(ctx, "len", what, (s.len(), s.is_empty()));
    }
    quiet!(ctx, "iter", what, s.iter().count());
    quiet!(ctx, "for over &set", what, {
        for x in &s {
            black_box(&x);
        }
    });
    quiet!(ctx, "intersection", what, s.intersection(&t).count());
    quiet!(ctx, "intersection", what, {
        let mut it = t.intersection(&s);
        let c = it.clone();
        while let Some(x) = it.next() {
            black_box(&x);
        }
        c.for_each(|x| {
            black_box(&x);
        });
    });
    quiet!(ctx, "debug output of an intersection", what, write!(Sink(0), "{:?}", s.intersection(&t)));
    let mut u = quiet!(ctx, "clone", what, K::clone_set(&s));
    quiet!(ctx, "clone_from", what, K::clone_set_from(&mut u, &t));
    quiet!(ctx, "copy", what, K::copy_set(&s));
    quiet!(ctx, "==", what, K::set_eq(&s, &t));
    quiet!(ctx, "!=", what, K::set_ne(&s, &t));
    quiet!(ctx, "debug output", what, write!(Sink(0), "{s:?} {s:#?}"));
    for view in View::SET {
        let src = if view == View::SetInto { SetSrc::Own(K::copy_set(&s)) } else { SetSrc::Ref(&s) };
        let mut it = K::set_view(src, view);
        quiet!(ctx, "iterating from both ends", what, {
            while it.next().is_some() {
                black_box(it.next_back().is_some());
            }
        });
    }
    quiet!(ctx, "into_iter", what, u.into_iter().count());
    let bit = ctx.rng.u64();
    quiet!(ctx, "retain", what, s.retain(|k| k.index().map_or(true, |i| bit >> (i % 64) & 1 == 1)));
    quiet!(ctx, "clear", what, s.clear());
    let items: Vec<K> = (0..2 * n.min(40)).map(|i| keys[i % n]).collect();
    quiet!(ctx, "collect", what, items.iter().copied().collect::<Set<K>>());
    if n > 0 {
        let arr = [keys[0], keys[n - 1], keys[n / 2], keys[0]];
        quiet!(ctx, "from an array", what, Set::from(arr));
    }
    ctx.eval(fp(&[3, content_fp(c)]));
    Ok(())
}

fn empties<K: Api, V: Val>(ctx: &mut Ctx) -> R {
    let what = &format!("values {}", V::NAME);
    let m = quiet!(ctx, "Map::new", what, Map::<K, V>::new());
    let d = quiet!(ctx, "Map::default", what, Map::<K, V>::default());
    let s = quiet!(ctx, "Set::new", what, Set::<K>::new());
    let t = quiet!(ctx, "Set::default", what, Set::<K>::default());
    quiet!(ctx, "looking at an empty map", what, (m.len(), m.is_empty(), m.iter().count(), m.keys().count(), s.iter().count()));
    quiet!(ctx, "dropping empty containers", what, drop((m, d, s, t)));
    quiet!(ctx, "collecting nothing", what, (std::iter::empty::<(K, V)>().collect::<Map<K, V>>(), std::iter::empty::<K>().collect::<Set<K>>()));
    ctx.eval(fp(&[4, crate::rng::hash_str(V::NAME)]));
    Ok(())
}

/// Sizes of an enum of N plain variants.
fn size_of_map<K: Api, V: Val>(ctx: &mut Ctx, array: usize) -> R {
    let got = size_of::<Map<K, V>>();
    ensure!(
        got == array,
        "a map of {} plain variants to {} takes {got} bytes, an array of optional values {array}", K::COUNT, V::NAME
    );
    ensure!(align_of::<Map<K, V>>() == align_of::<Option<V>>() || K::COUNT == 0, "alignment {}", align_of::<Map<K, V>>());
    ctx.eval(fp(&[5, crate::rng::hash_str(V::NAME)]));
    Ok(())
}

/// `N` is the number of plain variants, `BITS` whether bitsets were asked for.
pub fn sizes<K: Api, A: Val, B: Val, C: Val, const N: usize, const BITS: bool>(ctx: &mut Ctx) {
    ctx.case("sizes", |ctx| {
        size_of_map::<K, A>(ctx, size_of::<[Option<A>; N]>())?;
        size_of_map::<K, B>(ctx, size_of::<[Option<B>; N]>())?;
        size_of_map::<K, C>(ctx, size_of::<[Option<C>; N]>())?;
        let want = if BITS {
            [1usize, 2, 4, 8, 16].into_iter().find(|b| b * 8 >= N).unwrap_or(0)
        } else {
            N
        };
        let got = size_of::<Set<K>>();
        ensure!(got == want, "a set of {N} plain variants takes {got} bytes, promised are {want}");
        ctx.eval(fp(&[6]));
        ctx.count("sizes compared", 4);
        Ok(())
    });
}

pub fn run_any<K: Api, A: Val, B: Val>(ctx: &mut Ctx) {
    ctx.case("allocator", |_| {
        ensure!(alloc::working(), "the counting allocator is not in place");
        Ok(())
    });
    ctx.case("empties", |ctx| empties::<K, A>(ctx));
    ctx.case("empties", |ctx| empties::<K, B>(ctx));
}

pub fn run<K: FixedApi, A: Val, B: Val, C: Val + Copy>(ctx: &mut Ctx) {
    run_any::<K, A, B>(ctx);
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    let random = if n <= 20 { 10 * f } else if n <= 70 { 5 * f } else { 2 * f };
    for c in contents(n, random, 3, &mut ctx.rng) {
        ctx.case("moves", |ctx| moves::<K, A>(ctx, &keys, &c));
        ctx.case("moves", |ctx| moves::<K, B>(ctx, &keys, &c));
        ctx.case("copies", |ctx| copies::<K, C>(ctx, &keys, &c));
        ctx.case("sets", |ctx| sets::<K>(ctx, &keys, &c));
        ctx.sample(|| format!("operations on {} of {}", show(&c), A::NAME));
    }
}

pub fn ordered_sets<K: OrdSetApi>(ctx: &mut Ctx) {
    let keys = K::universe();
    for c in contents(keys.len(), 4 * ctx.factor, 2, &mut ctx.rng) {
        ctx.case("ordered sets", |ctx| {
            let what = &show(&c);
            let d = crate::gen::random_content(keys.len(), &mut ctx.rng);
            let a: Set<K> = build_set(&keys, &c, &mut ctx.rng);
            let b: Set<K> = build_set(&keys, &d, &mut ctx.rng);
            quiet!(ctx, "cmp", what, K::set_cmp(&a, &b));
            quiet!(ctx, "partial_cmp", what, K::set_partial_cmp(&a, &b));
            quiet!(ctx, "< <= > >=", what, K::set_ops(&a, &b));
            quiet!(ctx, "hash", what, K::set_hash(&a, &mut Sum(0)));
            quiet!(ctx, "max", what, K::set_max(K::clone_set(&a), K::clone_set(&b)));
            quiet!(ctx, "min", what, K::set_min(a, b));
            ctx.eval(fp(&[7, content_fp(&c)]));
            Ok(())
        });
    }
}

pub fn ordered<K: OrdMapApi, V: Val + Copy + PartialOrd>(ctx: &mut Ctx) {
    ordered_sets::<K>(ctx);
    let keys = K::universe();
    for c in contents(keys.len(), 4 * ctx.factor, 2, &mut ctx.rng) {
        ctx.case("ordered maps", |ctx| {
            let what = &show(&c);
            let d = crate::gen::random_content(keys.len(), &mut ctx.rng);
            let a: Map<K, u64> = build_map(&keys, &c, &mut ctx.rng);
            let b: Map<K, u64> = build_map(&keys, &d, &mut ctx.rng);
            quiet!(ctx, "cmp", what, K::map_cmp(&a, &b));
            quiet!(ctx, "partial_cmp", what, K::map_partial_cmp(&a, &b));
            quiet!(ctx, "< <= > >=", what, K::map_ops(&a, &b));
            quiet!(ctx, "hash", what, K::map_hash(&a, &mut Sum(0)));
            let x: Map<K, V> = build_map(&keys, &c, &mut ctx.rng);
            let y: Map<K, V> = build_map(&keys, &d, &mut ctx.rng);
            quiet!(ctx, "partial_cmp", what, K::map_partial_cmp(&x, &y));
            quiet!(ctx, "< <= > >=", what, K::map_ops(&x, &y));
            quiet!(ctx, "max", what, K::map_max(a, b));
            ctx.eval(fp(&[8, content_fp(&c)]));
            Ok(())
        });
    }
}
