//! Every method an iterator may override, against the default one.
//!
//! `forward`, `backward` and `ordered` call one method (numbered) of the
//! concrete iterator and describe all that can be observed: what it returns,
//! which items its closures are given in which order, and what is left
//! afterwards where the iterator remains.  The same on a vector's iterator over
//! the items which stepping yields must give the same description.

use core::fmt::Write;

use crate::ctx::{Ctx, R};

/// Number of the key, value.
pub type T = (usize, u64);

fn odd(t: &T, arg: usize) -> bool {
    (t.0.wrapping_mul(7) ^ t.1 as usize ^ arg) % 3 == 0
}

fn rank(t: &T, arg: usize) -> usize {
    (t.0.wrapping_add(arg) * 5) % 4
}

pub const FORWARD: usize = 53;

pub fn forward<I: Iterator>(which: usize, arg: usize, mut it: I, pr: fn(I::Item) -> T) -> String {
    crate::ctx::beat();
    let mut o = String::new();
    let cap = 100_000;
    macro_rules! rest {
        () => {{
            let mut n = 0;
            o.push_str(" then");
            while let Some(x) = it.next() {
                let _ = write!(o, " {:?}", pr(x));
                n += 1;
                if n > cap {
                    panic!("does not end");
                }
            }
        }};
    }
    macro_rules! all {
        ($i:expr) => {
            for x in $i.take(cap) {
                let _ = write!(o, " {x:?}");
            }
        };
    }
    match which {
        0 => { let _ = write!(o, "count {}", it.count()); }
        1 => { let _ = write!(o, "last {:?}", it.last().map(pr)); }
        2 => { let _ = write!(o, "collect {:?}", it.map(pr).collect::<Vec<T>>()); }
        3 => { let v = it.collect::<Vec<I::Item>>(); o.push_str("collect"); all!(v.into_iter().map(pr)) }
        4 => { let s = it.fold(String::from("fold"), |mut s, x| { let _ = write!(s, " {:?}", pr(x)); s }); o.push_str(&s); }
        5 => { o.push_str("for_each"); it.for_each(|x| { let _ = write!(o, " {:?}", pr(x)); }); }
        6 => { let _ = write!(o, "nth({arg}) {:?}", it.nth(arg).map(pr)); rest!() }
        7 => {
            let r: Option<usize> = it.try_fold(0, |n, x| { let _ = write!(o, " {:?}", pr(x)); if n < arg { Some(n + 1) } else { None } });
            let _ = write!(o, " try_fold {r:?}");
            rest!()
        }
        8 => {
            let r: Result<(), T> = it.try_for_each(|x| { let t = pr(x); if odd(&t, arg) { Err(t) } else { Ok(()) } });
            let _ = write!(o, "try_for_each {r:?}");
            rest!()
        }
        9 => { let r = it.all(|x| { let t = pr(x); let _ = write!(o, " {t:?}"); !odd(&t, arg) }); let _ = write!(o, " all {r}"); rest!() }
        10 => { let r = it.any(|x| { let t = pr(x); let _ = write!(o, " {t:?}"); odd(&t, arg) }); let _ = write!(o, " any {r}"); rest!() }
        11 => { let mut n = 0; let r = it.find(|_| { n += 1; n > arg }).map(pr); let _ = write!(o, "find {r:?} after {n}"); rest!() }
        12 => { let r = it.find_map(|x| { let t = pr(x); if odd(&t, arg) { Some(t) } else { None } }); let _ = write!(o, "find_map {r:?}"); rest!() }
        13 => { let r = it.position(|x| odd(&pr(x), arg)); let _ = write!(o, "position {r:?}"); rest!() }
        14 => { let r = it.reduce(|a, b| if arg % 2 == 0 { a } else { b }).map(pr); let _ = write!(o, "reduce {r:?}"); }
        15 => { let r = it.map(pr).max_by(|a, b| rank(a, arg).cmp(&rank(b, arg))); let _ = write!(o, "max_by {r:?}"); }
        16 => { let r = it.map(pr).min_by(|a, b| rank(a, arg).cmp(&rank(b, arg))); let _ = write!(o, "min_by {r:?}"); }
        17 => { let r = it.map(pr).max_by_key(|a| rank(a, arg)); let _ = write!(o, "max_by_key {r:?}"); }
        18 => { let r = it.map(pr).min_by_key(|a| rank(a, arg)); let _ = write!(o, "min_by_key {r:?}"); }
        19 => { let mut n = 0; let r = it.max_by_key(|_| { n += 1; n * 7 % (arg + 2) }).map(pr); let _ = write!(o, "max_by_key {r:?}"); }
        20 => { let mut n = 0; let r = it.min_by_key(|_| { n += 1; n * 7 % (arg + 2) }).map(pr); let _ = write!(o, "min_by_key {r:?}"); }
        21 => { let mut n = 0; let r = it.max_by(|_, _| { n += 1; n.cmp(&arg) }).map(pr); let _ = write!(o, "max_by {r:?}"); }
        22 => { let mut n = 0; let r = it.min_by(|_, _| { n += 1; n.cmp(&arg) }).map(pr); let _ = write!(o, "min_by {r:?}"); }
        23 => { o.push_str("filter"); all!(it.map(pr).filter(|t| odd(t, arg))) }
        24 => { o.push_str("filter_map"); all!(it.filter_map(|x| { let t = pr(x); odd(&t, arg).then(|| t) })) }
        25 => { o.push_str("enumerate"); all!(it.enumerate().map(|(i, x)| (i, pr(x)))) }
        26 => { let _ = write!(o, "skip({arg})"); all!(it.skip(arg).map(pr)) }
        27 => { let _ = write!(o, "take({arg})"); all!(it.by_ref().take(arg).map(pr)); rest!() }
        28 => { let _ = write!(o, "step_by({})", arg + 1); all!(it.step_by(arg + 1).map(pr)) }
        29 => { o.push_str("chain"); all!(it.map(pr).chain([(9999, 9999)])) }
        30 => { o.push_str("zip"); all!(it.map(pr).zip(0..arg)) }
        31 => { let mut p = it.map(pr).peekable(); let _ = write!(o, "peek {:?}", p.peek()); p.nth(arg); let _ = write!(o, " {:?}", p.peek()); all!(p) }
        32 => { o.push_str("skip_while"); all!(it.map(pr).skip_while(|t| !odd(t, arg))) }
        33 => { o.push_str("take_while"); all!(it.by_ref().map(pr).take_while(|t| !odd(t, arg))); rest!() }
        34 => { o.push_str("map_while"); all!(it.by_ref().map_while(|x| { let t = pr(x); (!odd(&t, arg)).then(|| t) })); rest!() }
        35 => { o.push_str("scan"); all!(it.scan(0, |s, x| { *s += 1; (*s <= arg).then(|| (*s, pr(x))) })) }
        36 => { o.push_str("flat_map"); all!(it.flat_map(|x| { let t = pr(x); vec![t; rank(&t, arg)] })) }
        37 => { o.push_str("fuse"); let mut f = it.fuse(); f.nth(arg); all!(f.map(pr)) }
        38 => { let n = it.inspect(|_| o.push('.')).count(); let _ = write!(o, "inspect {n}"); }
        39 => { let (a, b): (Vec<T>, Vec<T>) = it.map(pr).partition(|t| odd(t, arg)); let _ = write!(o, "partition {a:?} {b:?}"); }
        40 => { let mut n = 0; let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|_| { n += 1; n % (arg + 1) == 0 }); o.push_str("partition"); all!(a.into_iter().map(pr)); o.push('|'); all!(b.into_iter().map(pr)) }
        41 => { let (a, b): (Vec<usize>, Vec<u64>) = it.map(pr).unzip(); let _ = write!(o, "unzip {a:?} {b:?}"); }
        42 => { let s: usize = it.map(|x| pr(x).0 + 1).sum(); let _ = write!(o, "sum {s}"); }
        43 => { let s: u64 = it.map(|x| pr(x).0 as u64 % 3 + 1).fold(1, |a, b| a.wrapping_mul(b)); let _ = write!(o, "product {s}"); }
        44 => { let r: Result<Vec<T>, T> = it.by_ref().map(|x| { let t = pr(x); if odd(&t, arg) { Err(t) } else { Ok(t) } }).collect(); let _ = write!(o, "collect {r:?}"); rest!() }
        45 => { let mut v = vec![(7, 7)]; v.extend(it.map(pr)); let _ = write!(o, "extend {v:?}"); }
        46 => { o.push_str("for"); for x in it { let _ = write!(o, " {:?}", pr(x)); } }
        47 => { let _ = write!(o, "nth nth {:?}", it.nth(arg).map(pr)); let _ = write!(o, " {:?}", it.nth(0).map(pr)); let _ = write!(o, " {:?}", it.nth(arg).map(pr)); rest!() }
        48 => { let n = it.by_ref().take(arg).count(); let _ = write!(o, "take count {n} {:?}", it.last().map(pr)); }
        49 => { let _ = write!(o, "skip nth {:?}", it.skip(arg).nth(1).map(pr)); }
        50 => { o.push_str("step_by fold"); it.step_by(arg + 2).for_each(|x| { let _ = write!(o, " {:?}", pr(x)); }); }
        51 => { let mut n = 0; let r = it.rposition_like(arg, pr, &mut n); let _ = write!(o, "cycle-free {r:?} {n}"); }
        _ => { let b: Box<[I::Item]> = it.collect(); o.push_str("boxed"); all!(b.into_vec().into_iter().map(pr)) }
    }
    o
}

/// A scan by `try_fold` carried over two calls.
trait Twice: Iterator {
    fn rposition_like(&mut self, arg: usize, pr: fn(Self::Item) -> T, n: &mut usize) -> Vec<T>
    where
        Self: Sized,
    {
        let mut out = Vec::new();
        for k in [arg, 1, arg] {
            let mut left = k;
            let _: Result<(), ()> = self.try_for_each(|x| {
                *n += 1;
                out.push(pr(x));
                if left == 0 {
                    return Err(());
                }
                left -= 1;
                Ok(())
            });
        }
        out
    }
}
impl<I: Iterator> Twice for I {}

pub const BACKWARD: usize = 16;

pub fn backward<I: DoubleEndedIterator>(which: usize, arg: usize, mut it: I, pr: fn(I::Item) -> T) -> String {
    crate::ctx::beat();
    let mut o = String::new();
    macro_rules! rest {
        () => {{
            let mut n = 0;
            o.push_str(" then");
            loop {
                let x = if n % 3 == 1 { it.next() } else { it.next_back() };
                let Some(x) = x else { break };
                let _ = write!(o, " {:?}", pr(x));
                n += 1;
                if n > 100_000 {
                    panic!("does not end");
                }
            }
        }};
    }
    match which {
        0 => { let _ = write!(o, "nth_back({arg}) {:?}", it.nth_back(arg).map(pr)); rest!() }
        1 => { let s = it.rfold(String::from("rfold"), |mut s, x| { let _ = write!(s, " {:?}", pr(x)); s }); o.push_str(&s); }
        2 => {
            let r: Option<usize> = it.try_rfold(0, |n, x| { let _ = write!(o, " {:?}", pr(x)); if n < arg { Some(n + 1) } else { None } });
            let _ = write!(o, " try_rfold {r:?}");
            rest!()
        }
        3 => { let mut n = 0; let r = it.rfind(|_| { n += 1; n > arg }).map(pr); let _ = write!(o, "rfind {r:?} after {n}"); rest!() }
        4 => { o.push_str("rev for"); for x in it.rev() { let _ = write!(o, " {:?}", pr(x)); } }
        5 => { let _ = write!(o, "rev last {:?}", it.rev().last().map(pr)); }
        6 => { let _ = write!(o, "rev count {:?}", it.rev().count()); }
        7 => { let _ = write!(o, "rev nth {:?}", it.by_ref().rev().nth(arg).map(pr)); rest!() }
        8 => { o.push_str("rev skip"); for x in it.rev().skip(arg) { let _ = write!(o, " {:?}", pr(x)); } }
        9 => { let v: Vec<T> = it.map(pr).rev().collect(); let _ = write!(o, "rev collect {v:?}"); }
        10 => { let _ = write!(o, "nth nth_back {:?}", it.nth(arg / 2).map(pr)); let _ = write!(o, " {:?}", it.nth_back(arg).map(pr)); rest!() }
        11 => { let _ = write!(o, "nth_back nth {:?}", it.nth_back(arg / 2).map(pr)); let _ = write!(o, " {:?}", it.nth(arg).map(pr)); rest!() }
        12 => { let _ = write!(o, "nth_back count {:?}", it.nth_back(arg).map(pr)); let _ = write!(o, " {}", it.count()); }
        13 => { let _ = write!(o, "nth_back last {:?}", it.nth_back(arg).map(pr)); let _ = write!(o, " {:?}", it.last().map(pr)); }
        14 => { let r = it.by_ref().rev().position(|x| odd(&pr(x), arg)); let _ = write!(o, "rev position {r:?}"); rest!() }
        _ => { o.push_str("flat rev"); for t in it.flat_map(|x| { let t = pr(x); vec![t; rank(&t, arg)] }).rev() { let _ = write!(o, " {t:?}"); } }
    }
    o
}

pub const ORDERED: usize = 14;

pub fn ordered<I: Iterator>(which: usize, it: I, other: Vec<I::Item>, pr: fn(I::Item) -> T) -> String
where
    I::Item: Ord,
{
    crate::ctx::beat();
    let mut o = String::new();
    let _ = match which {
        0 => write!(o, "max {:?}", it.max().map(pr)),
        1 => write!(o, "min {:?}", it.min().map(pr)),
        2 => write!(o, "cmp {:?}", it.cmp(other)),
        3 => write!(o, "partial_cmp {:?}", it.partial_cmp(other)),
        4 => write!(o, "eq {:?}", it.eq(other)),
        5 => write!(o, "ne {:?}", it.ne(other)),
        6 => write!(o, "lt {:?}", it.lt(other)),
        7 => write!(o, "le {:?}", it.le(other)),
        8 => write!(o, "gt {:?}", it.gt(other)),
        9 => write!(o, "ge {:?}", it.ge(other)),
        10 => write!(o, "is_sorted {:?}", it.is_sorted()),
        11 => write!(o, "is_sorted_by {:?}", it.is_sorted_by(|a, b| a > b)),
        12 => write!(o, "max of reversed {:?}", it.max_by(|a, b| b.cmp(a)).map(pr)),
        _ => write!(o, "heap {:?}", it.collect::<std::collections::BinaryHeap<_>>().into_sorted_vec().into_iter().map(pr).collect::<Vec<T>>()),
    };
    o
}

/// Items taken off the two ends beforehand, and the argument of the method.
pub fn cuts(ctx: &mut Ctx, n: usize, back: bool) -> (usize, usize, usize) {
    let (mut a, mut b) = (0, 0);
    if n > 0 && ctx.rng.bool() {
        a = ctx.rng.below(n + 1);
        if back && ctx.rng.bool() {
            b = ctx.rng.below(n - a + 1);
        }
    } else if n > 0 && back && ctx.rng.bool() {
        b = ctx.rng.below(n + 1);
    }
    let left = n - a - b;
    let arg = match ctx.rng.below(4) {
        0 => ctx.rng.below(left + 2),
        1 => left,
        2 => left.saturating_sub(1),
        _ => ctx.rng.below(4),
    };
    (a, b, arg)
}

/// A sequence to compare items with.
pub fn other<X: Clone>(ctx: &mut Ctx, items: &[X]) -> Vec<X> {
    let mut v = items.to_vec();
    match ctx.rng.below(5) {
        0 => {}
        1 => drop(v.pop()),
        2 => {
            if let Some(x) = v.first().cloned() {
                v.push(x);
            }
        }
        3 => v.reverse(),
        _ => {
            if v.len() > 1 {
                let (i, j) = (ctx.rng.below(v.len()), ctx.rng.below(v.len()));
                v.swap(i, j);
            }
        }
    }
    v
}

pub fn agree(what: &str, cut: (usize, usize, usize), full: &[T], got: String, want: String) -> R {
    if got == want {
        return Ok(());
    }
    let mut f = format!("{full:?}");
    f.truncate(300);
    let short = |s: &str| s.chars().take(300).collect::<String>();
    Err(format!(
        "{what}, after {} items from the front and {} from the back, argument {}: {}; the same on the items stepped through: {}; all items: {f}",
        cut.0, cut.1, cut.2, short(&got), short(&want)
    ))
}

/// One view: `methods_view!(ctx, "name", expression opening it, projection, back, ord)`.
#[macro_export]
macro_rules! methods_view {
    ($ctx:ident, $fp:expr, $what:expr, $make:expr, $pr:expr, [$($back:ident)?], [$($ord:ident)?]) => {{
        use $crate::methods as me;
        let full: Vec<me::T> = { let mut v = Vec::new(); let mut it = $make; while let Some(x) = it.next() { v.push($pr(x)); assert!(v.len() < 100_000); } v };
        let n = full.len();
        let back = false $(|| { let $back = true; $back })?;
        for which in 0..me::FORWARD {
            let c = me::cuts($ctx, n, back);
            let mut it = $make;
            for _ in 0..c.0 { it.next(); }
            $( for _ in 0..c.1 { let $back = it.next_back(); } )?
            let got = me::forward(which, c.2, it, $pr);
            let want = me::forward(which, c.2, full[c.0..n - c.1].to_vec().into_iter(), |x| x);
            me::agree($what, c, &full, got, want)?;
            $ctx.eval($crate::ctx::fp(&[7000 + which as u64, c.0 as u64, c.1 as u64, c.2 as u64, $fp]));
        }
        $(
            for which in 0..me::BACKWARD {
                let c = me::cuts($ctx, n, true);
                let mut it = $make;
                for _ in 0..c.0 { it.next(); }
                for _ in 0..c.1 { let $back = it.next_back(); }
                let got = me::backward(which, c.2, it, $pr);
                let want = me::backward(which, c.2, full[c.0..n - c.1].to_vec().into_iter(), |x| x);
                me::agree($what, c, &full, got, want)?;
                $ctx.eval($crate::ctx::fp(&[8000 + which as u64, c.0 as u64, c.1 as u64, c.2 as u64, $fp]));
            }
        )?
        $(
            let items: Vec<_> = { let mut $ord = Vec::new(); let mut it = $make; while let Some(x) = it.next() { $ord.push(x); } $ord };
            for which in 0..me::ORDERED {
                let c = me::cuts($ctx, n, back);
                let c = (c.0, 0, c.2);
                let mut it = $make;
                for _ in 0..c.0 { it.next(); }
                let other = me::other($ctx, &items[c.0..]);
                let got = me::ordered(which, it, other.clone(), $pr);
                let want = me::ordered(which, items[c.0..].to_vec().into_iter(), other, $pr);
                me::agree($what, c, &full, got, want)?;
                $ctx.eval($crate::ctx::fp(&[9000 + which as u64, c.0 as u64, c.1 as u64, $fp]));
            }
        )?
        $ctx.count("iterator methods compared", me::FORWARD as u64);
    }};
}

/// All views of maps (of `u32`) and sets over one concrete key type.
#[macro_export]
macro_rules! methods {
    ($ctx:expr, $k:ty, fixed) => { $crate::methods!(@go $ctx, $k, [b], [own]) };
    ($ctx:expr, $k:ty, front) => { $crate::methods!(@go $ctx, $k, [], [own]) };
    ($ctx:expr, $k:ty, hashed) => { $crate::methods!(@go $ctx, $k, [], []) };
    (@go $ctx:expr, $k:ty, $b:tt, [$($own:ident)?]) => {{
        use $crate::shape::Shape as _;
        fn key(k: &$k) -> usize { $crate::shape::Shape::index(k).unwrap_or(usize::MAX) }
        let keys = <$k as $crate::shape::Shape>::universe();
        let n = keys.len();
        let ctx: &mut $crate::Ctx = $ctx;
        let rounds = if n <= 20 { 4 } else { 2 } * ctx.factor;
        for c in $crate::gen::contents(n, rounds, 2, &mut ctx.rng) {
            ctx.case("methods", |ctx| {
                let fpc = $crate::gen::content_fp(&c);
                let mut m: $crate::Map<$k, u32> = $crate::gen::build_map(&keys, &c, &mut ctx.rng);
                let s: $crate::Set<$k> = $crate::gen::build_set(&keys, &c, &mut ctx.rng);
                $crate::methods_view!(ctx, fpc, "iter", m.iter(), (|(k, v): ($k, &u32)| (key(&k), u64::from(*v))), $b, [v]);
                $crate::methods_view!(ctx, fpc, "&map", IntoIterator::into_iter(&m), (|(k, v): ($k, &u32)| (key(&k), u64::from(*v))), $b, [v]);
                $crate::methods_view!(ctx, fpc, "keys", m.keys(), (|k: $k| (key(&k), 0)), $b, [v]);
                $crate::methods_view!(ctx, fpc, "values", m.values(), (|v: &u32| (0, u64::from(*v))), $b, [v]);
                $crate::methods_view!(ctx, fpc, "iter_mut", m.iter_mut(), (|(k, v): ($k, &mut u32)| (key(&k), u64::from(*v))), $b, []);
                $crate::methods_view!(ctx, fpc, "&mut map", IntoIterator::into_iter(&mut m), (|(k, v): ($k, &mut u32)| (key(&k), u64::from(*v))), $b, []);
                $crate::methods_view!(ctx, fpc, "values_mut", m.values_mut(), (|v: &mut u32| (0, u64::from(*v))), $b, []);
                $crate::methods_view!(ctx, fpc, "set iter", s.iter(), (|k: $k| (key(&k), 0)), $b, [v]);
                $crate::methods_view!(ctx, fpc, "&set", IntoIterator::into_iter(&s), (|k: $k| (key(&k), 0)), $b, [v]);
                $(
                    let $own = &m;
                    $crate::methods_view!(ctx, fpc, "map into_iter", $own.clone().into_iter(), (|(k, v): ($k, u32)| (key(&k), u64::from(v))), $b, [v]);
                    $crate::methods_view!(ctx, fpc, "set into_iter", s.clone().into_iter(), (|k: $k| (key(&k), 0)), $b, [v]);
                )?
                ctx.sample(|| format!("{} methods of all iterators over {}", $crate::methods::FORWARD, $crate::gen::show(&c)));
                Ok(())
            });
        }
    }};
}

/// The same for intersections.
#[macro_export]
macro_rules! intersection_methods {
    ($ctx:expr, $k:ty) => {{
        use $crate::shape::Shape as _;
        fn key(k: &$k) -> usize { $crate::shape::Shape::index(k).unwrap_or(usize::MAX) }
        let keys = <$k as $crate::shape::Shape>::universe();
        let n = keys.len();
        let ctx: &mut $crate::Ctx = $ctx;
        let rounds = if n <= 20 { 12 } else { 4 } * ctx.factor;
        for c in $crate::gen::contents(n, rounds, 2, &mut ctx.rng) {
            ctx.case("methods", |ctx| {
                let d = $crate::gen::random_content(n, &mut ctx.rng);
                let fpc = $crate::gen::content_fp(&c) ^ $crate::gen::content_fp(&d).rotate_left(9);
                let a: $crate::Set<$k> = $crate::gen::build_set(&keys, &c, &mut ctx.rng);
                let b: $crate::Set<$k> = $crate::gen::build_set(&keys, &d, &mut ctx.rng);
                $crate::methods_view!(ctx, fpc, "intersection", a.intersection(&b), (|k: $k| (key(&k), 0)), [], [v]);
                $crate::methods_view!(ctx, fpc, "intersection with itself", a.intersection(&a), (|k: $k| (key(&k), 0)), [], [v]);
                ctx.sample(|| format!("{} methods of the intersection of {} and {}", $crate::methods::FORWARD, $crate::gen::show(&c), $crate::gen::show(&d)));
                Ok(())
            });
        }
    }};
}
