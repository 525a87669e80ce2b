//! C22: raw bitset values map one-to-one to set contents.

use std::cmp::Ordering;

use fixed_map::Set;

use super::c15::Calls;
use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_set, contents, observe_set, show, Content};
use crate::iters::{drain, SetSrc, View};
use crate::shape::RawApi;

fn want_width(n: usize) -> u32 {
    [8, 16, 32, 64, 128].into_iter().find(|w| *w as usize >= n).unwrap_or(0)
}

fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}

fn bits(c: &Content) -> u128 {
    c.iter().enumerate().filter(|(_, x)| x.is_some()).fold(0, |b, (i, _)| b | 1u128 << i)
}

fn hash_of<K: RawApi>(s: &Set<K>) -> Calls {
    let mut h = Calls::default();
    K::set_hash(s, &mut h);
    h
}

/// Everything a set says about itself must follow from its raw value.
fn consistent<K: RawApi>(ctx: &mut Ctx, keys: &[K], s: &Set<K>, b: u128, what: &str) -> R {
    let n = keys.len();
    let raw = K::raw(s);
    ensure!(raw == b, "{what}: as_raw is {raw:#x}, expected {b:#x}");
    let mut expect = Vec::new();
    for (i, k) in keys.iter().enumerate() {
        let has = b >> i & 1 == 1;
        ensure!(s.contains(*k) == has, "{what}: contains({k:?}) is {} with raw value {b:#x}", !has);
        if has {
            expect.push(i);
        }
    }
    ensure!(s.len() == expect.len(), "{what}: len is {}, {} bits are set", s.len(), expect.len());
    ensure!(s.is_empty() == expect.is_empty(), "{what}: is_empty is {} with raw value {b:#x}", s.is_empty());
    let got: Vec<Option<usize>> = s.iter().map(|k| k.index()).collect();
    ensure!(got.iter().copied().eq(expect.iter().map(|i| Some(*i))), "{what}: iteration yields {got:?}, bits are {expect:?}");
    for view in [View::SetIter, View::SetRef, View::SetInto] {
        let src = if view == View::SetInto { SetSrc::Own(K::clone_set(s)) } else { SetSrc::Ref(s) };
        let items = drain(K::set_view(src, view), n + 4)?;
        ensure!(
            items.iter().map(|i| i.k.and_then(|k| k.index())).eq(expect.iter().map(|i| Some(*i))),
            "{what}: {view:?} yields {}, bits are {expect:?}", crate::views::shown(&items)
        );
    }
    // The set with the same elements by insertion.
    let mut t = Set::new();
    for i in &expect {
        t.insert(keys[*i]);
    }
    ensure!(K::set_eq(s, &t) && K::set_eq(&t, s) && !K::set_ne(s, &t), "{what}: not equal to the set with the same elements, raw {b:#x}");
    ensure!(K::set_cmp(s, &t) == Ordering::Equal, "{what}: compares {:?} to the set with the same elements", K::set_cmp(s, &t));
    ensure!(hash_of(s) == hash_of(&t), "{what}: hashes differently from the set with the same elements");
    ensure!(K::raw(&t) == b, "{what}: the same elements by insertion have the raw value {:#x}", K::raw(&t));
    ctx.eval(fp(&[b as u64, (b >> 64) as u64]));
    Ok(())
}

fn from_raw<K: RawApi>(ctx: &mut Ctx, keys: &[K], x: u128) -> R {
    let n = keys.len();
    let b = x & mask(n);
    let mut s = K::from_raw(x);
    let what = format!("from_raw({x:#x})");
    consistent(ctx, keys, &s, b, &what)?;
    if b != x {
        ctx.count("raw values with bits of no variant", 1);
    }
    // It goes on as any other set.
    let mut b = b;
    for _ in 0..3.min(n) {
        let i = ctx.rng.below(n);
        let had = b >> i & 1 == 1;
        if ctx.rng.bool() {
            let r = s.insert(keys[i]);
            ensure!(r == !had, "{what}, later: insert({:?}) returned {r}", keys[i]);
            b |= 1 << i;
        } else {
            let r = s.remove(keys[i]);
            ensure!(r == had, "{what}, later: remove({:?}) returned {r}", keys[i]);
            b &= !(1 << i);
        }
        ensure!(K::raw(&s) == b, "{what}, later: as_raw is {:#x}, expected {b:#x}", K::raw(&s));
        ensure!(s.len() == b.count_ones() as usize, "{what}, later: len is {}", s.len());
    }
    let before = b;
    s.retain(|k| k.index().map_or(false, |i| i % 3 != 0));
    for i in (0..n).step_by(3) {
        b &= !(1 << i);
    }
    ensure!(K::raw(&s) == b, "{what}, later: {before:#x} after retain is {:#x}, expected {b:#x}", K::raw(&s));
    s.clear();
    ensure!(K::raw(&s) == 0, "{what}, cleared: as_raw is {:#x}", K::raw(&s));
    Ok(())
}

pub fn run<K: RawApi>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    let w = K::WIDTH;
    ctx.case("type", |ctx| {
        let want = want_width(n);
        ensure!(w == want && K::raw_size() * 8 == want as usize, "{n} variants are kept in {w} bits, {want} are enough");
        ensure!(K::raw_type() == format!("u{want}"), "{n} variants have the raw type {}", K::raw_type());
        let size = std::mem::size_of::<Set<K>>();
        ensure!(size * 8 == want as usize, "a set of {n} variants takes {size} bytes");
        ensure!(K::raw(&Set::new()) == 0 && K::raw(&Set::default()) == 0, "the raw value of an empty set is {:#x}", K::raw(&Set::new()));
        ctx.eval(fp(&[1]));
        Ok(())
    });
    ctx.case("positions", |ctx| {
        for (i, k) in keys.iter().enumerate() {
            let mut s = Set::new();
            s.insert(*k);
            consistent(ctx, &keys, &s, 1 << i, &format!("only {k:?}"))?;
        }
        Ok(())
    });
    let rounds = (if n <= 20 { 60 } else { 20 }) * f;
    for c in contents(n, rounds, 8, &mut ctx.rng) {
        ctx.case("contents", |ctx| {
            let s: Set<K> = build_set(&keys, &c, &mut ctx.rng);
            let b = bits(&observe_set(&s, &keys));
            consistent(ctx, &keys, &s, b, &show(&c))?;
            let back = K::from_raw(K::raw(&s));
            ensure!(K::set_eq(&back, &s), "{}: from_raw(as_raw) is another set", show(&c));
            consistent(ctx, &keys, &back, b, &format!("{} there and back", show(&c)))
        });
        ctx.sample(|| format!("raw value of {}", show(&c)));
    }
    // Raw values, wherever they come from.
    let full = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    let mut xs: Vec<u128> = Vec::new();
    if w == 8 {
        xs.extend(0..256);
        ctx.count("types with all raw values", 1);
    } else if w == 16 && f > 4 {
        xs.extend(0..65536);
        ctx.count("types with all raw values", 1);
    } else {
        for i in 0..w {
            xs.extend([1 << i, full ^ 1 << i, (1u128 << i) - 1, full ^ ((1u128 << i) - 1)]);
        }
        let pat = 0x5555_5555_5555_5555_5555_5555_5555_5555u128;
        xs.extend([0, full, pat & full, !pat & full, mask(n), full ^ mask(n)]);
        for _ in 0..(if w <= 32 { 300 } else { 100 }) * f {
            let a = u128::from(ctx.rng.u64()) << 64 | u128::from(ctx.rng.u64());
            let b = u128::from(ctx.rng.u64()) << 64 | u128::from(ctx.rng.u64());
            xs.push(match ctx.rng.below(3) {
                0 => a & full,
                1 => a & b & full,
                _ => (a | b) & full,
            });
        }
    }
    for x in xs {
        ctx.case("from_raw", |ctx| from_raw::<K>(ctx, &keys, x));
    }
}
