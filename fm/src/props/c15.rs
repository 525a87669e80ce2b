//! C15: equal containers hash equally, by contents only.

use std::collections::HashMap;
use std::hash::{Hash, Hasher};

use fixed_map::{Map, Set};

use super::c14::neighbour;
use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, show, Content};
use crate::shape::{OrdMapApi, OrdSetApi};
use crate::val::Val;

/// Records every call, with its kind.
#[derive(Default, PartialEq, Eq, Debug, Clone, Hash)]
pub struct Calls(Vec<u8>);

impl Calls {
    fn put(&mut self, tag: u8, b: &[u8]) {
        self.0.push(tag);
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}

impl Hasher for Calls {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.put(1, b);
    }
    fn write_u8(&mut self, x: u8) {
        self.put(2, &x.to_le_bytes());
    }
    fn write_u16(&mut self, x: u16) {
        self.put(3, &x.to_le_bytes());
    }
    fn write_u32(&mut self, x: u32) {
        self.put(4, &x.to_le_bytes());
    }
    fn write_u64(&mut self, x: u64) {
        self.put(5, &x.to_le_bytes());
    }
    fn write_u128(&mut self, x: u128) {
        self.put(6, &x.to_le_bytes());
    }
    fn write_usize(&mut self, x: usize) {
        self.put(7, &x.to_le_bytes());
    }
    fn write_i8(&mut self, x: i8) {
        self.put(8, &x.to_le_bytes());
    }
    fn write_i16(&mut self, x: i16) {
        self.put(9, &x.to_le_bytes());
    }
    fn write_i32(&mut self, x: i32) {
        self.put(10, &x.to_le_bytes());
    }
    fn write_i64(&mut self, x: i64) {
        self.put(11, &x.to_le_bytes());
    }
    fn write_i128(&mut self, x: i128) {
        self.put(12, &x.to_le_bytes());
    }
    fn write_isize(&mut self, x: isize) {
        self.put(13, &x.to_le_bytes());
    }
}

/// Sees only the bytes, as most hashers do.
#[derive(Default, PartialEq, Eq, Debug, Clone, Hash)]
pub struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn feed(f: impl Fn(&mut dyn Hasher)) -> (Calls, Bytes, u64) {
    let mut a = Calls::default();
    let mut b = Bytes::default();
    let mut c = std::collections::hash_map::DefaultHasher::new();
    f(&mut a);
    f(&mut b);
    f(&mut c);
    (a, b, c.finish())
}

fn judge(x: &(Calls, Bytes, u64), y: &(Calls, Bytes, u64), same: bool, what: &dyn Fn() -> String) -> R {
    if same {
        ensure!(x.1 == y.1, "equal containers feed different data {:02x?} and {:02x?}: {}", x.1 .0, y.1 .0, what());
        ensure!(x.0 == y.0, "equal containers make different calls of the hasher: {}", what());
        ensure!(x.2 == y.2, "equal containers hash to {:x} and {:x}: {}", x.2, y.2, what());
    } else {
        ensure!(x.0 != y.0, "different containers feed the same data {:02x?}: {}", x.1 .0, what());
        ensure!(x.1 != y.1, "different containers feed the same bytes {:02x?}: {}", x.1 .0, what());
    }
    Ok(())
}

fn map_pair<K: OrdMapApi, V: Val + Hash>(ctx: &mut Ctx, keys: &[K], c: &Content, d: &Content) -> R {
    let a: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let b: Map<K, V> = build_map(keys, d, &mut ctx.rng);
    let same = keys.iter().all(|k| a.get(*k) == b.get(*k));
    let x = feed(|mut h| K::map_hash(&a, &mut h));
    let y = feed(|mut h| K::map_hash(&b, &mut h));
    judge(&x, &y, same, &|| format!("maps {} and {}; values {}", show(c), show(d), V::NAME))?;
    let z = feed(|mut h| K::map_hash(&K::clone_map(&a), &mut h));
    judge(&x, &z, true, &|| format!("a map {} and its clone", show(c)))?;
    ctx.count(if same { "equal pairs" } else { "different pairs" }, 1);
    ctx.count("bytes hashed", x.1 .0.len() as u64);
    ctx.eval(fp(&[content_fp(c), content_fp(d), 1, u64::from(same)]));
    Ok(())
}

fn set_pair<K: OrdSetApi>(ctx: &mut Ctx, keys: &[K], c: &Content, d: &Content) -> R {
    let a: Set<K> = build_set(keys, c, &mut ctx.rng);
    let b: Set<K> = build_set(keys, d, &mut ctx.rng);
    let same = keys.iter().all(|k| a.contains(*k) == b.contains(*k));
    let x = feed(|mut h| K::set_hash(&a, &mut h));
    let y = feed(|mut h| K::set_hash(&b, &mut h));
    judge(&x, &y, same, &|| format!("sets {} and {}", show(c), show(d)))?;
    let xs = [a, K::clone_set(&b)];
    let ys = [b, xs[0].clone_of()];
    let p = feed(|mut h| K::set_hash_slice(&xs, &mut h));
    let q = feed(|mut h| K::set_hash_slice(&ys, &mut h));
    judge(&p, &q, same, &|| format!("slices of sets {} and {}, the other way round", show(c), show(d)))?;
    ctx.eval(fp(&[content_fp(c), content_fp(d), 2, u64::from(same)]));
    Ok(())
}

trait CloneOf {
    fn clone_of(&self) -> Self;
}
impl<K: OrdSetApi> CloneOf for Set<K> {
    fn clone_of(&self) -> Self {
        K::clone_set(self)
    }
}

/// All contents of a small universe: as many distinct streams as contents.
fn injective_sets<K: OrdSetApi>(ctx: &mut Ctx, keys: &[K]) -> R {
    let n = keys.len();
    let mut seen: HashMap<Bytes, u64> = HashMap::new();
    for mask in 0..1u64 << n {
        let c = crate::gen::mask_content(n, mask, &mut ctx.rng);
        let s: Set<K> = build_set(keys, &c, &mut ctx.rng);
        let x = feed(|mut h| K::set_hash(&s, &mut h));
        if let Some(o) = seen.insert(x.1, mask) {
            return Err(format!("sets with element masks {o:b} and {mask:b} feed the same data"));
        }
        ctx.eval(fp(&[mask, 3]));
    }
    ctx.count("complete universes of sets", 1);
    Ok(())
}

fn pairs(ctx: &mut Ctx, n: usize) -> Vec<(Content, Content)> {
    let f = ctx.factor;
    let rounds = if n <= 20 { 60 * f } else if n <= 70 { 30 * f } else { 10 * f };
    let mut out = Vec::new();
    for c in contents(n, rounds, 4, &mut ctx.rng) {
        out.push((c.clone(), c.clone()));
        for _ in 0..3 {
            let d = neighbour(&c, ctx);
            out.push((c.clone(), d));
        }
    }
    out
}

pub fn run_set<K: OrdSetApi>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    if n <= 9 {
        ctx.case("injective", |ctx| injective_sets::<K>(ctx, &keys));
    }
    for (c, d) in pairs(ctx, n) {
        ctx.case("sets", |ctx| set_pair::<K>(ctx, &keys, &c, &d));
        ctx.sample(|| format!("hash streams of sets {} and {}", show(&c), show(&d)));
    }
}

pub fn run<K: OrdMapApi, A: Val + Hash, B: Val + Hash>(ctx: &mut Ctx) {
    run_set::<K>(ctx);
    let keys = K::universe();
    for (c, d) in pairs(ctx, keys.len()) {
        ctx.case("maps", |ctx| map_pair::<K, A>(ctx, &keys, &c, &d));
        ctx.case("maps", |ctx| map_pair::<K, B>(ctx, &keys, &c, &d));
    }
}
