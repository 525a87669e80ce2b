//! C24: collecting equals inserting in sequence.

use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{observe, observe_set, show, Content};
use crate::shape::Api;
use crate::val::{ledger, ledger_reset, ledger_verdict, Tr, Val};

type Lie = (usize, Option<usize>);

/// What the collector did to the source.
#[derive(Default)]
struct Calls {
    into_iter: Cell<u64>,
    next: Cell<u64>,
    after_end: Cell<u64>,
    drops: Cell<u64>,
}

/// A source which lies about its length, ends at `end` and would go on.
struct Source<T> {
    items: std::vec::IntoIter<T>,
    end: usize,
    at: usize,
    hint: Option<Lie>,
    panic_at: Option<usize>,
    calls: Rc<Calls>,
}

impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        crate::ctx::beat();
        let c = &self.calls;
        c.next.set(c.next.get() + 1);
        if self.panic_at == Some(self.at) {
            panic!("the source panics");
        }
        let i = self.at;
        self.at += 1;
        if i > self.end {
            c.after_end.set(c.after_end.get() + 1);
        }
        if i == self.end {
            return None;
        }
        self.items.next()
    }
    fn size_hint(&self) -> Lie {
        self.hint.unwrap_or_else(|| {
            let n = self.end.saturating_sub(self.at);
            (n, Some(n))
        })
    }
}

impl<T> Drop for Source<T> {
    fn drop(&mut self) {
        self.calls.drops.set(self.calls.drops.get() + 1);
    }
}

struct Into1<T>(Source<T>);
impl<T> IntoIterator for Into1<T> {
    type Item = T;
    type IntoIter = Source<T>;
    fn into_iter(self) -> Source<T> {
        let c = self.0.calls.clone();
        c.into_iter.set(c.into_iter.get() + 1);
        self.0
    }
}

const LIES: [Option<Lie>; 9] = [
    None,
    Some((0, None)),
    Some((0, Some(0))),
    Some((1, Some(1))),
    Some((1000, Some(1000))),
    Some((usize::MAX, None)),
    Some((usize::MAX, Some(usize::MAX))),
    Some((0, Some(usize::MAX))),
    Some((usize::MAX, Some(0))),
];

fn source<T>(ctx: &mut Ctx, items: Vec<T>, end: usize) -> (Into1<T>, Rc<Calls>) {
    let calls = Rc::new(Calls::default());
    let s = Source {
        items: items.into_iter(),
        end,
        at: 0,
        hint: LIES[ctx.rng.below(LIES.len())],
        panic_at: None,
        calls: calls.clone(),
    };
    (Into1(s), calls)
}

fn stream<K: Api>(ctx: &mut Ctx, keys: &[K]) -> Vec<(usize, u64)> {
    let n = keys.len();
    if n == 0 {
        return Vec::new();
    }
    let len = match ctx.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => ctx.rng.below(2 * n + 3).min(300),
        4 => n,
        _ => (3 * n).min(300),
    };
    match ctx.rng.below(5) {
        // All keys, in order and against it.
        0 => (0..len).map(|i| (i % n, i as u64)).collect(),
        1 => (0..len).map(|i| (n - 1 - i % n, i as u64)).collect(),
        // Few keys, many duplicates.
        2 => (0..len).map(|i| (ctx.rng.below(n.min(2)), i as u64)).collect(),
        _ => (0..len).map(|i| (ctx.rng.below(n), ctx.rng.below(50) as u64 + i as u64 * 64)).collect(),
    }
}

fn model(n: usize, s: &[(usize, u64)], norm: impl Fn(u64) -> u64) -> Content {
    let mut c: Content = vec![None; n];
    for (i, x) in s {
        c[*i] = Some(norm(*x));
    }
    c
}

fn judge(calls: &Calls, taken: usize, what: &str) -> R {
    ensure!(calls.into_iter.get() == 1, "{what}: into_iter was called {} times", calls.into_iter.get());
    ensure!(calls.after_end.get() == 0, "{what}: {} items were requested after the end", calls.after_end.get());
    ensure!(
        calls.next.get() == taken as u64 + 1,
        "{what}: {} items were requested of {taken} and the end", calls.next.get()
    );
    ensure!(calls.drops.get() == 1, "{what}: the source was dropped {} times", calls.drops.get());
    Ok(())
}

fn maps<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], s: &[(usize, u64)]) -> R {
    let n = keys.len();
    let end = if ctx.rng.bool() { s.len() } else { ctx.rng.below(s.len() + 1) };
    let items: Vec<(K, V)> = s.iter().map(|(i, x)| (keys[*i], V::make(*x))).collect();
    let (src, calls) = source(ctx, items, end);
    let what = format!("{:?} cut at {end}, hint {:?}, values {}", s, src.0.hint, V::NAME);
    let m: Map<K, V> = if ctx.rng.bool() { Map::from_iter(src) } else { src.into_iter().collect() };
    judge(&calls, end, &what)?;
    let want = model(n, &s[..end], V::norm);
    let got = observe(&m, keys);
    ensure!(got == want, "{what}: collected {}, expected {}", show(&got), show(&want));
    ensure!(m.len() == want.iter().flatten().count(), "{what}: len is {}", m.len());
    // The same by insertion.
    let mut ins: Map<K, V> = Map::new();
    for (i, x) in &s[..end] {
        ins.insert(keys[*i], V::make(*x));
    }
    if K::map_eq(&ins, &ins) {
        ensure!(K::map_eq(&m, &ins), "{what}: collected and inserted differ");
    }
    let a: Vec<Option<usize>> = m.iter().map(|(k, _)| k.index()).collect();
    let b: Vec<Option<usize>> = ins.iter().map(|(k, _)| k.index()).collect();
    if K::FIXED {
        ensure!(a == b, "{what}: collected iterates {a:?}, inserted {b:?}");
    }
    ctx.eval(fp(&[1, end as u64, crate::rng::hash_str(&what)]));
    ctx.count("items collected", end as u64);
    Ok(())
}

/// Displaced values are dropped, nothing else is, and panics lose nothing.
fn owned<K: Api>(ctx: &mut Ctx, keys: &[K], s: &[(usize, u64)]) -> R {
    ledger_reset();
    let n = keys.len();
    let end = if ctx.rng.bool() { s.len() } else { ctx.rng.below(s.len() + 1) };
    let items: Vec<(K, Tr)> = s.iter().map(|(i, x)| (keys[*i], Tr::new(*x))).collect();
    let uids: Vec<u64> = items.iter().map(|(_, t)| t.uid).collect();
    let (src, calls) = source(ctx, items, end);
    let m: Map<K, Tr> = src.into_iter().collect();
    judge(&calls, end, "owned values")?;
    let mut want: Vec<Option<u64>> = vec![None; n];
    for (j, (i, _)) in s[..end].iter().enumerate() {
        want[*i] = Some(uids[j]);
    }
    for (i, k) in keys.iter().enumerate() {
        let got = m.get(*k).map(|t| t.uid);
        ensure!(got == want[i], "{s:?} cut at {end}: {k:?} holds value {got:?}, expected {:?}", want[i]);
    }
    let live = ledger(|l| l.live.len());
    let kept = want.iter().flatten().count();
    ensure!(live == kept, "{s:?} cut at {end}: {live} values alive, {kept} in the map");
    drop(m);
    ledger_verdict(0)?;
    // A source which panics at one item.
    for _ in 0..3 {
        let at = ctx.rng.below(s.len() + 1);
        let items: Vec<(K, Tr)> = s.iter().map(|(i, x)| (keys[*i], Tr::new(*x))).collect();
        let (mut src, calls) = source(ctx, items, s.len());
        src.0.panic_at = Some(at);
        let r = catch_unwind(AssertUnwindSafe(|| src.into_iter().collect::<Map<K, Tr>>()));
        ensure!(r.is_err(), "a panic of the source at item {at} does not reach the caller");
        drop(r);
        ensure!(calls.drops.get() == 1, "a panicking source was dropped {} times", calls.drops.get());
        ledger_verdict(0).map_err(|e| format!("the source panics at item {at} of {s:?}: {e}"))?;
        ctx.count("panicking sources", 1);
        ctx.eval(fp(&[2, at as u64, s.len() as u64]));
    }
    ctx.eval(fp(&[3, crate::rng::hash_str(&format!("{s:?}"))]));
    Ok(())
}

fn sets<K: Api>(ctx: &mut Ctx, keys: &[K], s: &[(usize, u64)]) -> R {
    let n = keys.len();
    let end = if ctx.rng.bool() { s.len() } else { ctx.rng.below(s.len() + 1) };
    let items: Vec<K> = s.iter().map(|(i, _)| keys[*i]).collect();
    let (src, calls) = source(ctx, items, end);
    let what = format!("set of {:?} cut at {end}, hint {:?}", s, src.0.hint);
    let m: Set<K> = if ctx.rng.bool() { Set::from_iter(src) } else { src.into_iter().collect() };
    judge(&calls, end, &what)?;
    let want = model(n, &s[..end], |_| 0);
    let got = observe_set(&m, keys);
    ensure!(got == want, "{what}: collected {}, expected {}", show(&got), show(&want));
    ensure!(m.len() == want.iter().flatten().count(), "{what}: len is {}", m.len());
    let mut ins: Set<K> = Set::new();
    for (i, _) in &s[..end] {
        ins.insert(keys[*i]);
    }
    ensure!(K::set_eq(&m, &ins), "{what}: collected and inserted differ");
    // A panicking source.
    let (mut src, calls) = source(ctx, s.iter().map(|(i, _)| keys[*i]).collect(), s.len());
    let at = ctx.rng.below(s.len() + 1);
    src.0.panic_at = Some(at);
    let r = catch_unwind(AssertUnwindSafe(|| src.into_iter().collect::<Set<K>>()));
    ensure!(r.is_err() && calls.drops.get() == 1, "{what}: a panic of the source at {at} is lost");
    ctx.eval(fp(&[4, end as u64, crate::rng::hash_str(&what)]));
    ctx.count("items collected", end as u64);
    Ok(())
}

fn array<K: Api, const N: usize>(ctx: &mut Ctx, keys: &[K]) -> R {
    if keys.is_empty() {
        return Ok(());
    }
    let n = keys.len();
    let idx: Vec<usize> = (0..N).map(|i| if ctx.rng.bool() { ctx.rng.below(n) } else { i % n }).collect();
    let mut arr = [keys[0]; N];
    for (a, i) in arr.iter_mut().zip(&idx) {
        *a = keys[*i];
    }
    let s: Set<K> = if ctx.rng.bool() { Set::from(arr) } else { arr.into() };
    let s2: Vec<(usize, u64)> = idx.iter().map(|i| (*i, 0)).collect();
    let want = model(n, &s2, |_| 0);
    let got = observe_set(&s, keys);
    ensure!(got == want, "from an array of {N} ({idx:?}): {}, expected {}", show(&got), show(&want));
    ensure!(s.len() == want.iter().flatten().count(), "from an array of {N} ({idx:?}): len is {}", s.len());
    let mut ins = Set::new();
    for i in &idx {
        ins.insert(keys[*i]);
    }
    ensure!(K::set_eq(&s, &ins), "from an array of {N} ({idx:?}): differs from inserting");
    ctx.eval(fp(&[5, N as u64, crate::rng::hash_str(&format!("{idx:?}"))]));
    Ok(())
}

/// Ordinary sources.
fn adapters<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], s: &[(usize, u64)]) -> R {
    let n = keys.len();
    let pair = |(i, x): &(usize, u64)| (keys[*i], V::make(*x));
    let want = model(n, s, V::norm);
    let cut = ctx.rng.below(s.len() + 1);
    let ms: Vec<(&str, Map<K, V>)> = vec![
        ("map", s.iter().map(pair).collect()),
        ("chain", s[..cut].iter().map(pair).chain(s[cut..].iter().map(pair)).collect()),
        ("filter", s.iter().filter(|_| true).map(pair).collect()),
        ("flat_map", s.iter().flat_map(|x| Some(pair(x))).collect()),
        ("into_iter", s.iter().map(pair).collect::<Vec<_>>().into_iter().collect()),
        ("from_fn", {
            let mut it = s.iter();
            std::iter::from_fn(move || it.next().map(pair)).collect()
        }),
        ("boxed", (Box::new(s.iter().map(pair)) as Box<dyn Iterator<Item = (K, V)> + '_>).collect()),
    ];
    for (name, m) in &ms {
        let got = observe(m, keys);
        ensure!(got == want, "{name} over {s:?}: collected {}, expected {}", show(&got), show(&want));
    }
    let r: Option<Map<K, V>> = s.iter().map(|x| Some(pair(x))).collect();
    ensure!(r.map(|m| observe(&m, keys)) == Some(want.clone()), "collected through Option differs: {s:?}");
    // A container's own iterators are sources as well.
    let (_, m) = ms.into_iter().next().unwrap();
    let again: Map<K, V> = m.iter().map(|(k, v)| (k, v.clone())).collect();
    ensure!(observe(&again, keys) == want, "collecting a map's own entries differs: {s:?}");
    let ks: Set<K> = m.keys().collect();
    ensure!(observe_set(&ks, keys).iter().map(Option::is_some).eq(want.iter().map(Option::is_some)), "collecting a map's keys differs: {s:?}");
    let ks2: Set<K> = ks.iter().collect();
    ensure!(K::set_eq(&ks, &ks2), "collecting a set's elements differs: {s:?}");
    let moved: Map<K, V> = m.into_iter().collect();
    ensure!(observe(&moved, keys) == want, "collecting a map's owned entries differs: {s:?}");
    ctx.eval(fp(&[6, crate::rng::hash_str(&format!("{s:?}"))]));
    Ok(())
}

pub fn run<K: Api, A: Val, B: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    let rounds = if n <= 20 { 30 * f } else if n <= 70 { 12 * f } else { 5 * f };
    ledger_reset();
    for _ in 0..rounds {
        let s = stream(ctx, &keys);
        ctx.case("maps", |ctx| maps::<K, A>(ctx, &keys, &s));
        ctx.case("maps", |ctx| maps::<K, B>(ctx, &keys, &s));
        ctx.case("owned", |ctx| owned::<K>(ctx, &keys, &s));
        ctx.case("sets", |ctx| sets::<K>(ctx, &keys, &s));
        ctx.case("adapters", |ctx| adapters::<K, A>(ctx, &keys, &s));
        ctx.case("arrays", |ctx| {
            array::<K, 0>(ctx, &keys)?;
            array::<K, 1>(ctx, &keys)?;
            array::<K, 2>(ctx, &keys)?;
            array::<K, 3>(ctx, &keys)?;
            array::<K, 8>(ctx, &keys)?;
            array::<K, 9>(ctx, &keys)?;
            array::<K, 40>(ctx, &keys)?;
            array::<K, 130>(ctx, &keys)
        });
        ctx.sample(|| format!("collecting {s:?}"));
    }
    ctx.case("ownership", |_| ledger_verdict(0));
}
