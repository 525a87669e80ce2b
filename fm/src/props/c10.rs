//! C10: every stored value is owned and dropped exactly once.

use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::Map;

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::iters::{MapSrc, View};
use crate::shape::{Api, Shape};
use crate::val::{ledger, ledger_reset, Tr, Val};

/// The identity of the value each key should hold.
type Model = Vec<Option<u64>>;

struct World<K: Shape> {
    keys: Vec<K>,
    maps: Vec<(Map<K, Tr>, Model)>,
    /// Values handed back to us and kept.
    held: Vec<Tr>,
    next: u64,
}

impl<K: Api> World<K> {
    fn value(&mut self) -> (Tr, u64) {
        self.next += 1;
        let t = Tr::new(self.next);
        let u = t.uid;
        (t, u)
    }

    /// The ledger's live values are exactly those the models hold.
    fn balance(&self, what: &str) -> R {
        crate::ctx::beat();
        let mut want: BTreeSet<u64> = self.held.iter().map(|t| t.uid).collect();
        for (n, (m, model)) in self.maps.iter().enumerate() {
            for (i, u) in model.iter().enumerate() {
                let got = m.get(self.keys[i]).map(|t| {
                    t.check();
                    t.uid
                });
                ensure!(got == *u, "{what}: map {n} holds value {got:?} for {:?}, expected {u:?}", self.keys[i]);
                if let Some(u) = u {
                    ensure!(want.insert(*u), "{what}: value {u} is in two places");
                }
            }
        }
        ledger(|l| {
            if let Some(e) = l.errors.first() {
                return Err(format!("{what}: {e}"));
            }
            let live: BTreeSet<u64> = l.live.keys().copied().collect();
            if live != want {
                let lost: Vec<_> = want.difference(&live).take(4).collect();
                let extra: Vec<_> = live.difference(&want).take(4).collect();
                return Err(format!(
                    "{what}: dropped although still owned: {lost:?}; kept alive although given up: {extra:?} ({} live, {} owned)",
                    live.len(),
                    want.len()
                ));
            }
            Ok(())
        })
    }

    fn keep(&mut self, ctx: &mut Ctx, v: Tr) {
        if ctx.rng.bool() && self.held.len() < 8 {
            self.held.push(v);
        }
    }
}

fn adopt<K: Api>(w: &mut World<K>, src: &Model, m: Map<K, Tr>, before_clones: usize, what: &str) -> Result<(Map<K, Tr>, Model), String> {
    // Each value of the source was cloned exactly once, and lives in its place.
    let mut model: Model = Vec::new();
    for (i, k) in w.keys.iter().enumerate() {
        model.push(m.get(*k).map(|t| t.uid));
        ensure!(
            model[i].is_some() == src[i].is_some(),
            "{what}: {k:?} is {} in the clone, {} in the original",
            if model[i].is_some() { "present" } else { "absent" },
            if src[i].is_some() { "present" } else { "absent" }
        );
    }
    let mut cloned: Vec<u64> = ledger(|l| l.clones_of[before_clones..].to_vec());
    let mut want: Vec<u64> = src.iter().filter_map(|x| *x).collect();
    cloned.sort_unstable();
    want.sort_unstable();
    ensure!(cloned == want, "{what}: values cloned are {cloned:?}, stored were {want:?}");
    Ok((m, model))
}

const OPS: usize = 24;

fn op<K: Api>(ctx: &mut Ctx, w: &mut World<K>, o: usize) -> R {
    let n = w.keys.len();
    let a = ctx.rng.below(w.maps.len());
    let i = ctx.rng.below(n.max(1));
    let k = w.keys.get(i).copied();
    match o {
        0 | 1 | 2 => {
            let Some(k) = k else { return Ok(()) };
            let (v, u) = w.value();
            let old = w.maps[a].0.insert(k, v);
            ensure!(old.as_ref().map(|t| t.uid) == w.maps[a].1[i], "insert({k:?}) hands back {:?}, stored was {:?}", old.as_ref().map(|t| t.uid), w.maps[a].1[i]);
            w.maps[a].1[i] = Some(u);
            if let Some(o) = old {
                w.keep(ctx, o);
            }
        }
        3 => {
            let Some(k) = k else { return Ok(()) };
            let old = w.maps[a].0.remove(k);
            ensure!(old.as_ref().map(|t| t.uid) == w.maps[a].1[i], "remove({k:?}) hands back {:?}, stored was {:?}", old.as_ref().map(|t| t.uid), w.maps[a].1[i]);
            w.maps[a].1[i] = None;
            if let Some(o) = old {
                w.keep(ctx, o);
            }
        }
        4 => {
            if ctx.rng.chance(1, 3) {
                w.maps[a].0.clear();
                w.maps[a].1.iter_mut().for_each(|x| *x = None);
            }
        }
        5 | 6 => {
            let bits = ctx.rng.u64();
            let rep = ctx.rng.bool();
            let mut next = w.next;
            let (m, model) = &mut w.maps[a];
            let mut bad = None;
            m.retain(|k, v| {
                let Some(i) = k.index() else {
                    bad = Some(format!("retain shows {k:?}"));
                    return true;
                };
                let x = crate::rng::mix(bits ^ i as u64);
                if rep && x & 2 == 2 {
                    next += 1;
                    let t = Tr::new(next);
                    model[i] = Some(t.uid);
                    *v = t;
                }
                if x & 1 == 1 {
                    model[i] = None;
                    false
                } else {
                    true
                }
            });
            w.next = next;
            if let Some(b) = bad {
                return Err(b);
            }
        }
        7 => {
            let Some(k) = k else { return Ok(()) };
            let (v, u) = w.value();
            let (m, model) = &mut w.maps[a];
            // On an occupied entry the value supplied is dropped.
            let r = m.entry(k).or_insert(v);
            let now = r.uid;
            model[i] = Some(model[i].unwrap_or(u));
            ensure!(Some(now) == model[i], "or_insert({k:?}) designates value {now}");
        }
        8 => {
            let Some(k) = k else { return Ok(()) };
            w.next += 1;
            let p = w.next;
            let (m, model) = &mut w.maps[a];
            let r = m.entry(k).and_modify(|v| *v = Tr::new(p)).or_insert_with(|| Tr::new(p));
            ensure!(r.payload == p, "and_modify/or_insert_with({k:?}) designates {:?}", r.payload);
            model[i] = Some(r.uid);
        }
        9 => {
            let Some(k) = k else { return Ok(()) };
            let (v, u) = w.value();
            let (m, model) = &mut w.maps[a];
            match m.entry(k) {
                Entry::Occupied(mut e) => {
                    let old = e.insert(v);
                    ensure!(Some(old.uid) == model[i], "occupied insert hands back {}", old.uid);
                    model[i] = Some(u);
                }
                Entry::Vacant(e) => {
                    e.insert(v);
                    model[i] = Some(u);
                }
            }
        }
        10 => {
            let Some(k) = k else { return Ok(()) };
            let (m, model) = &mut w.maps[a];
            let mut got = None;
            match m.entry(k) {
                Entry::Occupied(e) => {
                    let old = e.remove();
                    ensure!(Some(old.uid) == model[i], "occupied remove hands back {}", old.uid);
                    model[i] = None;
                    got = Some(old);
                }
                Entry::Vacant(_) => {}
            }
            if let Some(o) = got {
                w.keep(ctx, o);
            }
        }
        11 => {
            // or_default, or an entry merely looked at.
            let Some(k) = k else { return Ok(()) };
            let (m, model) = &mut w.maps[a];
            if ctx.rng.bool() {
                let r = m.entry(k).or_default();
                ensure!(model[i].is_none() || model[i] == Some(r.uid), "or_default replaced a value");
                model[i] = Some(r.uid);
            } else {
                drop(m.entry(k));
            }
        }
        12 | 13 => {
            // Clone into a new or an existing map.
            let before = ledger(|l| l.clones_of.len());
            let src = w.maps[a].1.clone();
            if w.maps.len() < 4 && ctx.rng.bool() {
                let c = K::clone_map(&w.maps[a].0);
                let c = adopt(w, &src, c, before, "clone")?;
                w.maps.push(c);
            } else {
                let b = ctx.rng.below(w.maps.len());
                if a != b {
                    let mut t = std::mem::take(&mut w.maps[b].0);
                    K::clone_map_from(&mut t, &w.maps[a].0);
                    let c = adopt(w, &src, t, before, "clone_from")?;
                    w.maps[b] = c;
                }
            }
        }
        14 => {
            // A map goes away.
            if w.maps.len() > 1 {
                w.maps.remove(a);
            } else {
                w.maps[a].0 = Map::new();
                w.maps[a].1.iter_mut().for_each(|x| *x = None);
            }
        }
        15 | 16 => {
            // Owned iteration, abandoned anywhere.
            let m = std::mem::take(&mut w.maps[a].0);
            let model = std::mem::replace(&mut w.maps[a].1, vec![None; n]);
            let mut it = m.into_iter();
            let stop = ctx.rng.below(n + 2);
            let mut seen = BTreeMap::new();
            for _ in 0..stop {
                let Some((k, v)) = it.next() else { break };
                v.check();
                let Some(i) = k.index() else { return Err(format!("into_iter yields {k:?}")) };
                ensure!(model[i] == Some(v.uid), "into_iter pairs {k:?} with value {}, stored was {:?}", v.uid, model[i]);
                ensure!(seen.insert(i, ()).is_none(), "into_iter yields {k:?} twice");
                w.keep(ctx, v);
            }
            // What was not taken is still owned by the iterator.
            let held: BTreeSet<u64> = w.held.iter().map(|t| t.uid).collect();
            let left = model.iter().enumerate().filter(|(i, u)| u.is_some() && !seen.contains_key(i)).count();
            let others: usize = w.maps.iter().map(|m| crate::gen::present(&m.1)).sum();
            let live = ledger(|l| l.live.len());
            ensure!(
                live == held.len() + others + left,
                "in the middle of owned iteration {live} values are alive, expected {} ({left} left in the iterator)",
                held.len() + others + left
            );
            match ctx.rng.below(5) {
                0 => {
                    let c = it.count();
                    ensure!(c == left, "count of the rest is {c}, {left} were left");
                }
                1 => {
                    let l = it.last();
                    ensure!(l.is_some() == (left > 0), "last of the rest");
                }
                2 => {
                    let j = ctx.rng.below(n + 1);
                    let x = it.nth(j);
                    ensure!(x.is_some() == (j < left), "nth({j}) of {left} left is {}", x.is_some());
                    drop(it);
                }
                3 => it.for_each(|(_, v)| v.check()),
                _ => drop(it),
            }
        }
        17 | 18 => {
            // Owned iteration from both ends, and its clones.
            let m = std::mem::take(&mut w.maps[a].0);
            let model = std::mem::replace(&mut w.maps[a].1, vec![None; n]);
            let total = crate::gen::present(&model);
            let mut it = K::view(MapSrc::Own(m), View::Into);
            let mut taken = 0;
            for _ in 0..ctx.rng.below(n + 2) {
                let x = if it.double_ended() && ctx.rng.bool() { it.next_back() } else { it.next() };
                taken += usize::from(x.is_some());
            }
            if let Some(d) = it.dup() {
                let others: usize = w.maps.iter().map(|m| crate::gen::present(&m.1)).sum::<usize>() + w.held.len();
                let live = ledger(|l| l.live.len());
                ensure!(
                    live == others + 2 * (total - taken),
                    "an owned iterator with {} items left and its clone own {} values",
                    total - taken,
                    live as i64 - others as i64
                );
                let mut d = d;
                for _ in 0..ctx.rng.below(4) {
                    d.next();
                }
                drop(d);
            }
            drop(it);
        }
        19 | 20 => {
            // Collect, with duplicates: displaced values are dropped.
            let len = ctx.rng.below(n + 3);
            let mut pairs = Vec::new();
            let mut model: Model = vec![None; n];
            if n > 0 {
                for _ in 0..len {
                    let j = ctx.rng.below(n);
                    let (v, u) = w.value();
                    model[j] = Some(u);
                    pairs.push((w.keys[j], v));
                }
            }
            let m: Map<K, Tr> = pairs.into_iter().collect();
            if w.maps.len() < 4 {
                w.maps.push((m, model));
            } else {
                w.maps[a] = (m, model);
            }
        }
        21 => {
            // Values trade places.
            let (m, model) = &mut w.maps[a];
            let mut refs: Vec<(K, &mut Tr)> = m.iter_mut().collect();
            if refs.len() >= 2 {
                let x = ctx.rng.below(refs.len());
                let y = ctx.rng.below(refs.len());
                if x != y {
                    let (p, q) = (x.min(y), x.max(y));
                    let (l, r) = refs.split_at_mut(q);
                    std::mem::swap(&mut *l[p].1, &mut *r[0].1);
                    let (Some(i), Some(j)) = (l[p].0.index(), r[0].0.index()) else {
                        return Err("iter_mut yields a foreign key".into());
                    };
                    model.swap(i, j);
                }
            }
        }
        22 => {
            // Taken out through a mutable reference.
            let Some(k) = k else { return Ok(()) };
            let (v, u) = w.value();
            let (m, model) = &mut w.maps[a];
            if let Some(slot) = m.get_mut(k) {
                let old = std::mem::replace(slot, v);
                ensure!(Some(old.uid) == model[i], "get_mut designates value {}", old.uid);
                model[i] = Some(u);
            }
        }
        _ => {
            // Looking never moves anything.
            let (m, _) = &w.maps[a];
            let _ = format!("{m:?}");
            let b = ctx.rng.below(w.maps.len());
            let _ = K::map_eq(m, &w.maps[b].0);
            let _ = m.values().count();
            for v in w.maps[a].0.values_mut() {
                v.check();
            }
        }
    }
    Ok(())
}

fn history<K: Api>(ctx: &mut Ctx, keys: &[K], len: usize) -> R {
    ledger_reset();
    let n = keys.len();
    let mut w = World { keys: keys.to_vec(), maps: vec![(Map::new(), vec![None; n])], held: Vec::new(), next: 0 };
    let mut log = Vec::new();
    for _ in 0..len {
        let mut o = ctx.rng.below(OPS);
        if ctx.rng.chance(1, 3) {
            o = 0;
        }
        log.push(o);
        let shape: u64 = fp(&w.maps.iter().map(|m| crate::gen::content_fp(&m.1)).collect::<Vec<_>>());
        ctx.eval(fp(&[o as u64, shape]));
        let r = op(ctx, &mut w, o).and_then(|()| w.balance(&format!("after operation #{o}")));
        if let Err(e) = r {
            let t: Vec<_> = log.iter().rev().take(30).rev().collect();
            std::mem::forget(w);
            return Err(format!("{e}; operations (last 30): {t:?}"));
        }
    }
    ctx.sample(|| format!("{len} operations on up to 4 maps, e.g. {:?}", &log[..log.len().min(12)]));
    drop(w);
    let (made, cloned, dropped) = ledger(|l| (l.made, l.cloned, l.dropped));
    ctx.count("values created", made);
    ctx.count("values cloned", cloned);
    ctx.count("values dropped", dropped);
    ledger(|l| {
        if let Some(e) = l.errors.first() {
            return Err(e.clone());
        }
        if !l.live.is_empty() {
            return Err(format!("{} values are never dropped", l.live.len()));
        }
        if l.made + l.cloned != l.dropped {
            return Err(format!("{} values created, {} dropped", l.made + l.cloned, l.dropped));
        }
        Ok(())
    })
}

thread_local! {
    static ZSTS: Cell<i64> = const { Cell::new(0) };
}

/// A value of no size whose number matters.
#[derive(Debug)]
struct Token;
impl Token {
    fn new() -> Token {
        ZSTS.with(|z| z.set(z.get() + 1));
        Token
    }
}
impl Clone for Token {
    fn clone(&self) -> Token {
        Token::new()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        ZSTS.with(|z| z.set(z.get() - 1));
    }
}

fn tokens<K: Api>(ctx: &mut Ctx, keys: &[K]) -> R {
    ZSTS.with(|z| z.set(0));
    let n = keys.len();
    if n == 0 {
        return Ok(());
    }
    let mut m: Map<K, Token> = Map::new();
    let mut have = vec![false; n];
    for s in 0..200 {
        let i = ctx.rng.below(n);
        let o = ctx.rng.below(8);
        match o {
            0..=2 => {
                drop(m.insert(keys[i], Token::new()));
                have[i] = true;
            }
            3 => {
                drop(m.remove(keys[i]));
                have[i] = false;
            }
            4 => {
                m.entry(keys[i]).or_insert(Token::new());
                have[i] = true;
            }
            5 => {
                m.retain(|k, _| match k.index() {
                    Some(i) => {
                        have[i] = i % 2 == 0;
                        have[i]
                    }
                    None => true,
                });
            }
            6 if s % 5 == 0 => {
                let mut it = std::mem::take(&mut m).into_iter();
                for _ in 0..ctx.rng.below(n + 1) {
                    it.next();
                }
                have.iter_mut().for_each(|x| *x = false);
            }
            _ => {
                let c = K::clone_map(&m);
                let live = ZSTS.with(Cell::get);
                let want = 2 * have.iter().filter(|x| **x).count() as i64;
                ensure!(live == want, "a map and its clone own {live} values of size zero, expected {want}");
                if s % 3 == 0 {
                    m = c;
                }
            }
        }
        let live = ZSTS.with(Cell::get);
        let want = have.iter().filter(|x| **x).count() as i64;
        ensure!(live == want, "after operation #{o} {live} values of size zero are alive, expected {want}");
        ctx.eval(fp(&[500 + o as u64, i as u64, want as u64]));
    }
    drop(m);
    let live = ZSTS.with(Cell::get);
    ensure!(live == 0, "{live} values of size zero survive their map");
    Ok(())
}

pub fn run<K: Api>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    let (rounds, len) = if n <= 20 { (12 * f, 120) } else if n <= 70 { (4 * f, 150) } else { (2 * f, 120) };
    for _ in 0..rounds {
        ctx.case("history", |ctx| history::<K>(ctx, &keys, len));
    }
    for _ in 0..2 * f {
        ctx.case("zero sized", |ctx| tokens::<K>(ctx, &keys));
    }
    let _ = <Tr as Val>::NAME;
}
