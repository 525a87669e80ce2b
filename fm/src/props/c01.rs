//! C01: a map is a dictionary for every history of point operations.

use fixed_map::Map;

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{contents, present, show, Content};
use crate::shape::Shape;
use crate::val::{ledger_reset, ledger_verdict, Val};

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(usize, u64),
    Remove(usize),
    Get(usize),
    GetMut(usize, Option<u64>),
    Contains(usize),
    Clear,
    Len,
    IsEmpty,
}

fn full<K: Shape, V: Val>(m: &Map<K, V>, keys: &[K], model: &Content) -> R {
    for (i, k) in keys.iter().enumerate() {
        let got = m.get(*k).map(Val::sig);
        let want = model[i].map(V::norm);
        ensure!(got == want, "get({k:?}) is {got:?}, expected {want:?}; model {}", show(model));
        let c = m.contains_key(*k);
        ensure!(c == want.is_some(), "contains_key({k:?}) is {c}; model {}", show(model));
    }
    let n = present(model);
    ensure!(m.len() == n, "len() is {}, expected {n}; model {}", m.len(), show(model));
    ensure!(
        m.is_empty() == (n == 0),
        "is_empty() is {} with {n} entries; model {}",
        m.is_empty(),
        show(model)
    );
    Ok(())
}

fn apply<K: Shape, V: Val>(m: &mut Map<K, V>, keys: &[K], model: &mut Content, op: Op) -> R {
    crate::ctx::beat();
    match op {
        Op::Insert(i, x) => {
            let got = m.insert(keys[i], V::make(x)).map(|v| v.sig());
            let want = model[i].map(V::norm);
            ensure!(got == want, "insert({:?}, {x}) returns {got:?}, expected {want:?}", keys[i]);
            model[i] = Some(x);
        }
        Op::Remove(i) => {
            let got = m.remove(keys[i]).map(|v| v.sig());
            let want = model[i].map(V::norm);
            ensure!(got == want, "remove({:?}) returns {got:?}, expected {want:?}", keys[i]);
            model[i] = None;
        }
        Op::Get(i) => {
            let got = m.get(keys[i]).map(Val::sig);
            let want = model[i].map(V::norm);
            ensure!(got == want, "get({:?}) returns {got:?}, expected {want:?}", keys[i]);
        }
        Op::GetMut(i, w) => {
            let want = model[i].map(V::norm);
            let mut got = None;
            if let Some(v) = m.get_mut(keys[i]) {
                got = Some(v.sig());
                if let Some(w) = w {
                    *v = V::make(w);
                    model[i] = Some(w);
                }
            }
            ensure!(got == want, "get_mut({:?}) returns {got:?}, expected {want:?}", keys[i]);
        }
        Op::Contains(i) => {
            let got = m.contains_key(keys[i]);
            let want = model[i].is_some();
            ensure!(got == want, "contains_key({:?}) returns {got}, expected {want}", keys[i]);
        }
        Op::Clear => {
            m.clear();
            model.iter_mut().for_each(|x| *x = None);
        }
        Op::Len => {
            let (got, want) = (m.len(), present(model));
            ensure!(got == want, "len() returns {got}, expected {want}");
        }
        Op::IsEmpty => {
            let (got, want) = (m.is_empty(), present(model) == 0);
            ensure!(got == want, "is_empty() returns {got}, expected {want}");
        }
    }
    Ok(())
}

fn kind(op: Op) -> u64 {
    match op {
        Op::Insert(i, _) => 8 * i as u64,
        Op::Remove(i) => 8 * i as u64 + 1,
        Op::Get(i) => 8 * i as u64 + 2,
        Op::GetMut(i, None) => 8 * i as u64 + 3,
        Op::GetMut(i, _) => 8 * i as u64 + 4,
        Op::Contains(i) => 8 * i as u64 + 5,
        Op::Clear => 6,
        Op::Len => 7,
        Op::IsEmpty => 15,
    }
}

fn history<K: Shape, V: Val>(ctx: &mut Ctx, keys: &[K], len: usize) -> R {
    let n = keys.len();
    let mut m: Map<K, V> = if ctx.rng.bool() { Map::new() } else { Map::default() };
    let mut model: Content = vec![None; n];
    let mut log: Vec<Op> = Vec::with_capacity(len);
    let focus = 1 + ctx.rng.below(n.max(1));
    let base = ctx.rng.below(n.max(1));
    let fill = ctx.rng.below(4);
    full(&m, keys, &model).map_err(|e| format!("fresh map: {e}"))?;
    if ctx.rng.chance(1, 3) {
        // Start full, or with a few keys missing.
        let mut order: Vec<usize> = (0..n).collect();
        ctx.rng.shuffle(&mut order);
        let spare = if ctx.rng.bool() { 0 } else { ctx.rng.below(n.max(1)).min(4) };
        for i in order.into_iter().skip(spare) {
            let x = crate::gen::small(&mut ctx.rng);
            log.push(Op::Insert(i, x));
            apply(&mut m, keys, &mut model, Op::Insert(i, x))
                .and_then(|()| apply(&mut m, keys, &mut model, Op::Len))
                .map_err(|e| format!("filling up: {e}; value type {}; model {}", V::NAME, show(&model)))?;
        }
        full(&m, keys, &model).map_err(|e| format!("filled up: {e}; value type {}", V::NAME))?;
        ctx.count("histories starting full", 1);
    }
    for step in 0..len {
        let i = if n == 0 { 0 } else { (base + ctx.rng.below(focus)) % n };
        let x = crate::gen::small(&mut ctx.rng);
        let op = match ctx.rng.below(16 + 4 * fill) {
            0..=2 => Op::Remove(i),
            3 | 4 => Op::Get(i),
            5 => Op::GetMut(i, None),
            6 | 7 => Op::GetMut(i, Some(x)),
            8 => Op::Contains(i),
            9 if ctx.rng.chance(1, 4) => Op::Clear,
            9 | 10 => Op::Len,
            11 => Op::IsEmpty,
            _ => Op::Insert(i, x),
        };
        if n == 0 && !matches!(op, Op::Clear | Op::Len | Op::IsEmpty) {
            continue;
        }
        log.push(op);
        ctx.eval(fp(&[kind(op), crate::gen::content_fp(&model)]));
        let r = apply(&mut m, keys, &mut model, op).and_then(|()| {
            if n <= 16 || step % 16 == 15 || step + 1 == len {
                full(&m, keys, &model)
            } else {
                // The key itself and a few others.
                for j in [i, (i + 1) % n, (i + n - 1) % n, base] {
                    let got = m.get(keys[j]).map(Val::sig);
                    let want = model[j].map(V::norm);
                    ensure!(got == want, "get({:?}) is {got:?}, expected {want:?}", keys[j]);
                }
                Ok(())
            }
        });
        if let Err(e) = r {
            let names: Vec<String> = log
                .iter()
                .rev()
                .take(40)
                .rev()
                .map(|o| format!("{o:?}"))
                .collect();
            return Err(format!("{e}; value type {}; history (key numbers, last 40): {}", V::NAME, names.join(", ")));
        }
    }
    ctx.sample(|| format!("value type {}, {} operations, e.g. {:?}", V::NAME, log.len(), &log[..log.len().min(8)]));
    Ok(())
}

/// Every state of a small universe, every operation, every key.
fn exhaustive<K: Shape, V: Val>(ctx: &mut Ctx, keys: &[K], limit: usize) -> R {
    let n = keys.len();
    if n > limit {
        return Ok(());
    }
    let cs = contents(n, 0, limit, &mut ctx.rng);
    for c in cs {
        for i in 0..n {
            for o in 0..8 {
                let op = match o {
                    0 => Op::Insert(i, 1000 + i as u64),
                    1 => Op::Remove(i),
                    2 => Op::Get(i),
                    3 => Op::GetMut(i, None),
                    4 => Op::GetMut(i, Some(2000 + i as u64)),
                    5 => Op::Contains(i),
                    6 if i == 0 => Op::Clear,
                    7 if i == 0 => Op::Len,
                    _ => continue,
                };
                let mut m = Map::<K, V>::new();
                let mut model = vec![None; n];
                for (j, x) in c.iter().enumerate() {
                    if let Some(x) = x {
                        apply(&mut m, keys, &mut model, Op::Insert(j, *x))?;
                    }
                }
                ctx.eval(fp(&[kind(op), crate::gen::content_fp(&model), 77]));
                full(&m, keys, &model)
                    .and_then(|()| apply(&mut m, keys, &mut model, op))
                    .and_then(|()| full(&m, keys, &model))
                    .map_err(|e| format!("{e}; value type {}; content {} then {op:?}", V::NAME, show(&c)))?;
            }
        }
    }
    ctx.count("small universes enumerated", 1);
    Ok(())
}

fn with_value<K: Shape, V: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ledger_reset();
    ctx.case("exhaustive", |ctx| exhaustive::<K, V>(ctx, &keys, if f > 1 { 7 } else { 5 }));
    let (rounds, len) = if n <= 16 { (24 * f, 60) } else if n <= 64 { (10 * f, 150) } else { (4 * f, 400) };
    for _ in 0..rounds {
        ctx.case("history", |ctx| history::<K, V>(ctx, &keys, len));
        ctx.count("histories", 1);
    }
    // The deep universe of a hashed key is covered by `WIDE`.
    let _ = ledger_verdict(0);
}

pub fn run<K: Shape, A: Val, B: Val>(ctx: &mut Ctx) {
    with_value::<K, A>(ctx);
    with_value::<K, B>(ctx);
}
