//! C02: a set is a mathematical set for every history of point operations.

use fixed_map::Set;

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{content_fp, contents, present, show, Content};
use crate::shape::Shape;

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(usize),
    Remove(usize),
    Contains(usize),
    Clear,
    Len,
    IsEmpty,
}

fn full<K: Shape>(m: &Set<K>, keys: &[K], model: &Content) -> R {
    for (i, k) in keys.iter().enumerate() {
        let (got, want) = (m.contains(*k), model[i].is_some());
        ensure!(got == want, "contains({k:?}) is {got}, expected {want}; model {}", show(model));
    }
    let n = present(model);
    ensure!(m.len() == n, "len() is {}, expected {n}; model {}", m.len(), show(model));
    ensure!(
        m.is_empty() == (n == 0),
        "is_empty() is {} with {n} elements; model {}",
        m.is_empty(),
        show(model)
    );
    Ok(())
}

fn apply<K: Shape>(m: &mut Set<K>, keys: &[K], model: &mut Content, op: Op) -> R {
    crate::ctx::beat();
    match op {
        Op::Insert(i) => {
            let (got, want) = (m.insert(keys[i]), model[i].is_none());
            ensure!(got == want, "insert({:?}) returns {got}, expected {want}; model before {}", keys[i], show(model));
            model[i] = Some(0);
        }
        Op::Remove(i) => {
            let (got, want) = (m.remove(keys[i]), model[i].is_some());
            ensure!(got == want, "remove({:?}) returns {got}, expected {want}; model before {}", keys[i], show(model));
            model[i] = None;
        }
        Op::Contains(i) => {
            let (got, want) = (m.contains(keys[i]), model[i].is_some());
            ensure!(got == want, "contains({:?}) returns {got}, expected {want}", keys[i]);
        }
        Op::Clear => {
            m.clear();
            model.iter_mut().for_each(|x| *x = None);
        }
        Op::Len => {
            let (got, want) = (m.len(), present(model));
            ensure!(got == want, "len() returns {got}, expected {want}");
        }
        Op::IsEmpty => {
            let (got, want) = (m.is_empty(), present(model) == 0);
            ensure!(got == want, "is_empty() returns {got}, expected {want}");
        }
    }
    Ok(())
}

fn kind(op: Op) -> u64 {
    match op {
        Op::Insert(i) => 4 * i as u64,
        Op::Remove(i) => 4 * i as u64 + 1,
        Op::Contains(i) => 4 * i as u64 + 2,
        Op::Clear => 3,
        Op::Len => 7,
        Op::IsEmpty => 11,
    }
}

fn history<K: Shape>(ctx: &mut Ctx, keys: &[K], len: usize) -> R {
    let n = keys.len();
    let mut m: Set<K> = if ctx.rng.bool() { Set::new() } else { Set::default() };
    let mut model: Content = vec![None; n];
    let mut log: Vec<Op> = Vec::with_capacity(len);
    let focus = 1 + ctx.rng.below(n.max(1));
    let base = ctx.rng.below(n.max(1));
    let fill = ctx.rng.below(4);
    full(&m, keys, &model).map_err(|e| format!("fresh set: {e}"))?;
    if ctx.rng.chance(1, 3) {
        // Start full, or with a few elements missing.
        let mut order: Vec<usize> = (0..n).collect();
        ctx.rng.shuffle(&mut order);
        let spare = if ctx.rng.bool() { 0 } else { ctx.rng.below(n.max(1)).min(4) };
        for i in order.into_iter().skip(spare) {
            log.push(Op::Insert(i));
            apply(&mut m, keys, &mut model, Op::Insert(i))
                .and_then(|()| apply(&mut m, keys, &mut model, Op::Len))
                .map_err(|e| format!("filling up: {e}; model {}", show(&model)))?;
        }
        full(&m, keys, &model).map_err(|e| format!("filled up: {e}"))?;
        ctx.count("histories starting full", 1);
    }
    for step in 0..len {
        let i = if n == 0 { 0 } else { (base + ctx.rng.below(focus)) % n };
        let op = match ctx.rng.below(12 + 4 * fill) {
            0..=3 => Op::Remove(i),
            4 => Op::Contains(i),
            5 if ctx.rng.chance(1, 4) => Op::Clear,
            5 | 6 => Op::Len,
            7 => Op::IsEmpty,
            _ => Op::Insert(i),
        };
        if n == 0 && !matches!(op, Op::Clear | Op::Len | Op::IsEmpty) {
            continue;
        }
        log.push(op);
        ctx.eval(fp(&[kind(op), content_fp(&model)]));
        let r = apply(&mut m, keys, &mut model, op).and_then(|()| {
            if n <= 16 || step % 16 == 15 || step + 1 == len {
                full(&m, keys, &model)
            } else {
                for j in [i, (i + 1) % n, (i + n - 1) % n, base] {
                    let (got, want) = (m.contains(keys[j]), model[j].is_some());
                    ensure!(got == want, "contains({:?}) is {got}, expected {want}", keys[j]);
                }
                Ok(())
            }
        });
        if let Err(e) = r {
            let names: Vec<String> =
                log.iter().rev().take(40).rev().map(|o| format!("{o:?}")).collect();
            return Err(format!("{e}; history (key numbers, last 40): {}", names.join(", ")));
        }
    }
    ctx.sample(|| format!("{} operations, e.g. {:?}", log.len(), &log[..log.len().min(8)]));
    Ok(())
}

fn exhaustive<K: Shape>(ctx: &mut Ctx, keys: &[K], limit: usize) -> R {
    let n = keys.len();
    if n > limit {
        return Ok(());
    }
    for c in contents(n, 0, limit, &mut ctx.rng) {
        for i in 0..n {
            for o in 0..5 {
                let op = match o {
                    0 => Op::Insert(i),
                    1 => Op::Remove(i),
                    2 => Op::Contains(i),
                    3 if i == 0 => Op::Clear,
                    4 if i == 0 => Op::IsEmpty,
                    _ => continue,
                };
                let mut m = Set::<K>::new();
                let mut model = vec![None; n];
                for (j, x) in c.iter().enumerate() {
                    if x.is_some() {
                        apply(&mut m, keys, &mut model, Op::Insert(j))?;
                    }
                }
                ctx.eval(fp(&[kind(op), content_fp(&model), 77]));
                full(&m, keys, &model)
                    .and_then(|()| apply(&mut m, keys, &mut model, op))
                    .and_then(|()| full(&m, keys, &model))
                    .map_err(|e| format!("{e}; content {} then {op:?}", show(&c)))?;
            }
        }
    }
    ctx.count("small universes enumerated", 1);
    Ok(())
}

pub fn run<K: Shape>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ctx.case("exhaustive", |ctx| exhaustive::<K>(ctx, &keys, if f > 1 { 9 } else { 7 }));
    let (rounds, len) = if n <= 16 { (40 * f, 60) } else if n <= 64 { (16 * f, 150) } else { (8 * f, 400) };
    for _ in 0..rounds {
        ctx.case("history", |ctx| history::<K>(ctx, &keys, len));
        ctx.count("histories", 1);
    }
}
