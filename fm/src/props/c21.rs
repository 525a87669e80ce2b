//! C21: deserialization handles hostile input like repeated insertion.

use std::panic::{catch_unwind, AssertUnwindSafe};

use fixed_map::{Map, Set};
use serde::Serialize;

use super::c20::{agrees, agrees_set, parse, text, write, Format, SerKey, SerVal, FORMATS};
use crate::alloc;
use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::sd::{read, record, AsMap, AsSeq, Error, Hint, Items1, Node, Pairs, Plan, INJECTED};
use crate::val::{arm, disarm, ledger, ledger_reset, ledger_verdict, Hook, Tr};

/// What a cautious reader may reserve in advance.
const ROOM: u64 = 2 << 20;

const HINTS: [Hint; 10] = [
    Hint::Exact,
    Hint::Nothing,
    Hint::Is(0),
    Hint::Is(1),
    Hint::Is(2),
    Hint::Is(1000),
    Hint::Is(1 << 20),
    Hint::Is(1 << 32),
    Hint::Is(usize::MAX / 2),
    Hint::Is(usize::MAX),
];

fn stream<K: SerKey>(ctx: &mut Ctx, keys: &[K]) -> Vec<(K, u64)> {
    let n = keys.len();
    if n == 0 {
        return Vec::new();
    }
    let len = match ctx.rng.below(5) {
        0 => 0,
        1 => 1,
        2 => 2 + ctx.rng.below(3),
        3 => ctx.rng.below(2 * n + 3).min(40),
        _ => n.min(60),
    };
    let narrow = ctx.rng.chance(1, 3);
    (0..len)
        .map(|i| {
            let j = if narrow { ctx.rng.below(n.min(2)) } else { ctx.rng.below(n) };
            (keys[j], i as u64 * 3 + ctx.rng.below(3) as u64)
        })
        .collect()
}

fn live() -> usize {
    ledger(|l| l.live.len())
}

fn as_node<K: SerKey, V: SerVal>(p: &[(K, V)]) -> Node {
    record(&AsMap(p))
}

/// Duplicates and lying hints, with the memory taken.
fn hints<K: SerKey, V: SerVal>(ctx: &mut Ctx, s: &[(K, u64)]) -> R {
    let pairs: Vec<(K, V)> = s.iter().map(|(k, x)| (*k, V::make(*x))).collect();
    let node = as_node(&pairs);
    let mut base = None;
    for h in HINTS {
        let plan = Plan { hint: h, ..Plan::default() };
        alloc::reset();
        let r: Result<Map<K, V>, Error> = read(&node, &plan);
        let t = alloc::tally();
        let m = r.map_err(|e| format!("hint {h:?} on {} entries: error {e}", s.len()))?;
        agrees(&m, &pairs).map_err(|e| format!("hint {h:?} on {s:?}: {e}; values {}", V::NAME))?;
        // What the honest hint takes, doubled, and a little.
        let peak = t.peak as u64;
        let b = *base.get_or_insert(peak);
        ensure!(
            peak <= 2 * b + ROOM && t.largest <= 2 * b + ROOM,
            "hint {h:?} on {} entries: {peak} bytes allocated at peak ({} at once), {b} with the true hint; {s:?}",
            s.len(), t.largest
        );
        ctx.count("lying hints", 1);
        ctx.eval(fp(&[1, s.len() as u64, crate::rng::hash_str(&format!("{h:?}")), kfp(s)]));
    }
    Ok(())
}

fn kfp<K: SerKey>(s: &[(K, u64)]) -> u64 {
    let mut h = 0;
    for (k, _) in s {
        h = crate::rng::mix(h ^ k.index().unwrap_or(9999) as u64);
    }
    h
}

fn set_hints<K: SerKey>(ctx: &mut Ctx, s: &[(K, u64)]) -> R {
    let items: Vec<K> = s.iter().map(|(k, _)| *k).collect();
    let node = record(&AsSeq(&items));
    let mut base = None;
    for h in HINTS {
        let plan = Plan { hint: h, ..Plan::default() };
        alloc::reset();
        let r: Result<Set<K>, Error> = read(&node, &plan);
        let t = alloc::tally();
        let m = r.map_err(|e| format!("set, hint {h:?} on {} elements: error {e}", s.len()))?;
        agrees_set(&m, &items).map_err(|e| format!("set, hint {h:?} on {items:?}: {e}"))?;
        let b = *base.get_or_insert(t.peak as u64);
        ensure!(
            t.peak as u64 <= 2 * b + ROOM,
            "set, hint {h:?} on {} elements: {} bytes allocated at peak, {b} with the true hint", s.len(), t.peak
        );
        ctx.eval(fp(&[2, s.len() as u64, crate::rng::hash_str(&format!("{h:?}")), kfp(s)]));
    }
    Ok(())
}

/// An error at every event.
fn faults<K: SerKey>(ctx: &mut Ctx, s: &[(K, u64)]) -> R {
    let pairs: Vec<(K, Tr)> = s.iter().map(|(k, x)| (*k, Tr::new(*x))).collect();
    let node = as_node(&pairs);
    let items: Vec<K> = s.iter().map(|(k, _)| *k).collect();
    let seq = record(&AsSeq(&items));
    let before = live();
    let plan = Plan::default();
    let m: Map<K, Tr> = read(&node, &plan).map_err(|e| format!("{e}"))?;
    ensure!(live() - before == m.len(), "{} values live for {} entries, from {s:?}", live() - before, m.len());
    drop(m);
    ensure!(live() == before, "{} values still live after the map", live() - before);
    let total = plan.events.get();
    let step = (total / 80).max(1);
    let mut at = ctx.rng.below(step as usize) as u64;
    while at < total {
        let hint = HINTS[ctx.rng.below(HINTS.len())];
        let plan = Plan { fail_at: Some(at), hint, ..Plan::default() };
        let r: Result<Map<K, Tr>, Error> = read(&node, &plan);
        match r {
            Err(e) => ensure!(e.0 == INJECTED, "fault at event {at} is reported as {e}"),
            Ok(m) => return Err(format!("fault at event {at} of {total} of {s:?}: success with {} entries", m.len())),
        }
        ensure!(live() == before, "fault at event {at} of {total} of {s:?}: {} values left alive", live() as i64 - before as i64);
        // With a place to overwrite: it stays whole.
        ctx.count("faults", 1);
        ctx.eval(fp(&[3, at, total, kfp(s)]));
        at += step;
    }
    let plan = Plan::default();
    let r: Result<Set<K>, Error> = read(&seq, &plan);
    ensure!(r.is_ok(), "a set is not read: {r:?}");
    let total = plan.events.get();
    let step = (total / 40).max(1);
    let mut at = ctx.rng.below(step as usize) as u64;
    while at < total {
        let plan = Plan { fail_at: Some(at), ..Plan::default() };
        let r: Result<Set<K>, Error> = read(&seq, &plan);
        match r {
            Err(e) => ensure!(e.0 == INJECTED, "set, fault at event {at} is reported as {e}"),
            Ok(m) => return Err(format!("set, fault at event {at} of {total} of {items:?}: success with {} elements", m.len())),
        }
        ctx.count("faults", 1);
        ctx.eval(fp(&[4, at, total, kfp(s)]));
        at += step;
    }
    // A value whose reading panics.
    for k in 0..s.len().min(12) {
        arm(Hook::User, k as u64);
        let r = catch_unwind(AssertUnwindSafe(|| read::<Map<K, Tr>>(&node, &Plan::default())));
        let blown = disarm();
        ensure!(blown && r.is_err(), "a panic while reading value {k} does not reach the caller");
        drop(r);
        ensure!(live() == before, "a panic while reading value {k} of {s:?}: {} values left alive", live() as i64 - before as i64);
        ctx.count("panics", 1);
        ctx.eval(fp(&[5, k as u64, kfp(s)]));
    }
    drop(pairs);
    ledger_verdict(0)
}

fn junk() -> Vec<Node> {
    let b = |n| Box::new(n);
    vec![
        Node::Bool(true),
        Node::I(-1, 8),
        Node::I(7, 64),
        Node::I(1, 128),
        Node::U(0, 8),
        Node::U(3, 32),
        Node::U(u64::MAX as u128, 64),
        Node::U(5, 128),
        Node::F(1.5f64.to_bits()),
        Node::Char('x'),
        Node::Str(String::new()),
        Node::Str("V0".into()),
        Node::Bytes(vec![1, 2]),
        Node::None,
        Node::Some(b(Node::Map(None, vec![]))),
        Node::Some(b(Node::Unit)),
        Node::Unit,
        Node::UnitStruct("UserUnit"),
        Node::Newtype("x", b(Node::Map(None, vec![]))),
        Node::Newtype("x", b(Node::Seq(None, vec![]))),
        Node::UnitVariant(0, "V0"),
        Node::UnitVariant(900, "nothing"),
        Node::NewtypeVariant(0, "V0", b(Node::Unit)),
        Node::Other("broken".into()),
    ]
}

/// The wrong kind of input, as a whole and in every place.
fn kinds<K: SerKey, V: SerVal>(ctx: &mut Ctx, s: &[(K, u64)]) -> R {
    let pairs: Vec<(K, V)> = s.iter().map(|(k, x)| (*k, V::make(*x))).collect();
    let items: Vec<K> = s.iter().map(|(k, _)| *k).collect();
    let (map, seq) = (as_node(&pairs), record(&AsSeq(&items)));
    let mut all = junk();
    all.push(seq.clone());
    all.push(Node::Seq(Some(0), vec![]));
    all.push(Node::Tuple(1, vec![map.clone()]));
    // Lists of pairs are not maps.
    all.push(Node::Seq(None, pairs.iter().map(|(k, v)| Node::Tuple(2, vec![record(k), record(v)])).collect()));
    for j in &all {
        let r: Result<Map<K, V>, Error> = read(j, &Plan::default());
        ensure!(r.is_err(), "a map is read from {j:?}");
        ctx.eval(fp(&[6, crate::rng::hash_str(&format!("{j:?}"))]));
    }
    let mut all = junk();
    all.push(map.clone());
    all.push(Node::Map(Some(0), vec![]));
    for j in &all {
        let r: Result<Set<K>, Error> = read(j, &Plan::default());
        ensure!(r.is_err(), "a set is read from {j:?}");
        ctx.eval(fp(&[7, crate::rng::hash_str(&format!("{j:?}"))]));
    }
    // In the place of one key, value or element.
    let j = junk();
    for _ in 0..24 {
        if s.is_empty() {
            break;
        }
        let x = j[ctx.rng.below(j.len())].clone();
        let i = ctx.rng.below(s.len());
        let what = format!("{x:?} in place {i} of {}", s.len());
        let mut n = map.clone();
        if let Node::Map(_, l) = &mut n {
            if ctx.rng.bool() {
                l[i].0 = x.clone();
            } else {
                l[i].1 = x.clone();
            }
        }
        let p = Plan { hint: HINTS[ctx.rng.below(HINTS.len())], numbers: ctx.rng.bool(), ..Plan::default() };
        differ::<K, V>(ctx, read(&n, &p), read(&n, &Plan { numbers: p.numbers, ..Plan::default() }), &what)?;
        let mut n = seq.clone();
        if let Node::Seq(_, l) = &mut n {
            l[i] = x.clone();
        }
        differ_set::<K>(ctx, read(&n, &p), read(&n, &Plan { numbers: p.numbers, ..Plan::default() }), &what)?;
        ctx.eval(fp(&[8, crate::rng::hash_str(&what)]));
    }
    Ok(())
}

/// The map must be what inserting the pairs in order gives, or an error
/// exactly when the stream has one.
fn differ<K: SerKey, V: SerVal>(
    ctx: &mut Ctx,
    got: Result<Map<K, V>, impl std::fmt::Debug>,
    want: Result<Pairs<K, V>, impl std::fmt::Debug>,
    what: &str,
) -> R {
    match (got, want) {
        (Ok(m), Ok(p)) => {
            ctx.count("hostile streams accepted", 1);
            agrees(&m, &p.0).map_err(|e| format!("{what}: {e}"))
        }
        (Err(_), Err(_)) => {
            ctx.count("hostile streams refused", 1);
            Ok(())
        }
        (Ok(m), Err(e)) => Err(format!("{what}: read as a map of {} entries, the stream has the error {e:?}", m.len())),
        (Err(e), Ok(p)) => Err(format!("{what}: error {e:?}, the stream has {} good pairs", p.0.len())),
    }
}

fn differ_set<K: SerKey>(
    ctx: &mut Ctx,
    got: Result<Set<K>, impl std::fmt::Debug>,
    want: Result<Items1<K>, impl std::fmt::Debug>,
    what: &str,
) -> R {
    match (got, want) {
        (Ok(m), Ok(p)) => {
            ctx.count("hostile streams accepted", 1);
            agrees_set(&m, &p.0).map_err(|e| format!("{what}: {e}"))
        }
        (Err(_), Err(_)) => {
            ctx.count("hostile streams refused", 1);
            Ok(())
        }
        (Ok(m), Err(e)) => Err(format!("{what}: read as a set of {} elements, the stream has the error {e:?}", m.len())),
        (Err(e), Ok(p)) => Err(format!("{what}: error {e:?}, the stream has {} good elements", p.0.len())),
    }
}

/// Damage some bytes.
fn damage(ctx: &mut Ctx, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + ctx.rng.below(2) {
        if v.is_empty() {
            v.push(ctx.rng.u64() as u8);
            continue;
        }
        let i = ctx.rng.below(v.len());
        match ctx.rng.below(7) {
            0 => v.truncate(i),
            1 => v[i] ^= 1 << ctx.rng.below(8),
            2 => v[i] = *b"[]{},:\"0e\0\xff\x9f\xbf\x7f"
                .get(ctx.rng.below(14))
                .unwrap_or(&0),
            3 => {
                v.remove(i);
            }
            4 => v.insert(i, ctx.rng.u64() as u8),
            5 => {
                // A part twice: duplicates.
                let j = i + ctx.rng.below(v.len() - i + 1);
                let part = v[i..j].to_vec();
                let at = ctx.rng.below(v.len() + 1);
                v.splice(at..at, part);
            }
            _ => v[i] = ctx.rng.u64() as u8,
        }
    }
    v
}

fn zero_width<T: Serialize>(t: &T) -> bool {
    bincode::serialized_size(t).map_or(true, |n| n == 0)
}

/// Real formats, damaged.
fn bytes<K: SerKey, V: SerVal>(ctx: &mut Ctx, keys: &[K], s: &[(K, u64)]) -> R {
    let pairs: Vec<(K, V)> = s.iter().map(|(k, x)| (*k, V::make(*x))).collect();
    let items: Vec<K> = s.iter().map(|(k, _)| *k).collect();
    for f in FORMATS {
        // Entries of no bytes at all have no end in this format.
        let endless = f == Format::Bincode && keys.iter().any(zero_width) && zero_width(&V::make(0));
        if let (Ok(b), false) = (write(f, &AsMap(&pairs)), endless) {
            differ::<K, V>(ctx, parse(f, &b), parse(f, &b), &format!("{f:?} {:?}", text(&b)))?;
            for _ in 0..8 {
                let d = damage(ctx, &b);
                differ::<K, V>(ctx, parse(f, &d), parse(f, &d), &format!("{f:?} {:?} ({d:02x?})", text(&d)))?;
                ctx.count("damaged documents", 1);
                ctx.eval(fp(&[9, f as u64, crate::rng::hash_str(&format!("{d:?}"))]));
            }
        }
        let endless = f == Format::Bincode && keys.iter().any(zero_width);
        if let (Ok(b), false) = (write(f, &AsSeq(&items)), endless) {
            differ_set::<K>(ctx, parse(f, &b), parse(f, &b), &format!("{f:?} {:?}", text(&b)))?;
            for _ in 0..8 {
                let d = damage(ctx, &b);
                differ_set::<K>(ctx, parse(f, &d), parse(f, &d), &format!("{f:?} {:?} ({d:02x?})", text(&d)))?;
                ctx.count("damaged documents", 1);
                ctx.eval(fp(&[10, f as u64, crate::rng::hash_str(&format!("{d:?}"))]));
            }
        }
    }
    Ok(())
}

pub fn run<K: SerKey, A: SerVal, B: SerVal>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ctx.case("allocator", |_| {
        ensure!(alloc::working(), "the counting allocator is not in place");
        Ok(())
    });
    ledger_reset();
    let rounds = if n <= 20 { 12 * f } else if n <= 70 { 6 * f } else { 3 * f };
    for _ in 0..rounds {
        let s = stream(ctx, &keys);
        ctx.case("hints", |ctx| hints::<K, A>(ctx, &s));
        ctx.case("hints", |ctx| hints::<K, B>(ctx, &s));
        ctx.case("set hints", |ctx| set_hints::<K>(ctx, &s));
        ctx.case("faults", |ctx| faults::<K>(ctx, &s));
        ctx.case("kinds", |ctx| kinds::<K, A>(ctx, &s));
        ctx.case("bytes", |ctx| bytes::<K, A>(ctx, &keys, &s));
        ctx.case("bytes", |ctx| bytes::<K, B>(ctx, &keys, &s));
        ctx.sample(|| format!("stream {s:?}"));
    }
    ctx.case("ownership", |_| ledger_verdict(0));
}
