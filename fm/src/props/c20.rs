//! C20: serialization round-trips and reports true lengths.

use fixed_map::{Map, Set};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, observe, observe_set, show, Content};
use crate::sd::{read, record, record_with, AsMap, AsSeq, Error, Items1, Node, Pairs, Plan};
use crate::shape::Api;
use crate::val::{ledger, ledger_reset, ledger_verdict, Tr, Val};

/// Serialized formats.  The bytes live as long as the process, so that
/// borrowed keys can be read back.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Format {
    Json,
    JsonValue,
    Bincode,
    Cbor,
}
pub const FORMATS: [Format; 4] = [Format::Json, Format::JsonValue, Format::Bincode, Format::Cbor];

pub fn write<T: Serialize>(f: Format, t: &T) -> Result<Vec<u8>, String> {
    match f {
        Format::Json => serde_json::to_vec(t).map_err(|e| e.to_string()),
        Format::JsonValue => serde_json::to_value(t).map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string()),
        Format::Bincode => bincode::serialize(t).map_err(|e| e.to_string()),
        Format::Cbor => {
            let mut v = Vec::new();
            ciborium::into_writer(t, &mut v).map(|()| v).map_err(|e| e.to_string())
        }
    }
}

pub fn parse<T: DeserializeOwned>(f: Format, b: &[u8]) -> Result<T, String> {
    match f {
        Format::Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
        Format::JsonValue => {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        Format::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
        Format::Cbor => ciborium::from_reader(b).map_err(|e| e.to_string()),
    }
}

pub trait SerKey: Api + Serialize + DeserializeOwned {}
impl<K: Api + Serialize + DeserializeOwned> SerKey for K {}
pub trait SerVal: Val + Serialize + DeserializeOwned {}
impl<V: Val + Serialize + DeserializeOwned> SerVal for V {}

/// A map holds exactly what inserting the pairs in order gives.
pub fn agrees<K: Api, V: Val>(m: &Map<K, V>, pairs: &[(K, V)]) -> R {
    let mut last: Vec<(K, u64)> = Vec::new();
    for (k, v) in pairs {
        match last.iter_mut().find(|(x, _)| x == k) {
            Some(e) => e.1 = v.sig(),
            None => last.push((*k, v.sig())),
        }
    }
    for (k, v) in &last {
        let got = m.get(*k).map(Val::sig);
        ensure!(got == Some(*v), "{k:?} is {got:?}, expected {v}");
    }
    ensure!(m.len() == last.len(), "len is {}, expected {} entries", m.len(), last.len());
    let n = m.iter().count();
    ensure!(n == last.len(), "iteration yields {n} entries, expected {}", last.len());
    Ok(())
}

pub fn agrees_set<K: Api>(s: &Set<K>, items: &[K]) -> R {
    let mut seen: Vec<K> = Vec::new();
    for k in items {
        if !seen.contains(k) {
            seen.push(*k);
        }
        ensure!(s.contains(*k), "{k:?} is missing");
    }
    ensure!(s.len() == seen.len(), "len is {}, expected {} elements", s.len(), seen.len());
    let n = s.iter().count();
    ensure!(n == seen.len(), "iteration yields {n} elements, expected {}", seen.len());
    Ok(())
}

/// Every event of serializing, and an error at each of them.
fn faults<T: Serialize>(ctx: &mut Ctx, t: &T, what: &str) -> R {
    let plan = Plan::default();
    let full = record_with(t, &plan).map_err(|e| format!("{what} fails to serialize: {e}"))?;
    let total = plan.events.get();
    let step = (total / 60).max(1);
    let mut at = ctx.rng.below(step as usize) as u64;
    while at < total {
        let plan = Plan { fail_at: Some(at), ..Plan::default() };
        let r = record_with(t, &plan);
        ensure!(
            matches!(&r, Err(Error(m)) if m == crate::sd::INJECTED),
            "{what}: an error of the serializer at event {at} of {total} is not reported: {r:?}"
        );
        ensure!(plan.events.get() == at + 1, "{what}: serializing goes on after an error at event {at}");
        ctx.count("serializer faults", 1);
        at += step;
    }
    let again = record(t);
    ensure!(again == full, "{what}: serializing twice differs: {full:?} and {again:?}");
    Ok(())
}

fn maps<K: SerKey, V: SerVal>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let obs = observe(&m, keys);
    let n = obs.iter().flatten().count();
    let what = || format!("map {} of {}", show(c), V::NAME);
    let order: Vec<K> = m.iter().map(|(k, _)| k).collect();
    for human in [true, false] {
        let plan = Plan { human, ..Plan::default() };
        let got = record_with(&m, &plan).map_err(|e| format!("{}: {e}", what()))?;
        let mut items = Vec::new();
        for k in &order {
            let kp = Plan { human, ..Plan::default() };
            let v = m.get(*k).ok_or_else(|| format!("{}: iteration yields {k:?} which is absent", what()))?;
            items.push((
                record_with(k, &kp).map_err(|e| e.0)?,
                record_with(v, &kp).map_err(|e| e.0)?,
            ));
        }
        ensure!(items.len() == n, "{}: iteration yields {} entries, present are {n}", what(), items.len());
        let want = Node::Map(Some(n), items);
        ensure!(got == want, "{}: serializes as {got:?}, expected {want:?}", what());
    }
    // Round trip through the recorded data model, in four dialects.
    let node = record(&m);
    for d in 0..4u32 {
        let plan = Plan { numbers: d & 1 == 1, owned: d & 2 == 2, ..Plan::default() };
        let back: Map<K, V> = read(&node, &plan).map_err(|e| format!("{}: reading back: {e}", what()))?;
        let now = observe(&back, keys);
        ensure!(now == obs && back.len() == n, "{}: comes back as {} from {node:?}", what(), show(&now));
        if K::map_eq(&m, &m) {
            ensure!(K::map_eq(&back, &m), "{}: what comes back is not equal", what());
        }
        ctx.count("round trips", 1);
    }
    if ctx.rng.chance(1, 3) {
        faults(ctx, &m, &what())?;
    }
    // Real formats: the reference says what survives the format.
    for f in FORMATS {
        let pairs: Vec<(K, V)> = order.iter().map(|k| (*k, m.get(*k).unwrap().clone())).collect();
        match (write(f, &m), write(f, &AsMap(&pairs))) {
            (Ok(b), Ok(want)) => {
                ensure!(b == want, "{}: written to {f:?} as {:?}, the same entries are {:?}", what(), text(&b), text(&want));
                match (parse::<Map<K, V>>(f, &b), parse::<Pairs<K, V>>(f, &b)) {
                    (Ok(back), Ok(p)) => {
                        agrees(&back, &p.0).map_err(|e| format!("{} through {f:?} {:?}: {e}", what(), text(&b)))?;
                        let faithful = p.0.len() == pairs.len()
                            && p.0.iter().zip(&pairs).all(|(a, b)| a.0 == b.0 && a.1.sig() == b.1.sig());
                        if faithful {
                            let now = observe(&back, keys);
                            ensure!(now == obs, "{} through {f:?} comes back as {}", what(), show(&now));
                            ctx.count("format round trips", 1);
                        } else {
                            ctx.count("formats which do not keep the values", 1);
                        }
                    }
                    (Err(_), Err(_)) => ctx.count("formats which do not read the entries", 1),
                    (Ok(_), Err(e)) => return Err(format!("{}: {f:?} {:?} is read as a map though its entries are not: {e}", what(), text(&b))),
                    (Err(e), Ok(_)) => return Err(format!("{}: {f:?} {:?} is not read back: {e}", what(), text(&b))),
                }
            }
            (Err(_), Err(_)) => ctx.count("formats which do not take the entries", 1),
            (Ok(b), Err(e)) => return Err(format!("{}: written to {f:?} as {:?} though its entries are not: {e}", what(), text(&b))),
            (Err(e), Ok(_)) => return Err(format!("{}: not written to {f:?}: {e}", what())),
        }
    }
    ensure!(observe(&m, keys) == obs, "{}: serializing changed the map", what());
    ctx.sample(|| format!("{} as {:?}", what(), node));
    ctx.eval(fp(&[1, content_fp(c), crate::rng::hash_str(V::NAME)]));
    Ok(())
}

pub fn text(b: &[u8]) -> String {
    let mut s = String::from_utf8_lossy(b).into_owned();
    if s.len() > 300 {
        s = s.chars().take(300).collect();
        s.push('…');
    }
    s
}

fn sets<K: SerKey>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let obs = observe_set(&s, keys);
    let n = obs.iter().flatten().count();
    let what = || format!("set {}", show(c));
    let order: Vec<K> = s.iter().collect();
    let got = record(&s);
    let want = Node::Seq(Some(n), order.iter().map(record).collect());
    ensure!(order.len() == n, "{}: iteration yields {} elements, present are {n}", what(), order.len());
    ensure!(got == want, "{}: serializes as {got:?}, expected {want:?}", what());
    for d in 0..4u32 {
        let plan = Plan { numbers: d & 1 == 1, owned: d & 2 == 2, human: true, ..Plan::default() };
        let back: Set<K> = read(&got, &plan).map_err(|e| format!("{}: reading back: {e}", what()))?;
        let now = observe_set(&back, keys);
        ensure!(now == obs && back.len() == n, "{}: comes back as {}", what(), show(&now));
        ensure!(K::set_eq(&back, &s), "{}: what comes back is not equal", what());
        ctx.count("round trips", 1);
    }
    if ctx.rng.chance(1, 3) {
        faults(ctx, &s, &what())?;
    }
    for f in FORMATS {
        match (write(f, &s), write(f, &AsSeq(&order))) {
            (Ok(b), Ok(want)) => {
                ensure!(b == want, "{}: written to {f:?} as {:?}, the same elements are {:?}", what(), text(&b), text(&want));
                match (parse::<Set<K>>(f, &b), parse::<Items1<K>>(f, &b)) {
                    (Ok(back), Ok(p)) => {
                        agrees_set(&back, &p.0).map_err(|e| format!("{} through {f:?} {:?}: {e}", what(), text(&b)))?;
                        if p.0 == order {
                            ensure!(K::set_eq(&back, &s), "{} through {f:?} comes back as {}", what(), show(&observe_set(&back, keys)));
                            ctx.count("format round trips", 1);
                        } else {
                            ctx.count("formats which do not keep the values", 1);
                        }
                    }
                    (Err(_), Err(_)) => ctx.count("formats which do not read the entries", 1),
                    (Ok(_), Err(e)) => return Err(format!("{}: {f:?} {:?} is read as a set though its elements are not: {e}", what(), text(&b))),
                    (Err(e), Ok(_)) => return Err(format!("{}: {f:?} {:?} is not read back: {e}", what(), text(&b))),
                }
            }
            (Err(_), Err(_)) => ctx.count("formats which do not take the entries", 1),
            (Ok(b), Err(e)) => return Err(format!("{}: written to {f:?} as {:?} though its elements are not: {e}", what(), text(&b))),
            (Err(e), Ok(_)) => return Err(format!("{}: not written to {f:?}: {e}", what())),
        }
    }
    ensure!(observe_set(&s, keys) == obs, "{}: serializing changed the set", what());
    ctx.eval(fp(&[2, content_fp(c)]));
    Ok(())
}

/// Maps in maps, and in place.
fn nested<K: SerKey, V: SerVal>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let a: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let n = keys.len();
    let mut outer: Map<K, Option<(u8, u16)>> = Map::new();
    for i in 0..n {
        if c[i].is_some() {
            outer.insert(keys[i], Some((i as u8, i as u16)));
        }
    }
    let t = (Some(&a), &s, vec![&outer]);
    let node = record(&t);
    type Back<K, V> = (Option<Map<K, V>>, Set<K>, Vec<Map<K, Option<(u8, u16)>>>);
    let (b, u, o): Back<K, V> = read(&node, &Plan::default()).map_err(|e| format!("nested containers: {e}; {node:?}"))?;
    ensure!(b.as_ref().map(|b| observe(b, keys)) == Some(observe(&a, keys)), "a map inside a tuple comes back different: {}", show(c));
    ensure!(K::set_eq(&u, &s), "a set inside a tuple comes back different: {}", show(c));
    ensure!(o.len() == 1 && K::map_eq(&o[0], &outer), "a map inside a list comes back different: {}", show(c));
    // In place of another container's contents.
    let d = crate::gen::random_content(n, &mut ctx.rng);
    let mut place: Map<K, V> = build_map(keys, &d, &mut ctx.rng);
    let node = record(&a);
    let plan = Plan::default();
    Deserialize::deserialize_in_place(crate::sd::De { node: &node, plan: &plan, depth: 0 }, &mut place)
        .map_err(|e| format!("in place: {e}"))?;
    ensure!(observe(&place, keys) == observe(&a, keys), "deserialized in place of {} is {}", show(&d), show(&observe(&place, keys)));
    ctx.eval(fp(&[3, content_fp(c)]));
    Ok(())
}

pub fn run<K: SerKey, A: SerVal, B: SerVal>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    let random = if n <= 20 { 30 * f } else if n <= 70 { 12 * f } else { 4 * f };
    ledger_reset();
    for c in contents(n, random, 4, &mut ctx.rng) {
        ctx.case("maps", |ctx| maps::<K, A>(ctx, &keys, &c));
        ctx.case("maps", |ctx| maps::<K, B>(ctx, &keys, &c));
        ctx.case("sets", |ctx| sets::<K>(ctx, &keys, &c));
        ctx.case("nested", |ctx| nested::<K, Tr>(ctx, &keys, &c));
    }
    let made = ledger(|l| l.made);
    ctx.count("tracked values", made);
    ctx.case("ownership", |_| ledger_verdict(0));
}
