//! C12: a panic in user code leaves containers valid and loses nothing.
//!
//! Every operation which runs user code is run with that code panicking at its
//! first, second, … call, until a run in which it is not called that often.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{content_fp, contents, random_content, show, Content};
use crate::iters::{MapSrc, SetSrc, View};
use crate::shape::{Api, OrdMapApi, Shape};
use crate::val::{arm, disarm, hook, ledger, ledger_reset, Hook, Tr};

/// What the operation was told while it ran.
#[derive(Default)]
struct Told {
    /// Keys whose entries the operation may discard.
    discard: BTreeSet<usize>,
    /// Values user code put in place: (key, uid).
    wrote: Vec<(usize, u64)>,
    /// Values the user still holds.
    held: Vec<Tr>,
}

struct Scene<K: Shape> {
    m: Option<Map<K, Tr>>,
    other: Option<Map<K, Tr>>,
    key: K,
    at: usize,
    bits: u64,
    dups: Vec<(K, u64)>,
}

type Op<K> = fn(&mut Scene<K>, &RefCell<Told>);

fn told_all<K: Shape>(m: &Map<K, Tr>, told: &RefCell<Told>) {
    for k in m.keys() {
        if let Some(i) = k.index() {
            told.borrow_mut().discard.insert(i);
        }
    }
}

fn keep(bits: u64, i: usize) -> bool {
    crate::rng::mix(bits ^ i as u64) & 1 == 1
}

fn ops<K: Api>() -> Vec<(&'static str, Op<K>, &'static [Hook])> {
    vec![
        ("retain", |s, t| {
            let bits = s.bits;
            s.m.as_mut().unwrap().retain(|k, v| {
                v.check();
                hook(Hook::User);
                let i = k.index().unwrap();
                let yes = keep(bits, i);
                if !yes {
                    t.borrow_mut().discard.insert(i);
                }
                yes
            });
        }, &[Hook::User, Hook::Drop]),
        ("retain which writes", |s, t| {
            let bits = s.bits;
            s.m.as_mut().unwrap().retain(|k, v| {
                let i = k.index().unwrap();
                if keep(!bits, i) {
                    let n = Tr::new(50 + i as u64);
                    t.borrow_mut().wrote.push((i, n.uid));
                    let old = std::mem::replace(v, n);
                    t.borrow_mut().held.push(old);
                }
                hook(Hook::User);
                let yes = keep(bits, i);
                if !yes {
                    t.borrow_mut().discard.insert(i);
                }
                yes
            });
        }, &[Hook::User, Hook::Drop]),
        ("clear", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            s.m.as_mut().unwrap().clear();
        }, &[Hook::Drop]),
        ("drop", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            let m = s.m.take();
            drop(m);
        }, &[Hook::Drop]),
        ("clone", |s, _| {
            let c = K::clone_map(s.m.as_ref().unwrap());
            drop(c);
        }, &[Hook::Clone, Hook::Drop]),
        ("eq", |s, _| {
            let r = K::map_eq(s.m.as_ref().unwrap(), s.other.as_ref().unwrap());
            let _ = K::map_ne(s.other.as_ref().unwrap(), s.m.as_ref().unwrap());
            let _ = r;
        }, &[Hook::Eq]),
        ("eq to itself", |s, _| {
            let m = s.m.as_ref().unwrap();
            let _ = K::map_eq(m, m);
        }, &[Hook::Eq]),
        ("debug", |s, _| {
            let _ = format!("{:?}", s.m.as_ref().unwrap());
            let _ = format!("{:#?}", s.m.as_ref().unwrap());
        }, &[Hook::Debug]),
        ("or_insert_with", |s, t| {
            let at = s.at;
            s.m.as_mut().unwrap().entry(s.key).or_insert_with(|| {
                hook(Hook::User);
                let n = Tr::new(60);
                t.borrow_mut().wrote.push((at, n.uid));
                n
            });
        }, &[Hook::User]),
        ("or_insert_with_key", |s, t| {
            let at = s.at;
            s.m.as_mut().unwrap().entry(s.key).or_insert_with_key(|_| {
                hook(Hook::User);
                let n = Tr::new(61);
                t.borrow_mut().wrote.push((at, n.uid));
                n
            });
        }, &[Hook::User]),
        ("or_default", |s, t| {
            let at = s.at;
            let r = s.m.as_mut().unwrap().entry(s.key).or_default();
            t.borrow_mut().wrote.push((at, r.uid));
        }, &[Hook::Default]),
        ("or_insert", |s, t| {
            let n = Tr::new(62);
            t.borrow_mut().wrote.push((s.at, n.uid));
            s.m.as_mut().unwrap().entry(s.key).or_insert(n);
        }, &[Hook::Drop]),
        ("and_modify", |s, t| {
            let at = s.at;
            let _ = s
                .m
                .as_mut()
                .unwrap()
                .entry(s.key)
                .and_modify(|v| {
                    let n = Tr::new(63);
                    t.borrow_mut().wrote.push((at, n.uid));
                    let old = std::mem::replace(v, n);
                    t.borrow_mut().held.push(old);
                    hook(Hook::User);
                })
                .and_modify(|_| hook(Hook::User))
                .or_insert_with(|| {
                    hook(Hook::User);
                    let n = Tr::new(64);
                    t.borrow_mut().wrote.push((at, n.uid));
                    n
                });
        }, &[Hook::User]),
        ("occupied insert", |s, t| {
            let n = Tr::new(65);
            t.borrow_mut().wrote.push((s.at, n.uid));
            match s.m.as_mut().unwrap().entry(s.key) {
                Entry::Occupied(mut e) => drop(e.insert(n)),
                Entry::Vacant(e) => drop(e.insert(n).uid),
            }
        }, &[Hook::Drop]),
        ("occupied remove", |s, t| {
            t.borrow_mut().discard.insert(s.at);
            if let Entry::Occupied(e) = s.m.as_mut().unwrap().entry(s.key) {
                drop(e.remove());
            }
        }, &[Hook::Drop]),
        ("insert", |s, t| {
            let n = Tr::new(66);
            t.borrow_mut().wrote.push((s.at, n.uid));
            drop(s.m.as_mut().unwrap().insert(s.key, n));
        }, &[Hook::Drop]),
        ("remove", |s, t| {
            t.borrow_mut().discard.insert(s.at);
            drop(s.m.as_mut().unwrap().remove(s.key));
        }, &[Hook::Drop]),
        ("collect", |s, _| {
            let m: Map<K, Tr> = s
                .dups
                .iter()
                .map(|(k, p)| {
                    hook(Hook::User);
                    (*k, Tr::new(*p))
                })
                .collect();
            drop(m);
        }, &[Hook::User, Hook::Drop]),
        ("set collect", |s, _| {
            let m: Set<K> = s
                .dups
                .iter()
                .map(|(k, _)| {
                    hook(Hook::User);
                    *k
                })
                .collect();
            drop(m);
        }, &[Hook::User]),
        ("owned loop", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            for (_, v) in s.m.take().unwrap() {
                v.check();
                hook(Hook::User);
                drop(v);
            }
        }, &[Hook::User, Hook::Drop]),
        ("owned fold", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            s.m.take().unwrap().into_iter().fold((), |(), (_, v)| {
                v.check();
                hook(Hook::User);
                drop(v);
            });
        }, &[Hook::User, Hook::Drop]),
        ("owned iterator dropped midway", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            let mut it = s.m.take().unwrap().into_iter();
            for _ in 0..s.bits % 4 {
                it.next();
            }
            drop(it);
        }, &[Hook::Drop]),
        ("owned iteration from the back", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            let mut it = K::view(MapSrc::Own(s.m.take().unwrap()), View::Into);
            if it.double_ended() {
                it.next_back();
                it.next();
                it.rfor_each(&mut |_| hook(Hook::User));
            } else {
                it.for_each(&mut |_| hook(Hook::User));
            }
        }, &[Hook::User, Hook::Drop]),
        ("owned iterator skipping", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            let mut it = s.m.take().unwrap().into_iter();
            drop(it.nth((s.bits % 3) as usize));
            drop(it.last());
        }, &[Hook::Drop]),
        ("owned iterator cloned", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            let it = K::view(MapSrc::Own(s.m.take().unwrap()), View::Into);
            let d = it.dup();
            drop(it);
            if let Some(d) = d {
                d.for_each(&mut |_| hook(Hook::User));
            }
        }, &[Hook::Clone, Hook::User, Hook::Drop]),
        ("mutable loop", |s, t| {
            for (k, v) in s.m.as_mut().unwrap().iter_mut() {
                let i = k.index().unwrap();
                if keep(s.bits, i) {
                    let n = Tr::new(70 + i as u64);
                    t.borrow_mut().wrote.push((i, n.uid));
                    let old = std::mem::replace(v, n);
                    t.borrow_mut().held.push(old);
                }
                hook(Hook::User);
            }
        }, &[Hook::User]),
        ("mutable fold", |s, _| {
            s.m.as_mut().unwrap().values_mut().fold((), |(), v| {
                v.check();
                hook(Hook::User);
            });
            s.m.as_mut().unwrap().iter_mut().fold((), |(), (_, v)| {
                v.check();
                hook(Hook::User);
            });
        }, &[Hook::User]),
        ("folds", |s, _| {
            let m = s.m.as_ref().unwrap();
            m.iter().for_each(|(_, v)| {
                v.check();
                hook(Hook::User);
            });
            m.keys().for_each(|_| hook(Hook::User));
            m.values().for_each(|_| hook(Hook::User));
        }, &[Hook::User]),
        ("assign over", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            let fresh = Map::new();
            *s.m.as_mut().unwrap() = fresh;
        }, &[Hook::Drop]),
    ]
}

fn ops_ord<K: OrdMapApi>() -> Vec<(&'static str, Op<K>, &'static [Hook])> {
    vec![
        ("cmp", |s, _| {
            let (a, b) = (s.m.as_ref().unwrap(), s.other.as_ref().unwrap());
            let _ = K::map_cmp(a, b);
            let _ = K::map_partial_cmp(b, a);
            let _ = K::map_ops(a, a);
        }, &[Hook::Cmp, Hook::Eq]),
        ("hash", |s, _| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            K::map_hash(s.m.as_ref().unwrap(), &mut h);
        }, &[Hook::Hash]),
        ("max", |s, t| {
            told_all(s.m.as_ref().unwrap(), t);
            let m = K::map_max(s.m.take().unwrap(), s.other.take().unwrap());
            drop(m);
        }, &[Hook::Cmp, Hook::Drop]),
    ]
}

fn build<K: Shape>(keys: &[K], c: &Content) -> Map<K, Tr> {
    let mut m = Map::new();
    for (i, x) in c.iter().enumerate() {
        if let Some(x) = x {
            m.insert(keys[i], Tr::new(*x));
        }
    }
    m
}

fn uids<K: Shape>(m: &Map<K, Tr>, keys: &[K]) -> Vec<Option<u64>> {
    keys.iter()
        .map(|k| {
            m.get(*k).map(|t| {
                t.check();
                t.uid
            })
        })
        .collect()
}

/// The container must be a sound dictionary still.
fn usable<K: Api>(m: &mut Map<K, Tr>, keys: &[K], what: &str) -> R {
    let now = uids(m, keys);
    let n = now.iter().filter(|x| x.is_some()).count();
    ensure!(m.len() == n, "{what}: len is {} but {n} keys are present", m.len());
    ensure!(m.is_empty() == (n == 0), "{what}: is_empty is {} but {n} keys are present", m.is_empty());
    let mut seen = vec![None; keys.len()];
    let mut count = 0;
    for (k, v) in m.iter() {
        let Some(i) = k.index() else { return Err(format!("{what}: iter yields {k:?}")) };
        seen[i] = Some(v.uid);
        count += 1;
        ensure!(count <= n, "{what}: iter yields more than the {n} entries present");
    }
    ensure!(seen == now, "{what}: iter yields values {seen:?}, get returns {now:?}");
    // A few dictionary operations.
    let step = 1 + keys.len() / 12;
    for (i, k) in keys.iter().enumerate().step_by(step) {
        let t = Tr::new(900 + i as u64);
        let u = t.uid;
        let old = m.insert(*k, t).map(|t| t.uid);
        ensure!(old == now[i], "{what}: insert({k:?}) hands back {old:?}, present was {:?}", now[i]);
        let got = m.remove(*k).map(|t| t.uid);
        ensure!(got == Some(u), "{what}: remove({k:?}) hands back {got:?}, inserted was {u}");
        ensure!(!m.contains_key(*k), "{what}: {k:?} is present after its removal");
    }
    Ok(())
}

fn trial<K: Api>(
    ctx: &mut Ctx,
    keys: &[K],
    c: &Content,
    d: &Content,
    name: &str,
    op: Op<K>,
    h: Hook,
    nth: u64,
    at: usize,
    bits: u64,
) -> Result<bool, String> {
    ledger_reset();
    let mut s = Scene {
        m: Some(build(keys, c)),
        other: Some(build(keys, d)),
        key: keys[at],
        at,
        bits,
        dups: (0..6).map(|j| (keys[(at + (j * j)) % keys.len()], j as u64)).collect(),
    };
    let told = RefCell::new(Told::default());
    let before = uids(s.m.as_ref().unwrap(), keys);
    let obefore = uids(s.other.as_ref().unwrap(), keys);
    arm(h, nth);
    let r = catch_unwind(AssertUnwindSafe(|| op(&mut s, &told)));
    let blown = disarm();
    if let Err(e) = &r {
        let m = crate::ctx::panic_message(e);
        if !m.starts_with("injected panic") {
            return Err(format!("{name} panics on its own: {m}"));
        }
    }
    ensure!(r.is_err() == blown, "{name}: a panic in {h:?} call {nth} {} the caller", if blown { "does not reach" } else { "is invented for" });
    ctx.eval(fp(&[crate::rng::hash_str(name), h as u64, nth, content_fp(c), at as u64, u64::from(blown)]));
    let what = format!("{name} with a panic in call {nth} of {h:?}");
    let told = told.into_inner();
    if blown {
        ctx.count("injected panics", 1);
    }
    if let Some(m) = &s.m {
        let now = uids(m, keys);
        for i in 0..keys.len() {
            let mine = now[i].is_some() && now[i] == before[i];
            let written = now[i].map_or(false, |u| told.wrote.iter().any(|w| *w == (i, u)));
            ensure!(
                now[i].is_none() || mine || written,
                "{what}: {:?} holds value {:?}, before it held {:?}",
                keys[i], now[i], before[i]
            );
            if before[i].is_some() && !told.discard.contains(&i) {
                ensure!(
                    now[i].is_some(),
                    "{what}: the entry of {:?} is gone although nothing told the operation to discard it",
                    keys[i]
                );
                let replaced = told.wrote.iter().any(|w| w.0 == i);
                ensure!(mine || replaced, "{what}: {:?} lost its value", keys[i]);
            }
            if !blown && told.discard.contains(&i) {
                ensure!(now[i].is_none(), "{what}: (no panic) {:?} was to be discarded", keys[i]);
            }
        }
    }
    if let Some(o) = &s.other {
        ensure!(uids(o, keys) == obefore, "{what}: the other operand changed");
    }
    // Nothing lost, nothing twice.
    let reach: BTreeSet<u64> = s
        .m
        .iter()
        .chain(s.other.iter())
        .flat_map(|m| uids(m, keys).into_iter().flatten())
        .chain(told.held.iter().map(|t| t.uid))
        .collect();
    let (errors, live) = ledger(|l| (l.errors.first().cloned(), l.live.keys().copied().collect::<BTreeSet<u64>>()));
    if let Some(e) = errors {
        return Err(format!("{what}: {e}"));
    }
    ensure!(reach.is_subset(&live), "{what}: values in the map were dropped");
    if h != Hook::Drop || !blown {
        let lost: Vec<u64> = live.difference(&reach).copied().collect();
        if !lost.is_empty() && h == Hook::Clone && !K::FIXED {
            // Are they all clones of values under dynamically hashed keys?
            let g = K::group_list();
            let hashed = |uid: u64| {
                let src = ledger(|l| l.source.get(&uid).copied());
                (0..keys.len()).any(|i| {
                    src.is_some() && before[i] == src && g.iter().filter(|x| **x == g[i]).count() > 1
                })
            };
            if lost.iter().all(|u| hashed(*u)) {
                ledger_reset();
                std::mem::forget(s);
                return Err(format!("@key=hashed-clone-leak@ {what}: the clones {lost:?} made so far by the hash table are never dropped"));
            }
        }
        ensure!(lost.is_empty(), "{what}: values {lost:?} are owned by nobody and never dropped");
    }
    if let Some(m) = &mut s.m {
        usable(m, keys, &what)?;
    }
    drop(told);
    let Scene { m, other, .. } = s;
    drop(m);
    drop(other);
    let (errors, left) = ledger(|l| (l.errors.first().cloned(), l.live.len()));
    if let Some(e) = errors {
        return Err(format!("{what}, at the end: {e}"));
    }
    if h != Hook::Drop || !blown {
        ensure!(left == 0, "{what}: {left} values are never dropped");
    }
    Ok(blown)
}

fn sets<K: Api>(ctx: &mut Ctx, keys: &[K], c: &Content, bits: u64) -> R {
    // Retain and iteration of sets, interrupted at every point.
    for nth in 0..keys.len() as u64 + 1 {
        let mut s: Set<K> = Set::new();
        for (i, x) in c.iter().enumerate() {
            if x.is_some() {
                s.insert(keys[i]);
            }
        }
        let mut told = BTreeSet::new();
        arm(Hook::User, nth);
        let r = catch_unwind(AssertUnwindSafe(|| {
            s.retain(|k| {
                hook(Hook::User);
                let i = k.index().unwrap();
                let yes = keep(bits, i);
                if !yes {
                    told.insert(i);
                }
                yes
            })
        }));
        let blown = disarm();
        ensure!(r.is_err() == blown, "set retain: a panic in predicate call {nth} does not reach the caller");
        let mut n = 0;
        for (i, k) in keys.iter().enumerate() {
            let now = s.contains(*k);
            n += usize::from(now);
            ensure!(!now || c[i].is_some(), "set retain with a panic in call {nth}: {k:?} appeared");
            if c[i].is_some() && !told.contains(&i) {
                ensure!(now, "set retain with a panic in call {nth}: {k:?} is gone although its removal was not asked for");
            }
        }
        ensure!(s.len() == n && s.iter().count() == n, "set retain with a panic in call {nth}: len {}, iter {}, contained {n}", s.len(), s.iter().count());
        ctx.eval(fp(&[4242, nth, content_fp(c), u64::from(blown)]));
        for (j, k) in keys.iter().enumerate().step_by(1 + keys.len() / 10) {
            let was = s.contains(*k);
            ensure!(s.insert(*k) == !was && s.remove(*k) && !s.contains(*k), "set after interrupted retain: key number {j} misbehaves");
        }
        if !blown {
            break;
        }
        ctx.count("injected panics", 1);
    }
    // Reading.
    let mut s: Set<K> = Set::new();
    for (i, x) in c.iter().enumerate() {
        if x.is_some() {
            s.insert(keys[i]);
        }
    }
    for nth in [0, 1, 3] {
        for which in 0..4 {
            arm(Hook::User, nth);
            let _ = catch_unwind(AssertUnwindSafe(|| match which {
                0 => s.iter().for_each(|_| hook(Hook::User)),
                1 => s.intersection(&s).for_each(|_| hook(Hook::User)),
                2 => K::set_view(SetSrc::Own(K::clone_set(&s)), View::SetInto).for_each(&mut |_| hook(Hook::User)),
                _ => {
                    for _ in &s {
                        hook(Hook::User);
                    }
                }
            }));
            disarm();
            for (i, k) in keys.iter().enumerate() {
                ensure!(s.contains(*k) == c[i].is_some(), "an interrupted iteration changed {k:?}");
            }
            ctx.eval(fp(&[4243, nth, content_fp(c), which]));
        }
    }
    Ok(())
}

fn all<K: Api>(ctx: &mut Ctx, list: &[(&'static str, Op<K>, &'static [Hook])]) {
    let keys = K::universe();
    let n = keys.len();
    if n == 0 {
        ctx.eval(0);
        return;
    }
    let f = ctx.factor;
    let random = if n <= 20 { 4 * f } else if n <= 70 { 2 * f } else { f };
    for c in contents(n, random, if f > 4 { 5 } else { 3 }, &mut ctx.rng) {
        let d = if ctx.rng.bool() { c.clone() } else { random_content(n, &mut ctx.rng) };
        for (name, op, hooks) in list {
            let at = ctx.rng.below(n);
            let bits = ctx.rng.u64();
            for h in *hooks {
                ctx.case(name, |ctx| {
                    // At every call for small maps; else at the first, the
                    // last and some in between.
                    let mut nth = 0;
                    loop {
                        let blown = trial(ctx, &keys, &c, &d, name, *op, *h, nth, at, bits)
                            .map_err(|e| format!("{e}; contents {}", show(&c)))?;
                        if !blown {
                            break;
                        }
                        nth += if n > 24 && nth > 2 { 1 + ctx.rng.below(12) as u64 } else { 1 };
                    }
                    Ok(())
                });
            }
        }
        if !list.is_empty() {
            let bits = ctx.rng.u64();
            ctx.case("sets", |ctx| sets::<K>(ctx, &keys, &c, bits));
        }
        ctx.sample(|| format!("{} operations interrupted at every user call over {}", list.len(), show(&c)));
    }
}

pub fn run<K: Api>(ctx: &mut Ctx) {
    let l = ops::<K>();
    all::<K>(ctx, &l);
}

pub fn run_ord<K: OrdMapApi>(ctx: &mut Ctx) {
    let mut l = ops::<K>();
    l.extend(ops_ord::<K>());
    all::<K>(ctx, &l);
}
