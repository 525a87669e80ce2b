//! C25: debug output lists exactly the contents.

use std::fmt::{self, Debug, Write};

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, observe, observe_set, show, Content};
use crate::shape::Api;
use crate::val::{ledger, ledger_reset, ledger_verdict, Tr, Val};

/// The standard formatting of the same entries.
struct StdMap<'a, K, V>(&'a [(K, &'a V)]);
impl<K: Debug, V: Debug> Debug for StdMap<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.0.iter().map(|(k, v)| (k, *v))).finish()
    }
}
struct StdSet<'a, K>(&'a [K]);
impl<K: Debug> Debug for StdSet<'_, K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.0.iter()).finish()
    }
}

type Render = fn(&dyn Debug, &mut dyn Write) -> fmt::Result;

/// Every way of asking.
const FORMATS: [(&str, Render); 20] = [
    ("{:?}", |d, w| write!(w, "{d:?}")),
    ("{:#?}", |d, w| write!(w, "{d:#?}")),
    ("{:8?}", |d, w| write!(w, "{d:8?}")),
    ("{:<8?}", |d, w| write!(w, "{d:<8?}")),
    ("{:>12?}", |d, w| write!(w, "{d:>12?}")),
    ("{:^9?}", |d, w| write!(w, "{d:^9?}")),
    ("{:*^9?}", |d, w| write!(w, "{d:*^9?}")),
    ("{:08?}", |d, w| write!(w, "{d:08?}")),
    ("{:+?}", |d, w| write!(w, "{d:+?}")),
    ("{:.1?}", |d, w| write!(w, "{d:.1?}")),
    ("{:8.3?}", |d, w| write!(w, "{d:8.3?}")),
    ("{:x?}", |d, w| write!(w, "{d:x?}")),
    ("{:X?}", |d, w| write!(w, "{d:X?}")),
    ("{:#x?}", |d, w| write!(w, "{d:#x?}")),
    ("{:#X?}", |d, w| write!(w, "{d:#X?}")),
    ("{:#010x?}", |d, w| write!(w, "{d:#010x?}")),
    ("{:#12?}", |d, w| write!(w, "{d:#12?}")),
    ("{:+08.2?}", |d, w| write!(w, "{d:+08.2?}")),
    ("{:-^20?}", |d, w| write!(w, "{d:-^20?}")),
    ("{:#<4?}", |d, w| write!(w, "{d:#<4?}")),
];

/// Takes so many bytes and then fails, for good or once.
struct Limited {
    left: usize,
    got: String,
    failed: bool,
    after: usize,
}
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        crate::ctx::beat();
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        if s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

fn compare(ctx: &mut Ctx, got: &dyn Debug, want: &dyn Debug, what: &str) -> R {
    for (name, render) in FORMATS {
        let (mut a, mut b) = (String::new(), String::new());
        let ra = render(got, &mut a);
        let rb = render(want, &mut b);
        ensure!(ra == rb, "{what}: formatting with {name} ends with {ra:?}, std with {rb:?}");
        ensure!(a == b, "{what}: {name} gives {a:?}, the standard formatting is {b:?}");
        ctx.count("texts compared", 1);
    }
    // A writer which fails at any byte.
    for (name, render) in [FORMATS[0], FORMATS[1]] {
        let mut full = String::new();
        let _ = render(want, &mut full);
        let step = (full.len() / 40).max(1);
        let mut at = ctx.rng.below(step);
        while at < full.len() {
            let mut w = Limited { left: at, got: String::new(), failed: false, after: 0 };
            let r = render(got, &mut w);
            let mut u = Limited { left: at, got: String::new(), failed: false, after: 0 };
            let _ = render(want, &mut u);
            ensure!(r.is_err(), "{what}: {name} succeeds though the writer failed after {at} bytes of {}", full.len());
            ensure!(w.failed, "{what}: {name} fails though the writer did not");
            ensure!(full.starts_with(&w.got), "{what}: {name} wrote {:?} before the failure, the whole is {full:?}", w.got);
            ensure!(w.got == u.got, "{what}: {name} stops at {:?}, the standard formatting at {:?}", w.got, u.got);
            ctx.count("writer failures", 1);
            at += step;
        }
        let mut w = Limited { left: full.len(), got: String::new(), failed: false, after: 0 };
        ensure!(render(got, &mut w).is_ok() && w.got == full, "{what}: {name} fails with a writer which does not");
    }
    Ok(())
}

/// A value whose formatting fails.
#[derive(Clone, PartialEq)]
struct Bad(bool);
impl Debug for Bad {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0 {
            Err(fmt::Error)
        } else {
            f.write_str("good")
        }
    }
}

/// Sees the flags it is formatted with.
#[derive(Clone, PartialEq)]
struct Flags;
impl Debug for Flags {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "<{:?} {:?} {:?} {} {} {} {}>",
            f.width(), f.precision(), f.fill(), f.alternate(), f.sign_plus(), f.sign_minus(), f.sign_aware_zero_pad()
        )
    }
}

fn maps<K: Api, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    let obs = observe(&m, keys);
    let order: Vec<K> = m.iter().map(|(k, _)| k).collect();
    let mut entries: Vec<(K, &V)> = Vec::new();
    for k in &order {
        let Some(v) = m.get(*k) else {
            return Err(format!("iteration yields {k:?} which is absent"));
        };
        entries.push((*k, v));
    }
    ensure!(entries.len() == obs.iter().flatten().count(), "iteration yields {} entries of {}", entries.len(), show(&obs));
    compare(ctx, &m, &StdMap(&entries), &format!("map {} of {}", show(c), V::NAME))?;
    ensure!(observe(&m, keys) == obs, "formatting changed the map from {} to {}", show(&obs), show(&observe(&m, keys)));
    ctx.eval(fp(&[1, content_fp(c), crate::rng::hash_str(V::NAME)]));
    ctx.sample(|| format!("{:?}", m));
    Ok(())
}

fn sets<K: Api>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let obs = observe_set(&s, keys);
    let order: Vec<K> = s.iter().collect();
    ensure!(order.len() == obs.iter().flatten().count(), "iteration yields {order:?}");
    compare(ctx, &s, &StdSet(&order), &format!("set {}", show(c)))?;
    ensure!(observe_set(&s, keys) == obs, "formatting changed the set from {} to {}", show(&obs), show(&observe_set(&s, keys)));
    ctx.eval(fp(&[2, content_fp(c)]));
    Ok(())
}

/// Containers in containers, failing values, values which look at the flags.
fn special<K: Api>(ctx: &mut Ctx, keys: &[K], c: &Content) -> R {
    let n = keys.len();
    let mut m: Map<K, Flags> = Map::new();
    let mut deep: Map<K, Map<K, u8>> = Map::new();
    let mut bad: Map<K, Bad> = Map::new();
    let fails = ctx.rng.below(n + 1);
    for i in 0..n {
        if c[i].is_some() {
            m.insert(keys[i], Flags);
            if i < 6 {
                let mut x = Map::new();
                x.insert(keys[(i * 7) % n], i as u8);
                deep.insert(keys[i], x);
            }
            bad.insert(keys[i], Bad(i == fails));
        }
    }
    let o: Vec<(K, &Flags)> = m.iter().collect();
    compare(ctx, &m, &StdMap(&o), "map of flag readers")?;
    let o: Vec<(K, &Map<K, u8>)> = deep.iter().collect();
    compare(ctx, &deep, &StdMap(&o), "map of maps")?;
    compare(ctx, &Some(&deep), &Some(&StdMap(&o)), "map in an option")?;
    let o: Vec<(K, &Bad)> = bad.iter().collect();
    let (mut a, mut b) = (String::new(), String::new());
    let ra = write!(a, "{bad:?}");
    let rb = write!(b, "{:?}", StdMap(&o));
    ensure!(ra == rb && a == b, "a value failing to format: {ra:?} after {a:?}, std {rb:?} after {b:?}");
    ctx.eval(fp(&[3, content_fp(c)]));
    Ok(())
}

pub fn run<K: Api, A: Val, B: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    let random = if n <= 20 { 12 * f } else if n <= 70 { 5 * f } else { 2 * f };
    ledger_reset();
    for c in contents(n, random, 4, &mut ctx.rng) {
        ctx.case("maps", |ctx| maps::<K, A>(ctx, &keys, &c));
        ctx.case("maps", |ctx| maps::<K, B>(ctx, &keys, &c));
        ctx.case("maps", |ctx| maps::<K, Tr>(ctx, &keys, &c));
        ctx.case("sets", |ctx| sets::<K>(ctx, &keys, &c));
        ctx.case("special", |ctx| special::<K>(ctx, &keys, &c));
    }
    let made = ledger(|l| l.made);
    ctx.count("tracked values", made);
    ctx.case("ownership", |_| ledger_verdict(0));
}
