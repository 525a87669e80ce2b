//! C09: retain keeps exactly the entries its predicate accepts.

use fixed_map::{Map, Set};

use crate::ctx::{fp, Ctx, R};
use crate::ensure;
use crate::gen::{build_map, build_set, content_fp, contents, observe, observe_set, present, show, Content};
use crate::shape::Shape;
use crate::val::{ledger_reset, ledger_verdict, Val};

/// What the predicate does with its n-th call for key i: (keep, value written).
#[derive(Clone, Copy, Debug)]
enum Plan {
    All,
    None,
    /// By key, by the bits of a random word.
    Key(u64),
    /// By the number of the call.
    Call(u64),
    /// Only the n-th call is accepted.
    OnlyCall(usize),
    AllButCall(usize),
    OnlyKey(usize),
    AllButKey(usize),
    /// By the value seen.
    Value(u64),
}

impl Plan {
    fn random(ctx: &mut Ctx, n: usize) -> Plan {
        let x = ctx.rng.u64();
        match ctx.rng.below(9) {
            0 => Plan::All,
            1 => Plan::None,
            2 => Plan::Key(x),
            3 => Plan::Call(x),
            4 => Plan::OnlyCall(ctx.rng.below(n + 1)),
            5 => Plan::AllButCall(ctx.rng.below(n + 1)),
            6 => Plan::OnlyKey(ctx.rng.below(n + 1)),
            7 => Plan::AllButKey(ctx.rng.below(n + 1)),
            _ => Plan::Value(x % 5),
        }
    }
    fn keep(self, i: usize, call: usize, v: u64) -> bool {
        match self {
            Plan::All => true,
            Plan::None => false,
            Plan::Key(x) => crate::rng::mix(x ^ i as u64) & 1 == 1,
            Plan::Call(x) => x >> (call % 64) & 1 == 1,
            Plan::OnlyCall(c) => c == call,
            Plan::AllButCall(c) => c != call,
            Plan::OnlyKey(k) => k == i,
            Plan::AllButKey(k) => k != i,
            Plan::Value(x) => v % 5 != x,
        }
    }
}

fn map<K: Shape, V: Val>(ctx: &mut Ctx, keys: &[K], c: &Content, plan: Plan, write: u64) -> R {
    let mut m: Map<K, V> = build_map(keys, c, &mut ctx.rng);
    // Several in a row: the state retain leaves behind is a state like others.
    let rounds = 1 + ctx.rng.below(2);
    for _ in 0..rounds {
        let obs = observe(&m, keys);
        let mut want = obs.clone();
        let mut calls = vec![0usize; keys.len()];
        let mut bad: Option<String> = None;
        let mut call = 0;
        m.retain(|k, v| {
            let seen = v.sig();
            let Some(i) = k.index() else {
                bad = Some(format!("the predicate is called with {k:?} which nobody inserted"));
                return true;
            };
            calls[i] += 1;
            if obs[i].is_none() {
                bad.get_or_insert(format!("the predicate is called for {k:?} which is absent"));
                return true;
            }
            if calls[i] > 1 {
                bad.get_or_insert(format!("the predicate is called {} times for {k:?}", calls[i]));
            }
            if Some(seen) != obs[i] {
                bad.get_or_insert(format!("the predicate is shown {seen} for {k:?} which holds {:?}", obs[i]));
            }
            let keep = plan.keep(i, call, seen);
            call += 1;
            // Writes happen to kept and to rejected entries.
            if write >> (i % 64) & 1 == 1 {
                *v = V::make(3000 + i as u64);
                want[i] = Some(V::norm(3000 + i as u64));
            }
            if !keep {
                want[i] = None;
            }
            keep
        });
        let what = || format!("{plan:?}, writes {write:#x}; contents before {}; values {}", show(&obs), V::NAME);
        if let Some(b) = bad {
            return Err(format!("{b}; {}", what()));
        }
        for i in 0..keys.len() {
            ensure!(
                calls[i] == usize::from(obs[i].is_some()),
                "the predicate is called {} times for {:?}, which is {}; {}",
                calls[i], keys[i], if obs[i].is_some() { "present" } else { "absent" }, what()
            );
        }
        let now = observe(&m, keys);
        for i in 0..keys.len() {
            ensure!(
                now[i] == want[i],
                "after retain {:?} holds {:?}, expected {:?}; {}",
                keys[i], now[i], want[i], what()
            );
        }
        ensure!(m.len() == present(&want), "after retain len is {}, expected {}; {}", m.len(), present(&want), what());
        ensure!(m.is_empty() == (present(&want) == 0), "after retain is_empty is {}; {}", m.is_empty(), what());
        ctx.count("predicate calls", call as u64);
        // Still a working map.
        if !keys.is_empty() {
            let i = ctx.rng.below(keys.len());
            let old = m.insert(keys[i], V::make(1)).map(|v| v.sig());
            ensure!(old == want[i], "insert after retain returns {old:?}, expected {:?}; {}", want[i], what());
        }
    }
    Ok(())
}

fn set<K: Shape>(ctx: &mut Ctx, keys: &[K], c: &Content, plan: Plan) -> R {
    let mut s: Set<K> = build_set(keys, c, &mut ctx.rng);
    let rounds = 1 + ctx.rng.below(2);
    for _ in 0..rounds {
        let obs = observe_set(&s, keys);
        let mut want = obs.clone();
        let mut calls = vec![0usize; keys.len()];
        let mut bad: Option<String> = None;
        let mut call = 0;
        s.retain(|k| {
            let Some(i) = k.index() else {
                bad = Some(format!("the predicate is called with {k:?} which nobody inserted"));
                return true;
            };
            calls[i] += 1;
            let keep = plan.keep(i, call, i as u64);
            call += 1;
            if !keep {
                want[i] = None;
            }
            keep
        });
        let what = || format!("{plan:?}; set before {}", show(&obs));
        if let Some(b) = bad {
            return Err(format!("set: {b}; {}", what()));
        }
        for i in 0..keys.len() {
            ensure!(
                calls[i] == usize::from(obs[i].is_some()),
                "set: the predicate is called {} times for {:?}, which is {}; {}",
                calls[i], keys[i], if obs[i].is_some() { "present" } else { "absent" }, what()
            );
        }
        let now = observe_set(&s, keys);
        for i in 0..keys.len() {
            ensure!(
                now[i].is_some() == want[i].is_some(),
                "set: after retain contains({:?}) is {}; {}",
                keys[i], now[i].is_some(), what()
            );
        }
        ensure!(s.len() == present(&want), "set: after retain len is {}, expected {}; {}", s.len(), present(&want), what());
        ctx.count("predicate calls", call as u64);
        if !keys.is_empty() {
            let i = ctx.rng.below(keys.len());
            let new = s.insert(keys[i]);
            ensure!(new == want[i].is_none(), "set: insert after retain returns {new}; {}", what());
        }
    }
    Ok(())
}

pub fn run<K: Shape, A: Val, B: Val>(ctx: &mut Ctx) {
    let keys = K::universe();
    let n = keys.len();
    let f = ctx.factor;
    ledger_reset();
    let random = if n <= 20 { 40 * f } else if n <= 70 { 16 * f } else { 6 * f };
    for c in contents(n, random, if f > 10 { 8 } else { 6 }, &mut ctx.rng) {
        for _ in 0..8 {
            let plan = Plan::random(ctx, n);
            let write = match ctx.rng.below(3) {
                0 => 0,
                1 => u64::MAX,
                _ => ctx.rng.u64(),
            };
            let code = format!("{plan:?}");
            ctx.case("map", |ctx| map::<K, A>(ctx, &keys, &c, plan, write));
            ctx.case("map", |ctx| map::<K, B>(ctx, &keys, &c, plan, write));
            ctx.case("set", |ctx| set::<K>(ctx, &keys, &c, plan));
            for t in 0..3 {
                ctx.eval(fp(&[t, content_fp(&c), crate::rng::hash_str(&code), write]));
            }
            ctx.sample(|| format!("{plan:?} writing {write:#x} on {}", show(&c)));
        }
    }
    ctx.case("ownership", |_| ledger_verdict(0));
}
