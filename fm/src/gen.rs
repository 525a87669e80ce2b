//! Building containers by varied histories, and observing them.

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};

use crate::rng::Rng;
use crate::shape::Shape;
use crate::val::Val;

/// A content: for every key of the universe maybe a number to make a value of.
pub type Content = Vec<Option<u64>>;

pub fn content_fp(c: &[Option<u64>]) -> u64 {
    let mut h = 17u64;
    for (i, x) in c.iter().enumerate() {
        if x.is_some() {
            h = crate::rng::mix(h ^ i as u64);
        }
    }
    h
}

pub fn mask_content(n: usize, mask: u64, rng: &mut Rng) -> Content {
    (0..n)
        .map(|i| (mask >> i & 1 == 1).then(|| small(rng)))
        .collect()
}

/// Mostly small and colliding, sometimes large numbers.
pub fn small(rng: &mut Rng) -> u64 {
    match rng.below(4) {
        0 => rng.below(4) as u64,
        1 => rng.below(64) as u64,
        2 => rng.below(100_000) as u64,
        _ => rng.u64() >> 1,
    }
}

/// A random content of varied density.
pub fn random_content(n: usize, rng: &mut Rng) -> Content {
    let style = rng.below(9);
    let mut c: Content = match style {
        0 => vec![None; n],
        1 => (0..n).map(|_| Some(small(rng))).collect(),
        2 => {
            let one = rng.below(n);
            (0..n).map(|i| (i == one).then(|| small(rng))).collect()
        }
        3 => {
            let one = rng.below(n);
            (0..n).map(|i| (i != one).then(|| small(rng))).collect()
        }
        4 => {
            let (a, b) = (rng.below(n + 1), rng.below(n + 1));
            (0..n)
                .map(|i| (i >= a.min(b) && i < a.max(b)).then(|| small(rng)))
                .collect()
        }
        s => {
            let den = [2, 4, 4, 8][s - 5];
            let num = [1, 1, 3, 1][s - 5];
            (0..n).map(|_| rng.chance(num, den).then(|| small(rng))).collect()
        }
    };
    if n > 0 && rng.chance(1, 6) {
        // The ends matter.
        let i = if rng.bool() { 0 } else { n - 1 };
        c[i] = if rng.bool() { Some(small(rng)) } else { None };
    }
    c
}

/// Contents to try for a universe of `n`: every subset when there are few.
pub fn contents(n: usize, random: usize, exhaustive_up_to: usize, rng: &mut Rng) -> Vec<Content> {
    let mut out = Vec::new();
    if n <= exhaustive_up_to {
        for mask in 0..1u64 << n {
            out.push(mask_content(n, mask, rng));
        }
    } else {
        out.push(vec![None; n]);
        out.push((0..n).map(|i| Some(i as u64)).collect());
        for _ in 0..random {
            out.push(random_content(n, rng));
        }
    }
    out
}

/// Build a map with a given content through one of many different histories.
pub fn build_map<K: Shape, V: Val>(keys: &[K], c: &[Option<u64>], rng: &mut Rng) -> Map<K, V> {
    let style = rng.below(10);
    build_map_style(keys, c, style, rng)
}

pub fn build_map_style<K: Shape, V: Val>(
    keys: &[K],
    c: &[Option<u64>],
    style: usize,
    rng: &mut Rng,
) -> Map<K, V> {
    let mut order: Vec<usize> = (0..keys.len()).collect();
    match style {
        0 => {}
        1 => order.reverse(),
        _ => rng.shuffle(&mut order),
    }
    let v = |i: usize| V::make(c[i].unwrap());
    let wanted: Vec<usize> = order.iter().copied().filter(|&i| c[i].is_some()).collect();
    let mut m = match style {
        2 => Map::default(),
        3 => return wanted.iter().map(|&i| (keys[i], v(i))).collect(),
        _ => Map::new(),
    };
    match style {
        4 => {
            // Start full, then remove.
            for &i in &order {
                m.insert(keys[i], V::make(c[i].unwrap_or(99)));
            }
            for &i in &order {
                if c[i].is_none() {
                    m.remove(keys[i]);
                }
            }
        }
        5 => {
            // Start full of junk, keep the wanted ones and rewrite them.
            for &i in &order {
                m.insert(keys[i], V::make(7));
            }
            m.retain(|k, _| k.index().map_or(false, |i| c[i].is_some()));
            for &i in &wanted {
                m.insert(keys[i], v(i));
            }
        }
        6 => {
            for &i in &order {
                m.insert(keys[i], V::make(i as u64));
            }
            m.clear();
            for &i in &wanted {
                m.insert(keys[i], v(i));
            }
        }
        7 => {
            for &i in &wanted {
                match m.entry(keys[i]) {
                    Entry::Vacant(e) => {
                        e.insert(v(i));
                    }
                    Entry::Occupied(mut e) => {
                        e.insert(v(i));
                    }
                }
            }
        }
        8 => {
            // With detours.
            for &i in &wanted {
                if rng.chance(1, 3) {
                    let j = order[rng.below(order.len())];
                    if m.get(keys[j]).is_none() {
                        m.insert(keys[j], V::make(1));
                        m.remove(keys[j]);
                    }
                }
                m.insert(keys[i], V::make(3));
                if rng.bool() {
                    m.remove(keys[i]);
                }
                m.insert(keys[i], v(i));
            }
        }
        9 => {
            // Everything in, then out and in again through mutable access.
            for &i in &wanted {
                m.insert(keys[i], V::make(5));
            }
            for (k, slot) in m.iter_mut() {
                if let Some(i) = k.index() {
                    if c[i].is_some() {
                        *slot = v(i);
                    }
                }
            }
        }
        _ => {
            for &i in &wanted {
                m.insert(keys[i], v(i));
            }
        }
    }
    m
}

pub fn build_set<K: Shape>(keys: &[K], c: &[Option<u64>], rng: &mut Rng) -> Set<K> {
    let style = rng.below(8);
    let mut order: Vec<usize> = (0..keys.len()).collect();
    match style {
        0 => {}
        1 => order.reverse(),
        _ => rng.shuffle(&mut order),
    }
    let wanted: Vec<usize> = order.iter().copied().filter(|&i| c[i].is_some()).collect();
    let mut s = match style {
        2 => Set::default(),
        3 => return wanted.iter().map(|&i| keys[i]).collect(),
        _ => Set::new(),
    };
    match style {
        4 => {
            for &i in &order {
                s.insert(keys[i]);
            }
            for &i in &order {
                if c[i].is_none() {
                    s.remove(keys[i]);
                }
            }
        }
        5 => {
            for &i in &order {
                s.insert(keys[i]);
            }
            let kept = |k: K| keys.iter().position(|q| *q == k);
            s.retain(|k| kept(k).map_or(false, |i| c[i].is_some()));
        }
        6 => {
            for &i in &order {
                s.insert(keys[i]);
            }
            s.clear();
            for &i in &wanted {
                s.insert(keys[i]);
            }
        }
        7 => {
            for &i in &wanted {
                s.insert(keys[i]);
                if rng.bool() {
                    s.remove(keys[i]);
                    s.insert(keys[i]);
                } else {
                    s.insert(keys[i]);
                }
            }
        }
        _ => {
            for &i in &wanted {
                s.insert(keys[i]);
            }
        }
    }
    s
}

/// The content as point queries see it: the reference for everything which is
/// not about point operations themselves.
pub fn observe<K: Shape, V: Val>(m: &Map<K, V>, keys: &[K]) -> Content {
    crate::ctx::beat();
    keys.iter().map(|k| m.get(*k).map(Val::sig)).collect()
}

pub fn observe_set<K: Shape>(s: &Set<K>, keys: &[K]) -> Content {
    crate::ctx::beat();
    keys.iter().map(|k| s.contains(*k).then_some(0)).collect()
}

pub fn present(c: &[Option<u64>]) -> usize {
    c.iter().filter(|x| x.is_some()).count()
}

pub fn show(c: &[Option<u64>]) -> String {
    let mut s = String::from("{");
    for (i, x) in c.iter().enumerate() {
        if let Some(x) = x {
            if s.len() > 400 {
                s.push_str(" …");
                break;
            }
            s.push_str(&format!(" #{i}={x}"));
        }
    }
    s.push_str(" }");
    s
}
