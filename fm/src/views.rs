//! All views of a map and a set with the same keys.

use fixed_map::{Map, Set};

use crate::ctx::R;
use crate::iters::{It, Item, MapSrc, SetSrc, View};
use crate::shape::Api;
use crate::val::Val;

pub const ALL: [View; 11] = [
    View::Iter,
    View::RefInto,
    View::Keys,
    View::Values,
    View::IterMut,
    View::MutInto,
    View::ValuesMut,
    View::Into,
    View::SetIter,
    View::SetRef,
    View::SetInto,
];

/// Open one view; owned ones consume a clone.
pub fn open<'a, K: Api, V: Val>(
    m: &'a mut Map<K, V>,
    s: &'a Set<K>,
    view: View,
) -> Box<dyn It<'a, K> + 'a> {
    match view {
        View::SetIter | View::SetRef => K::set_view(SetSrc::Ref(s), view),
        View::SetInto => K::set_view(SetSrc::Own(K::clone_set(s)), view),
        View::Into => K::view::<V>(MapSrc::Own(K::clone_map(m)), view),
        v if v.by_mut() => K::view(MapSrc::Mut(m), v),
        v => K::view(MapSrc::Ref(m), v),
    }
}

/// Two items are the same item (addresses aside).
pub fn same<K: PartialEq>(a: &Item<K>, b: &Item<K>) -> bool {
    a.k == b.k && a.v == b.v
}

pub fn same_seq<K: PartialEq>(a: &[Item<K>], b: &[Item<K>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b))
}

pub fn shown<K: std::fmt::Debug>(a: &[Item<K>]) -> String {
    let mut o = String::from("[");
    for (n, i) in a.iter().enumerate() {
        if n == 12 {
            o.push_str(&format!(" … {} in all", a.len()));
            break;
        }
        if n > 0 {
            o.push_str(", ");
        }
        match (&i.k, i.v) {
            (Some(k), Some(v)) => o.push_str(&format!("{k:?}={v}")),
            (Some(k), None) => o.push_str(&format!("{k:?}")),
            (None, Some(v)) => o.push_str(&format!("={v}")),
            _ => o.push('?'),
        }
    }
    o.push(']');
    o
}

pub fn shown1<K: std::fmt::Debug + Copy>(a: &Option<Item<K>>) -> String {
    match a {
        None => "none".to_string(),
        Some(i) => shown(&[*i]),
    }
}

/// The items of a view must be exactly the given content, once each.
pub fn exactly<K: Api>(items: &[Item<K>], obs: &[Option<u64>], view: View) -> R {
    if view.has_keys() {
        let mut seen = vec![false; obs.len()];
        for it in items {
            let k = it.k.unwrap();
            let Some(i) = k.index() else {
                return Err(format!("{view:?} yields {k:?}, a key nobody inserted; items {}", shown(items)));
            };
            if obs[i].is_none() {
                return Err(format!("{view:?} yields {k:?} which is not present; items {}", shown(items)));
            }
            if seen[i] {
                return Err(format!("{view:?} yields {k:?} twice; items {}", shown(items)));
            }
            seen[i] = true;
            if view.has_values() && it.v != obs[i] {
                return Err(format!("{view:?} pairs {k:?} with {:?}, get returns {:?}", it.v, obs[i]));
            }
        }
        if let Some(i) = (0..obs.len()).find(|&i| obs[i].is_some() && !seen[i]) {
            return Err(format!("{view:?} misses key number {i} which is present; items {}", shown(items)));
        }
    } else {
        let mut a: Vec<u64> = items.iter().map(|i| i.v.unwrap()).collect();
        let mut b: Vec<u64> = obs.iter().filter_map(|x| *x).collect();
        a.sort_unstable();
        b.sort_unstable();
        if a != b {
            return Err(format!("{view:?} yields values {}, present are {b:?}", shown(items)));
        }
    }
    Ok(())
}
