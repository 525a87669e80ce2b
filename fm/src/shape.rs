//! Key shapes and their documented structure.

use core::fmt::Debug;
use fixed_map::{Key, Map, Set};

use crate::iters::{It, MapSrc, SetSrc, View};
use crate::val::Val;

/// A key type together with an independent description of its structure.
///
/// Everything here is written (or generated) from the *definition* of the key
/// type and the documentation alone: the universe lists the keys in documented
/// order, `index` finds a key's place in it by structural matching.
pub trait Shape: Key + Debug + PartialEq + Send + Sync + 'static {
    const NAME: &'static str;
    /// Number of keys in the universe.
    const COUNT: usize;
    /// No hashed component.
    const FIXED: bool;
    /// The universe is every key of the type, not a sample.
    const COMPLETE: bool;

    /// All keys (a sample for hashed components) in documented order.
    fn fill(out: &mut Vec<Self>);
    /// For each key the group it belongs to: groups are in order, keys of
    /// different groups are ordered, keys within one hashed group are not.
    fn groups(next: &mut u32, out: &mut Vec<u32>);
    /// Place in the universe.
    fn index(&self) -> Option<usize>;

    fn universe() -> Vec<Self> {
        let mut v = Vec::new();
        Self::fill(&mut v);
        assert_eq!(v.len(), Self::COUNT);
        v
    }

    fn group_list() -> Vec<u32> {
        let mut v = Vec::new();
        let mut n = 0;
        Self::groups(&mut n, &mut v);
        assert_eq!(v.len(), Self::COUNT);
        v
    }
}

/// What can be done with containers keyed by a shape; implemented by the
/// `shape_api!` macro where the key type is concrete.
pub trait Api: Shape {
    fn view<'a, V: Val>(src: MapSrc<'a, Self, V>, view: View) -> Box<dyn It<'a, Self> + 'a>;
    fn set_view<'a>(src: SetSrc<'a, Self>, view: View) -> Box<dyn It<'a, Self> + 'a>;
    fn clone_map<V: Clone>(m: &Map<Self, V>) -> Map<Self, V>;
    fn clone_set(s: &Set<Self>) -> Set<Self>;
    fn clone_map_from<V: Clone>(m: &mut Map<Self, V>, o: &Map<Self, V>);
    fn clone_set_from(s: &mut Set<Self>, o: &Set<Self>);
    fn map_eq<V: PartialEq>(a: &Map<Self, V>, b: &Map<Self, V>) -> bool;
    fn map_ne<V: PartialEq>(a: &Map<Self, V>, b: &Map<Self, V>) -> bool;
    fn set_eq(a: &Set<Self>, b: &Set<Self>) -> bool;
    fn set_ne(a: &Set<Self>, b: &Set<Self>) -> bool;
}

/// Shapes without hashed component: containers are `Copy`.
pub trait FixedApi: Api {
    fn copy_map<V: Copy>(m: &Map<Self, V>) -> Map<Self, V>;
    fn copy_set(s: &Set<Self>) -> Set<Self>;
}

/// Shapes whose sets are ordered and hashable.
pub trait OrdSetApi: Api {
    fn set_cmp(a: &Set<Self>, b: &Set<Self>) -> core::cmp::Ordering;
    fn set_partial_cmp(a: &Set<Self>, b: &Set<Self>) -> Option<core::cmp::Ordering>;
    /// `<`, `<=`, `>`, `>=`
    fn set_ops(a: &Set<Self>, b: &Set<Self>) -> [bool; 4];
    fn set_max(a: Set<Self>, b: Set<Self>) -> Set<Self>;
    fn set_min(a: Set<Self>, b: Set<Self>) -> Set<Self>;
    fn set_clamp(a: Set<Self>, b: Set<Self>, c: Set<Self>) -> Set<Self>;
    fn set_hash(a: &Set<Self>, h: &mut dyn core::hash::Hasher);
    fn set_hash_slice(a: &[Set<Self>], h: &mut dyn core::hash::Hasher);
}

/// Shapes whose maps are ordered and hashable.
pub trait OrdMapApi: OrdSetApi {
    fn map_cmp<V: Ord>(a: &Map<Self, V>, b: &Map<Self, V>) -> core::cmp::Ordering;
    fn map_partial_cmp<V: PartialOrd>(
        a: &Map<Self, V>,
        b: &Map<Self, V>,
    ) -> Option<core::cmp::Ordering>;
    fn map_ops<V: PartialOrd>(a: &Map<Self, V>, b: &Map<Self, V>) -> [bool; 4];
    fn map_max<V: Ord>(a: Map<Self, V>, b: Map<Self, V>) -> Map<Self, V>;
    fn map_min<V: Ord>(a: Map<Self, V>, b: Map<Self, V>) -> Map<Self, V>;
    fn map_clamp<V: Ord>(a: Map<Self, V>, b: Map<Self, V>, c: Map<Self, V>) -> Map<Self, V>;
    fn map_hash<V: core::hash::Hash>(a: &Map<Self, V>, h: &mut dyn core::hash::Hasher);
}

/// Bitset shapes: raw access, widened to 128 bits.
pub trait RawApi: OrdSetApi {
    const WIDTH: u32;
    fn raw(s: &Set<Self>) -> u128;
    /// Bits beyond the raw type's width are cut off.
    fn from_raw(raw: u128) -> Set<Self>;
    fn raw_type() -> &'static str;
    fn raw_size() -> usize;
}

impl Shape for bool {
    const NAME: &'static str = "bool";
    const COUNT: usize = 2;
    const FIXED: bool = true;
    const COMPLETE: bool = true;
    fn fill(out: &mut Vec<Self>) {
        out.extend([true, false]);
    }
    fn groups(next: &mut u32, out: &mut Vec<u32>) {
        out.extend([*next, *next + 1]);
        *next += 2;
    }
    fn index(&self) -> Option<usize> {
        Some(if *self { 0 } else { 1 })
    }
}

impl Shape for () {
    const NAME: &'static str = "()";
    const COUNT: usize = 1;
    const FIXED: bool = true;
    const COMPLETE: bool = true;
    fn fill(out: &mut Vec<Self>) {
        out.push(());
    }
    fn groups(next: &mut u32, out: &mut Vec<u32>) {
        out.push(*next);
        *next += 1;
    }
    fn index(&self) -> Option<usize> {
        Some(0)
    }
}

impl<K: Shape> Shape for Option<K> {
    const NAME: &'static str = "Option";
    const COUNT: usize = K::COUNT + 1;
    const FIXED: bool = K::FIXED;
    const COMPLETE: bool = K::COMPLETE;
    fn fill(out: &mut Vec<Self>) {
        let mut v = Vec::new();
        K::fill(&mut v);
        out.extend(v.into_iter().map(Some));
        out.push(None);
    }
    fn groups(next: &mut u32, out: &mut Vec<u32>) {
        K::groups(next, out);
        out.push(*next);
        *next += 1;
    }
    fn index(&self) -> Option<usize> {
        match self {
            Some(k) => k.index(),
            None => Some(K::COUNT),
        }
    }
}

#[cfg(feature = "hashbrown")]
macro_rules! hashed {
    ($ty:ty, $name:literal, $n:expr, $list:expr) => {
        impl Shape for $ty {
            const NAME: &'static str = $name;
            const COUNT: usize = $n;
            const FIXED: bool = false;
            const COMPLETE: bool = false;
            fn fill(out: &mut Vec<Self>) {
                let l: &[$ty] = &$list;
                out.extend_from_slice(l);
            }
            fn groups(next: &mut u32, out: &mut Vec<u32>) {
                out.extend(core::iter::repeat(*next).take($n));
                *next += 1;
            }
            fn index(&self) -> Option<usize> {
                let l: &[$ty] = &$list;
                l.iter().position(|x| x == self)
            }
        }
    };
}

const fn wide() -> [u64; 260] {
    let mut a = [0u64; 260];
    let mut i = 0;
    while i < 260 {
        a[i] = if i < 130 {
            i as u64
        } else if i < 200 {
            (i as u64) << 56 | i as u64
        } else {
            u64::MAX - (i as u64 * 4096)
        };
        i += 1;
    }
    a
}
pub static WIDE: [u64; 260] = wide();

#[cfg(feature = "hashbrown")]
mod hashed_shapes {
    use super::*;
    hashed!(char, "char", 6, ['a', '\0', 'ÿ', '\u{d7ff}', '\u{e000}', '\u{10ffff}']);
    hashed!(u8, "u8", 6, [0, 1, 2, 127, 128, 255]);
    hashed!(u32, "u32", 7, [0, 1, 2, 1 << 16, 1 << 31, u32::MAX - 1, u32::MAX]);
    hashed!(u64, "u64", 260, WIDE);
    hashed!(u128, "u128", 5, [0, 1, 1 << 64, u128::MAX >> 1, u128::MAX]);
    hashed!(usize, "usize", 4, [0, 1, usize::MAX - 1, usize::MAX]);
    hashed!(i8, "i8", 5, [0, -1, 1, i8::MIN, i8::MAX]);
    hashed!(i32, "i32", 5, [0, -1, 1, i32::MIN, i32::MAX]);
    hashed!(i64, "i64", 5, [0, -1, 1 << 32, i64::MIN, i64::MAX]);
    hashed!(i128, "i128", 5, [0, -1, 1 << 64, i128::MIN, i128::MAX]);
    hashed!(isize, "isize", 4, [0, -1, isize::MIN, isize::MAX]);
    hashed!(&'static str, "&'static str", 6, ["", "a", "b", "ab", "ba", "a\0"]);
    hashed!(&'static [u8], "&'static [u8]", 5, [b"", b"\0", b"\0\0", b"a", b"\xff\xfe"]);
}

/// A user written key reusing the storage of `()`.
#[derive(Debug, Clone, Copy, PartialEq, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct UserUnit;

impl Key for UserUnit {
    type MapStorage<V> = <() as Key>::MapStorage<V>;
    type SetStorage = <() as Key>::SetStorage;
}

impl Shape for UserUnit {
    const NAME: &'static str = "UserUnit";
    const COUNT: usize = 1;
    const FIXED: bool = true;
    const COMPLETE: bool = true;
    fn fill(out: &mut Vec<Self>) {
        out.push(UserUnit);
    }
    fn groups(next: &mut u32, out: &mut Vec<u32>) {
        out.push(*next);
        *next += 1;
    }
    fn index(&self) -> Option<usize> {
        Some(0)
    }
}

/// Implements [`Api`] for a concrete key type: `shape_api!(K, fixed)` or
/// `shape_api!(K, hashed)`.
#[macro_export]
macro_rules! shape_api {
    (@set $t:ident) => {};
    ($k:ty, fixed) => {
        $crate::shape_api!(@impl $k, wrap_de_clone, wrap_de, wrap_de_clone_into);
        impl $crate::shape::FixedApi for $k {
            fn copy_map<V: Copy>(m: &$crate::Map<Self, V>) -> $crate::Map<Self, V> { *m }
            fn copy_set(s: &$crate::Set<Self>) -> $crate::Set<Self> { *s }
        }
    };
    ($k:ty, hashed) => {
        $crate::shape_api!(@impl $k, wrap_clone, wrap_plain, wrap_plain);
    };
    (@impl $k:ty, $c:ident, $p:ident, $ci:ident) => {
        impl $crate::shape::Api for $k {
            #[allow(unused_imports)]
            fn view<'a, V: $crate::val::Val>(src: $crate::iters::MapSrc<'a, Self, V>, view: $crate::iters::View) -> ::std::boxed::Box<dyn $crate::iters::It<'a, Self> + 'a> {
                use $crate::iters::{MapSrc, View, Item, Probe, ExactFallback};
                match (src, view) {
                    (MapSrc::Ref(m), View::Iter) => $crate::iters::$c(m.iter(), |i| Probe(i).exact(), |(k, v)| Item::kv(k, v)),
                    (MapSrc::Ref(m), View::RefInto) => $crate::iters::$c(IntoIterator::into_iter(m), |i| Probe(i).exact(), |(k, v)| Item::kv(k, v)),
                    (MapSrc::Ref(m), View::Keys) => $crate::iters::$c(m.keys(), |i| Probe(i).exact(), Item::k),
                    (MapSrc::Ref(m), View::Values) => $crate::iters::$c(m.values(), |i| Probe(i).exact(), Item::v),
                    (MapSrc::Mut(m), View::IterMut) => $crate::iters::$p(m.iter_mut(), |i| Probe(i).exact(), |(k, v)| Item::kv(k, v)),
                    (MapSrc::Mut(m), View::MutInto) => $crate::iters::$p(IntoIterator::into_iter(m), |i| Probe(i).exact(), |(k, v)| Item::kv(k, v)),
                    (MapSrc::Mut(m), View::ValuesMut) => $crate::iters::$p(m.values_mut(), |i| Probe(i).exact(), |v| Item::v(v)),
                    (MapSrc::Own(m), View::Into) => $crate::iters::$ci(IntoIterator::into_iter(m), |i| Probe(i).exact(), |(k, v)| Item::kv_own(k, v)),
                    _ => ::std::unreachable!(),
                }
            }
            #[allow(unused_imports)]
            fn set_view<'a>(src: $crate::iters::SetSrc<'a, Self>, view: $crate::iters::View) -> ::std::boxed::Box<dyn $crate::iters::It<'a, Self> + 'a> {
                use $crate::iters::{SetSrc, View, Item, Probe, ExactFallback};
                match (src, view) {
                    (SetSrc::Ref(s), View::SetIter) => $crate::iters::$c(s.iter(), |i| Probe(i).exact(), Item::k),
                    (SetSrc::Ref(s), View::SetRef) => $crate::iters::$c(IntoIterator::into_iter(s), |i| Probe(i).exact(), Item::k),
                    (SetSrc::Own(s), View::SetInto) => $crate::iters::$ci(IntoIterator::into_iter(s), |i| Probe(i).exact(), Item::k),
                    _ => ::std::unreachable!(),
                }
            }
            fn clone_map<V: Clone>(m: &$crate::Map<Self, V>) -> $crate::Map<Self, V> { Clone::clone(m) }
            fn clone_set(s: &$crate::Set<Self>) -> $crate::Set<Self> { Clone::clone(s) }
            fn clone_map_from<V: Clone>(m: &mut $crate::Map<Self, V>, o: &$crate::Map<Self, V>) { Clone::clone_from(m, o) }
            fn clone_set_from(s: &mut $crate::Set<Self>, o: &$crate::Set<Self>) { Clone::clone_from(s, o) }
            fn map_eq<V: PartialEq>(a: &$crate::Map<Self, V>, b: &$crate::Map<Self, V>) -> bool { a == b }
            fn map_ne<V: PartialEq>(a: &$crate::Map<Self, V>, b: &$crate::Map<Self, V>) -> bool { a != b }
            fn set_eq(a: &$crate::Set<Self>, b: &$crate::Set<Self>) -> bool { a == b }
            fn set_ne(a: &$crate::Set<Self>, b: &$crate::Set<Self>) -> bool { a != b }
        }
    };
}

/// Implements the ordering interfaces: `ord_api!(K, set)` or `ord_api!(K, both)`.
#[macro_export]
macro_rules! ord_api {
    ($k:ty, set) => {
        impl $crate::shape::OrdSetApi for $k {
            fn set_cmp(a: &$crate::Set<Self>, b: &$crate::Set<Self>) -> ::core::cmp::Ordering { Ord::cmp(a, b) }
            fn set_partial_cmp(a: &$crate::Set<Self>, b: &$crate::Set<Self>) -> Option<::core::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
            fn set_ops(a: &$crate::Set<Self>, b: &$crate::Set<Self>) -> [bool; 4] { [a < b, a <= b, a > b, a >= b] }
            fn set_max(a: $crate::Set<Self>, b: $crate::Set<Self>) -> $crate::Set<Self> { Ord::max(a, b) }
            fn set_min(a: $crate::Set<Self>, b: $crate::Set<Self>) -> $crate::Set<Self> { Ord::min(a, b) }
            fn set_clamp(a: $crate::Set<Self>, b: $crate::Set<Self>, c: $crate::Set<Self>) -> $crate::Set<Self> { Ord::clamp(a, b, c) }
            fn set_hash(a: &$crate::Set<Self>, mut h: &mut dyn ::core::hash::Hasher) { ::core::hash::Hash::hash(a, &mut h) }
            fn set_hash_slice(a: &[$crate::Set<Self>], mut h: &mut dyn ::core::hash::Hasher) { ::core::hash::Hash::hash_slice(a, &mut h) }
        }
    };
    ($k:ty, both) => {
        $crate::ord_api!($k, set);
        impl $crate::shape::OrdMapApi for $k {
            fn map_cmp<V: Ord>(a: &$crate::Map<Self, V>, b: &$crate::Map<Self, V>) -> ::core::cmp::Ordering { Ord::cmp(a, b) }
            fn map_partial_cmp<V: PartialOrd>(a: &$crate::Map<Self, V>, b: &$crate::Map<Self, V>) -> Option<::core::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
            fn map_ops<V: PartialOrd>(a: &$crate::Map<Self, V>, b: &$crate::Map<Self, V>) -> [bool; 4] { [a < b, a <= b, a > b, a >= b] }
            fn map_max<V: Ord>(a: $crate::Map<Self, V>, b: $crate::Map<Self, V>) -> $crate::Map<Self, V> { Ord::max(a, b) }
            fn map_min<V: Ord>(a: $crate::Map<Self, V>, b: $crate::Map<Self, V>) -> $crate::Map<Self, V> { Ord::min(a, b) }
            fn map_clamp<V: Ord>(a: $crate::Map<Self, V>, b: $crate::Map<Self, V>, c: $crate::Map<Self, V>) -> $crate::Map<Self, V> { Ord::clamp(a, b, c) }
            fn map_hash<V: ::core::hash::Hash>(a: &$crate::Map<Self, V>, mut h: &mut dyn ::core::hash::Hasher) { ::core::hash::Hash::hash(a, &mut h) }
        }
    };
}

/// Implements [`RawApi`]: `raw_api!(K, u8, "u8")`.
#[macro_export]
macro_rules! raw_api {
    ($k:ty) => {
        impl $crate::shape::RawApi for $k {
            const WIDTH: u32 = 8 * ::core::mem::size_of::<$crate::shape::RawOf<$k>>() as u32;
            fn raw(s: &$crate::Set<Self>) -> u128 { u128::from(s.as_raw()) }
            fn from_raw(raw: u128) -> $crate::Set<Self> { $crate::Set::from_raw(raw as $crate::shape::RawOf<$k>) }
            fn raw_type() -> &'static str { ::core::any::type_name::<$crate::shape::RawOf<$k>>() }
            fn raw_size() -> usize { ::core::mem::size_of::<$crate::shape::RawOf<$k>>() }
        }
    };
}

pub type RawOf<K> = <<K as Key>::SetStorage as fixed_map::raw::RawStorage>::Value;
