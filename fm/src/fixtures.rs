//! Key types the library itself knows, so that options over them (and over
//! primitive keys) can be roots of a run: only this crate may implement its
//! interfaces for `Option<_>`.

use fixed_map::Key;

use crate::shape::{Shape, UserUnit};
use crate::{ord_api, raw_api, shape_api};

#[derive(Debug, Clone, Copy, PartialEq, Key)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum F3 {
    A,
    B,
    C,
}

#[derive(Debug, Clone, Copy, PartialEq, Key)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[key(bitset)]
pub enum FB9 {
    A,
    B,
    C,
    D,
    E,
    F1,
    G,
    H,
    I,
}

/// true, false before `First`; optional bitset; unit.
#[derive(Debug, Clone, Copy, PartialEq, Key)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum FC {
    First,
    Bool(bool),
    Opt(Option<F3>),
    Last,
}

#[cfg(feature = "hashbrown")]
#[derive(Debug, Clone, Copy, PartialEq, Key)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum FH {
    First,
    Num(i8),
    Bool(bool),
}

macro_rules! plain_shape {
    ($k:ident, $n:literal, $($v:ident),*) => {
        impl Shape for $k {
            const NAME: &'static str = stringify!($k);
            const COUNT: usize = $n;
            const FIXED: bool = true;
            const COMPLETE: bool = true;
            fn fill(out: &mut Vec<Self>) {
                out.extend([$($k::$v),*]);
            }
            fn groups(next: &mut u32, out: &mut Vec<u32>) {
                for i in 0..$n {
                    out.push(*next + i);
                }
                *next += $n;
            }
            fn index(&self) -> Option<usize> {
                let all = [$($k::$v),*];
                all.iter().position(|k| k == self)
            }
        }
    };
}
plain_shape!(F3, 3, A, B, C);
plain_shape!(FB9, 9, A, B, C, D, E, F1, G, H, I);

impl Shape for FC {
    const NAME: &'static str = "FC";
    const COUNT: usize = 8;
    const FIXED: bool = true;
    const COMPLETE: bool = true;
    fn fill(out: &mut Vec<Self>) {
        out.extend([
            FC::First,
            FC::Bool(true),
            FC::Bool(false),
            FC::Opt(Some(F3::A)),
            FC::Opt(Some(F3::B)),
            FC::Opt(Some(F3::C)),
            FC::Opt(None),
            FC::Last,
        ]);
    }
    fn groups(next: &mut u32, out: &mut Vec<u32>) {
        for i in 0..8 {
            out.push(*next + i);
        }
        *next += 8;
    }
    fn index(&self) -> Option<usize> {
        Some(match self {
            FC::First => 0,
            FC::Bool(b) => 1 + usize::from(!*b),
            FC::Opt(Some(F3::A)) => 3,
            FC::Opt(Some(F3::B)) => 4,
            FC::Opt(Some(F3::C)) => 5,
            FC::Opt(None) => 6,
            FC::Last => 7,
        })
    }
}

#[cfg(feature = "hashbrown")]
impl Shape for FH {
    const NAME: &'static str = "FH";
    const COUNT: usize = 8;
    const FIXED: bool = false;
    const COMPLETE: bool = false;
    fn fill(out: &mut Vec<Self>) {
        out.push(FH::First);
        let mut v = Vec::new();
        i8::fill(&mut v);
        out.extend(v.into_iter().map(FH::Num));
        out.extend([FH::Bool(true), FH::Bool(false)]);
    }
    fn groups(next: &mut u32, out: &mut Vec<u32>) {
        out.push(*next);
        *next += 1;
        i8::groups(next, out);
        bool::groups(next, out);
    }
    fn index(&self) -> Option<usize> {
        Some(match self {
            FH::First => 0,
            FH::Num(n) => 1 + n.index()?,
            FH::Bool(b) => 6 + usize::from(!*b),
        })
    }
}

/// Later keys are smaller: iteration order is no sorted order.
#[macro_export]
macro_rules! descending {
    ($($k:ty),*) => {$(
        impl Eq for $k {}
        impl PartialOrd for $k {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(Ord::cmp(self, o))
            }
        }
        impl Ord for $k {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                $crate::shape::Shape::index(o).cmp(&$crate::shape::Shape::index(self))
            }
        }
    )*};
}
descending!(F3, FB9, FC, UserUnit);
#[cfg(feature = "hashbrown")]
descending!(FH);

shape_api!(bool, fixed);
shape_api!((), fixed);
shape_api!(UserUnit, fixed);
shape_api!(Option<bool>, fixed);
shape_api!(Option<()>, fixed);
shape_api!(Option<Option<bool>>, fixed);
shape_api!(Option<Option<()>>, fixed);
shape_api!(F3, fixed);
shape_api!(FB9, fixed);
shape_api!(FC, fixed);
shape_api!(Option<F3>, fixed);
shape_api!(Option<FB9>, fixed);
shape_api!(Option<FC>, fixed);
shape_api!(Option<Option<F3>>, fixed);
ord_api!((), set);
ord_api!(UserUnit, set);
ord_api!(F3, both);
ord_api!(FB9, both);
raw_api!(FB9);

#[cfg(feature = "hashbrown")]
mod hashed_apis {
    use super::*;
    shape_api!(char, hashed);
    shape_api!(u8, hashed);
    shape_api!(u32, hashed);
    shape_api!(u64, hashed);
    shape_api!(u128, hashed);
    shape_api!(usize, hashed);
    shape_api!(i8, hashed);
    shape_api!(i32, hashed);
    shape_api!(i64, hashed);
    shape_api!(i128, hashed);
    shape_api!(isize, hashed);
    shape_api!(&'static str, hashed);
    shape_api!(&'static [u8], hashed);
    shape_api!(Option<u32>, hashed);
    shape_api!(FH, hashed);
    shape_api!(Option<FH>, hashed);
}
