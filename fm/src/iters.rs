//! Uniform, observable access to every iterator of maps and sets.
//!
//! Calls are forwarded one to one to the iterator under observation (`nth` to
//! its `nth`, consumers to its `fold`/`rfold`), so that overridden methods are
//! the ones exercised.

use fixed_map::{Key, Map, Set};

use crate::val::Val;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum View {
    Iter,
    RefInto,
    Keys,
    Values,
    IterMut,
    MutInto,
    ValuesMut,
    Into,
    SetIter,
    SetRef,
    SetInto,
}

impl View {
    pub const MAP: [View; 8] = [
        View::Iter,
        View::RefInto,
        View::Keys,
        View::Values,
        View::IterMut,
        View::MutInto,
        View::ValuesMut,
        View::Into,
    ];
    pub const SET: [View; 3] = [View::SetIter, View::SetRef, View::SetInto];

    pub fn by_ref(self) -> bool {
        matches!(self, View::Iter | View::RefInto | View::Keys | View::Values)
    }
    pub fn by_mut(self) -> bool {
        matches!(self, View::IterMut | View::MutInto | View::ValuesMut)
    }
    pub fn has_keys(self) -> bool {
        !matches!(self, View::Values | View::ValuesMut)
    }
    pub fn has_values(self) -> bool {
        !matches!(self, View::Keys | View::SetIter | View::SetRef | View::SetInto)
    }
}

pub enum MapSrc<'a, K: Key, V> {
    Ref(&'a Map<K, V>),
    Mut(&'a mut Map<K, V>),
    Own(Map<K, V>),
}

pub enum SetSrc<'a, K: Key> {
    Ref(&'a Set<K>),
    Own(Set<K>),
}

/// What an iterator produced.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Item<K> {
    pub k: Option<K>,
    pub v: Option<u64>,
    /// Address of the value, for borrowed ones.
    pub a: usize,
}

impl<K> Item<K> {
    pub fn k(k: K) -> Self {
        Item { k: Some(k), v: None, a: 0 }
    }
    pub fn v<V: Val>(v: &V) -> Self {
        Item { k: None, v: Some(v.sig()), a: v as *const V as usize }
    }
    pub fn kv<V: Val>(k: K, v: &V) -> Self {
        Item { k: Some(k), v: Some(v.sig()), a: v as *const V as usize }
    }
    pub fn kv_own<V: Val>(k: K, v: V) -> Self {
        Item { k: Some(k), v: Some(v.sig()), a: 0 }
    }
}

pub struct Probe<'a, I>(pub &'a I);

impl<I: ExactSizeIterator> Probe<'_, I> {
    pub fn exact(&self) -> Option<usize> {
        Some(self.0.len())
    }
}

pub trait ExactFallback {
    fn exact(&self) -> Option<usize>;
}

impl<I> ExactFallback for Probe<'_, I> {
    fn exact(&self) -> Option<usize> {
        None
    }
}

/// An iterator under observation.
pub trait It<'a, K> {
    fn next(&mut self) -> Option<Item<K>>;
    fn nth(&mut self, n: usize) -> Option<Item<K>>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> Option<usize>;
    fn for_each(self: Box<Self>, f: &mut dyn FnMut(Item<K>));
    fn try_each(&mut self, f: &mut dyn FnMut(Item<K>) -> bool);
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Item<K>>;
    fn collect(self: Box<Self>) -> Vec<Item<K>>;
    fn double_ended(&self) -> bool {
        false
    }
    fn next_back(&mut self) -> Option<Item<K>> {
        unreachable!()
    }
    fn nth_back(&mut self, _: usize) -> Option<Item<K>> {
        unreachable!()
    }
    fn rfor_each(self: Box<Self>, _: &mut dyn FnMut(Item<K>)) {
        unreachable!()
    }
    fn rtry_each(&mut self, _: &mut dyn FnMut(Item<K>) -> bool) {
        unreachable!()
    }
    fn dup(&self) -> Option<Box<dyn It<'a, K> + 'a>> {
        None
    }
    /// The same by `clone_from`, into an iterator with `skip` fewer items.
    fn dup_into(&self, _skip: usize) -> Option<Box<dyn It<'a, K> + 'a>> {
        self.dup()
    }
}

struct W<I: Iterator, K> {
    i: I,
    ex: fn(&I) -> Option<usize>,
    pr: fn(I::Item) -> Item<K>,
}
struct WPlain<I: Iterator, K>(W<I, K>);
struct WClone<I: Iterator, K>(W<I, K>);
struct WDe<I: Iterator, K>(W<I, K>);
struct WDeClone<I: Iterator, K>(W<I, K>);

macro_rules! common {
    () => {
        fn next(&mut self) -> Option<Item<K>> {
            crate::ctx::beat();
            let p = self.0.pr;
            self.0.i.next().map(p)
        }
        fn nth(&mut self, n: usize) -> Option<Item<K>> {
            crate::ctx::beat();
            let p = self.0.pr;
            self.0.i.nth(n).map(p)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.i.size_hint()
        }
        fn exact(&self) -> Option<usize> {
            (self.0.ex)(&self.0.i)
        }
        fn for_each(self: Box<Self>, f: &mut dyn FnMut(Item<K>)) {
            let W { i, pr, .. } = self.0;
            i.fold((), |(), x| f(pr(x)))
        }
        fn try_each(&mut self, f: &mut dyn FnMut(Item<K>) -> bool) {
            let pr = self.0.pr;
            let _ = self.0.i.try_for_each(|x| if f(pr(x)) { Ok(()) } else { Err(()) });
        }
        fn count(self: Box<Self>) -> usize {
            self.0.i.count()
        }
        fn last(self: Box<Self>) -> Option<Item<K>> {
            let W { i, pr, .. } = self.0;
            i.last().map(pr)
        }
        fn collect(self: Box<Self>) -> Vec<Item<K>> {
            let W { i, pr, .. } = self.0;
            i.map(pr).collect()
        }
    };
}

macro_rules! de {
    () => {
        fn double_ended(&self) -> bool {
            true
        }
        fn next_back(&mut self) -> Option<Item<K>> {
            crate::ctx::beat();
            let p = self.0.pr;
            self.0.i.next_back().map(p)
        }
        fn nth_back(&mut self, n: usize) -> Option<Item<K>> {
            crate::ctx::beat();
            let p = self.0.pr;
            self.0.i.nth_back(n).map(p)
        }
        fn rfor_each(self: Box<Self>, f: &mut dyn FnMut(Item<K>)) {
            let W { i, pr, .. } = self.0;
            i.rfold((), |(), x| f(pr(x)))
        }
        fn rtry_each(&mut self, f: &mut dyn FnMut(Item<K>) -> bool) {
            let pr = self.0.pr;
            let _ = self
                .0
                .i
                .try_rfold((), |(), x| if f(pr(x)) { Ok(()) } else { Err(()) });
        }
    };
}

macro_rules! dup {
    ($w:ident) => {
        fn dup(&self) -> Option<Box<dyn It<'a, K> + 'a>> {
            Some(Box::new($w(W {
                i: self.0.i.clone(),
                ex: self.0.ex,
                pr: self.0.pr,
            })))
        }
        fn dup_into(&self, skip: usize) -> Option<Box<dyn It<'a, K> + 'a>> {
            let mut i = self.0.i.clone();
            for _ in 0..skip {
                i.next();
            }
            i.clone_from(&self.0.i);
            Some(Box::new($w(W {
                i,
                ex: self.0.ex,
                pr: self.0.pr,
            })))
        }
    };
}

impl<'a, I: Iterator + 'a, K: 'a> It<'a, K> for WPlain<I, K> {
    common!();
}
impl<'a, I: Iterator + Clone + 'a, K: 'a> It<'a, K> for WClone<I, K> {
    common!();
    dup!(WClone);
}
impl<'a, I: DoubleEndedIterator + 'a, K: 'a> It<'a, K> for WDe<I, K> {
    common!();
    de!();
}
impl<'a, I: DoubleEndedIterator + Clone + 'a, K: 'a> It<'a, K> for WDeClone<I, K> {
    common!();
    de!();
    dup!(WDeClone);
}

pub fn wrap_plain<'a, I: Iterator + 'a, K: 'a>(
    i: I,
    ex: fn(&I) -> Option<usize>,
    pr: fn(I::Item) -> Item<K>,
) -> Box<dyn It<'a, K> + 'a> {
    Box::new(WPlain(W { i, ex, pr }))
}
pub fn wrap_clone<'a, I: Iterator + Clone + 'a, K: 'a>(
    i: I,
    ex: fn(&I) -> Option<usize>,
    pr: fn(I::Item) -> Item<K>,
) -> Box<dyn It<'a, K> + 'a> {
    Box::new(WClone(W { i, ex, pr }))
}
pub fn wrap_de<'a, I: DoubleEndedIterator + 'a, K: 'a>(
    i: I,
    ex: fn(&I) -> Option<usize>,
    pr: fn(I::Item) -> Item<K>,
) -> Box<dyn It<'a, K> + 'a> {
    Box::new(WDe(W { i, ex, pr }))
}
pub fn wrap_de_clone<'a, I: DoubleEndedIterator + Clone + 'a, K: 'a>(
    i: I,
    ex: fn(&I) -> Option<usize>,
    pr: fn(I::Item) -> Item<K>,
) -> Box<dyn It<'a, K> + 'a> {
    Box::new(WDeClone(W { i, ex, pr }))
}
pub fn wrap_de_clone_into<'a, I: DoubleEndedIterator + Clone + 'a, K: 'a>(
    i: I,
    ex: fn(&I) -> Option<usize>,
    pr: fn(I::Item) -> Item<K>,
) -> Box<dyn It<'a, K> + 'a> {
    Box::new(WDeClone(W { i, ex, pr }))
}

/// Panics (caught as a violation by the case) when an iterator runs away.
pub fn drain<'a, K>(mut it: Box<dyn It<'a, K> + 'a>, cap: usize) -> Result<Vec<Item<K>>, String> {
    let mut out = Vec::new();
    while let Some(i) = it.next() {
        if out.len() > cap {
            return Err(format!("iterator yields more than {cap} items"));
        }
        out.push(i);
    }
    Ok(out)
}

pub fn drain_fold<'a, K>(it: Box<dyn It<'a, K> + 'a>, cap: usize) -> Vec<Item<K>> {
    let mut out = Vec::new();
    it.for_each(&mut |i| {
        if out.len() > cap {
            panic!("iterator yields more than {cap} items to fold");
        }
        out.push(i);
    });
    out
}
