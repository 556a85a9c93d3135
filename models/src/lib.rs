// Reference models of the std iterator and collection functions that concordance calls (or might call after a
// refactoring). They are never executed: the analyser reads their MIR in place of the std implementation. Functions
// whose name starts with `vp_` are primitives of the analyser.
#![allow(dead_code, unused_variables, unused_mut)]
use std::cmp::Ordering;

// ------------------------------------------------------------------ primitives
pub fn vp_take<T>(s: &Vec<T>, i: usize) -> T { loop {} }
pub fn vp_run<I: Iterator, G: FnMut(I::Item) -> bool>(it: &mut I, g: &mut G) -> bool { loop {} }
pub fn vp_index(n: usize) -> usize { loop {} }           // an arbitrary i with i <= n
pub fn vp_choice() -> bool { loop {} }                   // an arbitrary bool
pub fn vp_stop() -> ! { loop {} }                        // this path cannot happen
pub fn vp_fresh_vec<T>() -> Vec<T> { loop {} }
pub fn vp_remaining<T>(v: &Vec<T>, pos: usize) -> Vec<T> { loop {} }
pub fn vp_iter<I: IntoIterator>(i: I) -> I::IntoIter { loop {} }   // IntoIterator::into_iter

pub trait Run: Iterator { fn run<G: FnMut(Self::Item) -> bool>(&mut self, g: &mut G) -> bool; }

// ------------------------------------------------------------------ base iterators
pub struct Iter<'a, T> { pub s: &'a [T], pub pos: usize, pub end: usize }
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.pos < self.end { let r = &self.s[self.pos]; self.pos += 1; Some(r) } else { None }
    }
}
impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.pos < self.end { self.end -= 1; Some(&self.s[self.end]) } else { None }
    }
}
impl<'a, T> Run for Iter<'a, T> {
    fn run<G: FnMut(&'a T) -> bool>(&mut self, g: &mut G) -> bool {
        while self.pos < self.end { let r = &self.s[self.pos]; self.pos += 1; if !g(r) { return false; } }
        true
    }
}
impl<'a, T> Clone for Iter<'a, T> { fn clone(&self) -> Self { Iter { s: self.s, pos: self.pos, end: self.end } } }
pub fn slice_iter<T>(s: &[T]) -> Iter<'_, T> { Iter { s: s, pos: 0, end: s.len() } }
pub fn iter_as_slice<'a, T>(s: &Iter<'a, T>) -> &'a [T] { &s.s[s.pos..s.end] }
pub fn iter_len<'a, T>(s: &Iter<'a, T>) -> usize { s.end - s.pos }

pub struct IterMut<'a, T> { pub s: *mut [T], pub pos: usize, pub end: usize, pub p: std::marker::PhantomData<&'a T> }
impl<'a, T: 'a> Iterator for IterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        if self.pos < self.end { let r = unsafe { &mut (*self.s)[self.pos] }; self.pos += 1; Some(r) } else { None }
    }
}
impl<'a, T: 'a> DoubleEndedIterator for IterMut<'a, T> {
    fn next_back(&mut self) -> Option<&'a mut T> {
        if self.pos < self.end { self.end -= 1; Some(unsafe { &mut (*self.s)[self.end] }) } else { None }
    }
}
impl<'a, T: 'a> Run for IterMut<'a, T> {
    fn run<G: FnMut(&'a mut T) -> bool>(&mut self, g: &mut G) -> bool {
        while self.pos < self.end { let r = unsafe { &mut (*self.s)[self.pos] }; self.pos += 1; if !g(r) { return false; } }
        true
    }
}
pub fn slice_iter_mut<'a, T>(s: &'a mut [T]) -> IterMut<'a, T> { let n = s.len(); IterMut { s: s as *mut [T], pos: 0, end: n, p: std::marker::PhantomData } }

pub struct IntoIter<T> { pub v: Vec<T>, pub pos: usize, pub end: usize }
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.pos < self.end { let r = vp_take(&self.v, self.pos); self.pos += 1; Some(r) } else { None }
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.pos < self.end { self.end -= 1; Some(vp_take(&self.v, self.end)) } else { None }
    }
}
impl<T> Run for IntoIter<T> {
    fn run<G: FnMut(T) -> bool>(&mut self, g: &mut G) -> bool {
        while self.pos < self.end { let r = vp_take(&self.v, self.pos); self.pos += 1; if !g(r) { return false; } }
        true
    }
}
impl<T> Clone for IntoIter<T> { fn clone(&self) -> Self { loop {} } }
pub fn vec_into_iter<T>(v: Vec<T>) -> IntoIter<T> { let n = v.len(); IntoIter { v: v, pos: 0, end: n } }

// a user supplied iterator of unknown kind, as an arbitrary finite sequence
pub struct OptIter<T> { pub o: Option<T> }
impl<T> Iterator for OptIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.o.take() } }
impl<T> DoubleEndedIterator for OptIter<T> { fn next_back(&mut self) -> Option<T> { self.o.take() } }
pub fn once<T>(t: T) -> OptIter<T> { OptIter { o: Some(t) } }
pub fn empty<T>() -> OptIter<T> { OptIter { o: None } }
pub fn option_into_iter<T>(t: Option<T>) -> OptIter<T> { OptIter { o: t } }
pub fn option_iter<T>(t: &Option<T>) -> OptIter<&T> { OptIter { o: t.as_ref() } }

pub struct RepeatN<T> { pub v: T }
impl<T: Clone> Iterator for RepeatN<T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.v.clone()) } }
pub fn repeat<T: Clone>(t: T) -> RepeatN<T> { RepeatN { v: t } }
pub struct FromFn<F> { pub f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
pub fn from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> { FromFn { f: f } }

// ------------------------------------------------------------------ ranges
pub fn range_next(r: &mut std::ops::Range<usize>) -> Option<usize> {
    if r.start < r.end { let v = r.start; r.start += 1; Some(v) } else { None }
}
pub fn range_next_back(r: &mut std::ops::Range<usize>) -> Option<usize> {
    if r.start < r.end { r.end -= 1; Some(r.end) } else { None }
}
pub fn range_from_next(r: &mut std::ops::RangeFrom<usize>) -> Option<usize> { let v = r.start; r.start += 1; Some(v) }
#[derive(Clone)]
pub struct RangeIncl<T> { pub start: T, pub end: T, pub done: bool }
impl Iterator for RangeIncl<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if !self.done && self.start <= self.end {
            let v = self.start;
            if v < self.end { self.start += 1; } else { self.done = true; }
            Some(v)
        } else { None }
    }
}
pub fn range_incl_run<G: FnMut(usize) -> bool>(r: &mut RangeIncl<usize>, g: &mut G) -> bool {
    let mut p = r.start; let e = r.end;
    while p <= e { if !g(p) { return false; } p += 1; }
    true
}
pub fn range_incl_into_iter(r: RangeIncl<usize>) -> std::ops::Range<usize> { r.start..(r.end + 1) }
pub fn range_incl_new<T>(a: T, b: T) -> RangeIncl<T> { RangeIncl { start: a, end: b, done: false } }
pub fn range_incl_start<T>(r: &RangeIncl<T>) -> &T { &r.start }
pub fn range_incl_end<T>(r: &RangeIncl<T>) -> &T { &r.end }
pub fn range_len(r: &std::ops::Range<usize>) -> usize { if r.start < r.end { r.end - r.start } else { 0 } }
pub fn range_contains<T: PartialOrd>(r: &std::ops::Range<T>, x: &T) -> bool { r.start <= *x && *x < r.end }
pub fn range_incl_contains<T: PartialOrd>(r: &RangeIncl<T>, x: &T) -> bool { r.start <= *x && *x <= r.end }
pub fn range_is_empty<T: PartialOrd>(r: &std::ops::Range<T>) -> bool { !(r.start < r.end) }

// ------------------------------------------------------------------ adapters
pub struct Map<I, F> { pub iter: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.iter.next() { Some(x) => Some((self.f)(x)), None => None } }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> { match self.iter.next_back() { Some(x) => Some((self.f)(x)), None => None } }
}
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Run for Map<I, F> {
    fn run<G: FnMut(B) -> bool>(&mut self, g: &mut G) -> bool { let f = &mut self.f; vp_run(&mut self.iter, &mut |x| g(f(x))) }
}
pub fn map<I: Iterator, B, F: FnMut(I::Item) -> B>(it: I, f: F) -> Map<I, F> { Map { iter: it, f: f } }

pub struct Filter<I, P> { pub iter: I, pub p: P }
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for Filter<I, P> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let mut r = None; let p = &mut self.p;
        vp_run(&mut self.iter, &mut |x| if p(&x) { r = Some(x); false } else { true });
        r
    }
}
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Run for Filter<I, P> {
    fn run<G: FnMut(I::Item) -> bool>(&mut self, g: &mut G) -> bool { let p = &mut self.p; vp_run(&mut self.iter, &mut |x| if p(&x) { g(x) } else { true }) }
}
pub fn filter<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> Filter<I, P> { Filter { iter: it, p: p } }

pub struct FilterMap<I, F> { pub iter: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        let mut r = None; let f = &mut self.f;
        vp_run(&mut self.iter, &mut |x| match f(x) { Some(y) => { r = Some(y); false }, None => true });
        r
    }
}
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Run for FilterMap<I, F> {
    fn run<G: FnMut(B) -> bool>(&mut self, g: &mut G) -> bool { let f = &mut self.f; vp_run(&mut self.iter, &mut |x| match f(x) { Some(y) => g(y), None => true }) }
}
pub fn filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> FilterMap<I, F> { FilterMap { iter: it, f: f } }

pub struct FlatMap<I, U: IntoIterator, F> { pub iter: I, pub f: F, pub cur: Option<U::IntoIter> }
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, U, F> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(ref mut c) = self.cur { if let Some(x) = c.next() { return Some(x); } }
            match self.iter.next() { Some(x) => { self.cur = Some(vp_iter((self.f)(x))); }, None => { return None; } }
        }
    }
}
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Run for FlatMap<I, U, F> {
    fn run<G: FnMut(U::Item) -> bool>(&mut self, g: &mut G) -> bool {
        if let Some(ref mut c) = self.cur { if !vp_run(c, g) { return false; } }
        let f = &mut self.f;
        vp_run(&mut self.iter, &mut |x| { let mut i = vp_iter(f(x)); vp_run(&mut i, g) })
    }
}
pub fn flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: I, f: F) -> FlatMap<I, U, F> { FlatMap { iter: it, f: f, cur: None } }
pub struct Flatten<I> where I: Iterator, I::Item: IntoIterator { pub iter: I, pub cur: Option<<I::Item as IntoIterator>::IntoIter> }
impl<I: Iterator> Iterator for Flatten<I> where I::Item: IntoIterator {
    type Item = <I::Item as IntoIterator>::Item;
    fn next(&mut self) -> Option<<I::Item as IntoIterator>::Item> {
        loop {
            if let Some(ref mut c) = self.cur { if let Some(x) = c.next() { return Some(x); } }
            match self.iter.next() { Some(x) => { self.cur = Some(vp_iter(x)); }, None => { return None; } }
        }
    }
}
impl<I: Iterator> Run for Flatten<I> where I::Item: IntoIterator {
    fn run<G: FnMut(<I::Item as IntoIterator>::Item) -> bool>(&mut self, g: &mut G) -> bool {
        if let Some(ref mut c) = self.cur { if !vp_run(c, g) { return false; } }
        vp_run(&mut self.iter, &mut |x| { let mut i = vp_iter(x); vp_run(&mut i, g) })
    }
}
pub fn flatten<I: Iterator>(it: I) -> Flatten<I> where I::Item: IntoIterator { Flatten { iter: it, cur: None } }

pub struct Chain<A, B> { pub a: A, pub b: B, pub first: bool }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if self.first { match self.a.next() { Some(x) => { return Some(x); }, None => { self.first = false; } } }
        self.b.next()
    }
}
impl<A: Iterator, B: Iterator<Item = A::Item>> Run for Chain<A, B> {
    fn run<G: FnMut(A::Item) -> bool>(&mut self, g: &mut G) -> bool {
        if self.first { if !vp_run(&mut self.a, g) { return false; } self.first = false; }
        vp_run(&mut self.b, g)
    }
}
pub fn chain<A: Iterator, U: IntoIterator<Item = A::Item>>(a: A, b: U) -> Chain<A, U::IntoIter> { Chain { a: a, b: vp_iter(b), first: true } }

pub struct Cloned<I> { pub iter: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.iter.next() { Some(x) => Some(x.clone()), None => None } }
}
impl<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Cloned<I> {
    fn next_back(&mut self) -> Option<T> { match self.iter.next_back() { Some(x) => Some(x.clone()), None => None } }
}
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Run for Cloned<I> {
    fn run<G: FnMut(T) -> bool>(&mut self, g: &mut G) -> bool { vp_run(&mut self.iter, &mut |x| g(x.clone())) }
}
pub fn cloned<'a, I: Iterator<Item = &'a T>, T: Clone + 'a>(it: I) -> Cloned<I> { Cloned { iter: it } }

pub struct Enumerate<I> { pub iter: I, pub n: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> { match self.iter.next() { Some(x) => { let n = self.n; self.n += 1; Some((n, x)) }, None => None } }
}
impl<I: Iterator> Run for Enumerate<I> {
    fn run<G: FnMut((usize, I::Item)) -> bool>(&mut self, g: &mut G) -> bool {
        let n = &mut self.n;
        vp_run(&mut self.iter, &mut |x| { let i = *n; *n += 1; g((i, x)) })
    }
}
pub fn enumerate<I: Iterator>(it: I) -> Enumerate<I> { Enumerate { iter: it, n: 0 } }

pub struct Zip<A, B> { pub a: A, pub b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
    }
}
pub fn zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> Zip<A, U::IntoIter> { Zip { a: a, b: vp_iter(b) } }

pub struct Rev<I> { pub iter: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.iter.next_back() } }
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> { fn next_back(&mut self) -> Option<I::Item> { self.iter.next() } }
pub fn rev<I: DoubleEndedIterator>(it: I) -> Rev<I> { Rev { iter: it } }

pub struct Take<I> { pub iter: I, pub n: usize }
impl<I: Iterator> Iterator for Take<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.n > 0 { self.n -= 1; self.iter.next() } else { None } } }
pub fn take<I: Iterator>(it: I, n: usize) -> Take<I> { Take { iter: it, n: n } }

pub struct Skip<I> { pub iter: I, pub n: usize }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { while self.n > 0 { self.n -= 1; if self.iter.next().is_none() { return None; } } self.iter.next() }
}
pub fn skip<I: Iterator>(it: I, n: usize) -> Skip<I> { Skip { iter: it, n: n } }
pub fn slice_iter_skip<'a, T>(it: Iter<'a, T>, n: usize) -> Iter<'a, T> { let l = it.end - it.pos; if n <= l { Iter { s: it.s, pos: it.pos + n, end: it.end } } else { Iter { s: it.s, pos: it.end, end: it.end } } }
pub fn slice_iter_take<'a, T>(it: Iter<'a, T>, n: usize) -> Iter<'a, T> { let l = it.end - it.pos; if n <= l { Iter { s: it.s, pos: it.pos, end: it.pos + n } } else { it } }

pub struct TakeWhile<I, P> { pub iter: I, pub p: P, pub done: bool }
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, P> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.iter.next() { Some(x) => if (self.p)(&x) { Some(x) } else { self.done = true; None }, None => None }
    }
}
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Run for TakeWhile<I, P> {
    fn run<G: FnMut(I::Item) -> bool>(&mut self, g: &mut G) -> bool {
        let p = &mut self.p; let mut cut = false;
        let r = vp_run(&mut self.iter, &mut |x| if p(&x) { g(x) } else { cut = true; false });
        r || cut
    }
}
pub fn take_while<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> TakeWhile<I, P> { TakeWhile { iter: it, p: p, done: false } }

pub struct Peekable<I: Iterator> { pub iter: I, pub peeked: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.peeked.take() { Some(v) => v, None => self.iter.next() } }
}
pub fn peekable<I: Iterator>(it: I) -> Peekable<I> { Peekable { iter: it, peeked: None } }
pub fn peek<I: Iterator>(it: &mut Peekable<I>) -> Option<&I::Item> {
    if it.peeked.is_none() { let n = it.iter.next(); it.peeked = Some(n); }
    match it.peeked { Some(Some(ref v)) => Some(v), _ => None }
}
pub struct Inspect<I, F> { pub iter: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.iter.next() { Some(x) => { (self.f)(&x); Some(x) }, None => None } }
}
pub fn inspect<I: Iterator, F: FnMut(&I::Item)>(it: I, f: F) -> Inspect<I, F> { Inspect { iter: it, f: f } }
pub struct MapWhile<I, P> { pub iter: I, pub p: P }
impl<B, I: Iterator, P: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, P> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.iter.next() { Some(x) => (self.p)(x), None => None } }
}
pub fn map_while<I: Iterator, B, P: FnMut(I::Item) -> Option<B>>(it: I, p: P) -> MapWhile<I, P> { MapWhile { iter: it, p: p } }

// ------------------------------------------------------------------ consumers (generics: Self first, then the method's)
pub fn run_default<I: Iterator, G: FnMut(I::Item) -> bool>(it: &mut I, g: &mut G) -> bool { while let Some(x) = it.next() { if !g(x) { return false; } } true }
pub fn collect_vec<I: Iterator>(it: I) -> Vec<I::Item> { let mut it = it; let mut v = Vec::new(); vp_run(&mut it, &mut |x| { v.push(x); true }); v }
pub fn collect_deque<I: Iterator>(it: I) -> std::collections::VecDeque<I::Item> { let mut it = it; let mut v = std::collections::VecDeque::new(); vp_run(&mut it, &mut |x| { v.push_back(x); true }); v }
pub fn collect_set<I: Iterator>(it: I) -> std::collections::BTreeSet<I::Item> where I::Item: Ord { let mut it = it; let mut v = std::collections::BTreeSet::new(); vp_run(&mut it, &mut |x| { v.insert(x); true }); v }
pub fn collect_hset<I: Iterator>(it: I) -> std::collections::HashSet<I::Item> where I::Item: Eq + std::hash::Hash { let mut it = it; let mut v = std::collections::HashSet::new(); vp_run(&mut it, &mut |x| { v.insert(x); true }); v }
pub fn collect_hmap<K: Eq + std::hash::Hash, V, I: Iterator<Item = (K, V)>>(it: I) -> std::collections::HashMap<K, V> { let mut it = it; let mut v = std::collections::HashMap::new(); vp_run(&mut it, &mut |x| { v.insert(x.0, x.1); true }); v }
pub fn extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = vp_iter(it); vp_run(&mut it, &mut |x| { v.push(x); true }); }
pub fn extend_vec_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) { let mut it = vp_iter(it); vp_run(&mut it, &mut |x| { v.push(*x); true }); }
pub fn extend_deque<T, I: IntoIterator<Item = T>>(v: &mut std::collections::VecDeque<T>, it: I) { let mut it = vp_iter(it); vp_run(&mut it, &mut |x| { v.push_back(x); true }); }
pub fn extend_set<T: Ord, I: IntoIterator<Item = T>>(v: &mut std::collections::BTreeSet<T>, it: I) { let mut it = vp_iter(it); vp_run(&mut it, &mut |x| { v.insert(x); true }); }
pub fn extend_hset<T: Eq + std::hash::Hash, I: IntoIterator<Item = T>>(v: &mut std::collections::HashSet<T>, it: I) { let mut it = vp_iter(it); vp_run(&mut it, &mut |x| { v.insert(x); true }); }
pub fn extend_hmap<K: Eq + std::hash::Hash, V, I: IntoIterator<Item = (K, V)>>(v: &mut std::collections::HashMap<K, V>, it: I) { let mut it = vp_iter(it); vp_run(&mut it, &mut |x| { v.insert(x.0, x.1); true }); }
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) { let mut it = it; let mut f = f; vp_run(&mut it, &mut |x| { f(x); true }); }
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, f: F) -> B {
    let mut it = it; let mut f = f; let mut acc = Some(init);
    vp_run(&mut it, &mut |x| { let a = acc.take(); if let Some(a) = a { acc = Some(f(a, x)); } true });
    match acc { Some(a) => a, None => vp_stop() }
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool { let mut f = f; !vp_run(it, &mut |x| !f(x)) }
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool { let mut f = f; vp_run(it, &mut |x| f(x)) }
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, p: P) -> Option<I::Item> { let mut p = p; let mut r = None; vp_run(it, &mut |x| if p(&x) { r = Some(x); false } else { true }); r }
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: F) -> Option<B> { let mut f = f; let mut r = None; vp_run(it, &mut |x| match f(x) { Some(y) => { r = Some(y); false }, None => true }); r }
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> Option<usize> { let mut p = p; let mut r = None; let mut n = 0; vp_run(it, &mut |x| if p(x) { r = Some(n); false } else { n += 1; true }); r }
pub fn rposition<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> Option<usize> {
    let mut p = p; let mut v = Vec::new(); vp_run(it, &mut |x| { v.push(x); true });
    let mut n = v.len();
    while n > 0 { n -= 1; if p(vp_take(&v, n)) { return Some(n); } }
    None
}
pub fn rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, p: P) -> Option<I::Item> {
    let mut p = p;
    loop { match it.next_back() { None => return None, Some(x) => { if p(&x) { return Some(x); } } } }
}
pub fn partition<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut it = it; let mut f = f; let mut a = Vec::new(); let mut b = Vec::new();
    vp_run(&mut it, &mut |x| { if f(&x) { a.push(x); } else { b.push(x); } true });
    (a, b)
}
pub fn max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(it: I, f: F) -> Option<I::Item> {
    let mut it = it; let mut f = f;
    match it.next() { None => None, Some(x) => { let mut r = x; vp_run(&mut it, &mut |y| { if f(&y) >= f(&r) { r = y; } true }); Some(r) } }
}
pub struct Windows<'a, T> { pub s: &'a [T], pub n: usize, pub pos: usize }
impl<'a, T> Iterator for Windows<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> { if self.pos + self.n <= self.s.len() { let r = &self.s[self.pos..self.pos + self.n]; self.pos += 1; Some(r) } else { None } }
}
pub fn slice_windows<T>(s: &[T], n: usize) -> Windows<'_, T> { Windows { s: s, n: n, pos: 0 } }
pub fn count<I: Iterator>(it: I) -> usize { let mut it = it; let mut n = 0; vp_run(&mut it, &mut |x| { n += 1; true }); n }
pub fn last<I: Iterator>(it: I) -> Option<I::Item> { let mut it = it; let mut r = None; vp_run(&mut it, &mut |x| { r = Some(x); true }); r }
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut n = n; let mut r = None; vp_run(it, &mut |x| if n == 0 { r = Some(x); false } else { n -= 1; true }); r }
pub fn min<I: Iterator>(it: I) -> Option<I::Item> where I::Item: Ord {
    let mut it = it;
    match it.next() { None => None, Some(x) => { let mut r = x; vp_run(&mut it, &mut |y| { if y < r { r = y; } true }); Some(r) } }
}
pub fn max<I: Iterator>(it: I) -> Option<I::Item> where I::Item: Ord {
    let mut it = it;
    match it.next() { None => None, Some(x) => { let mut r = x; vp_run(&mut it, &mut |y| { if y >= r { r = y; } true }); Some(r) } }
}
pub fn sum_usize<I: Iterator<Item = usize>>(it: I) -> usize { let mut it = it; let mut n = 0; vp_run(&mut it, &mut |x| { n += x; true }); n }
pub fn sum<I: Iterator, S: Default + std::ops::AddAssign<I::Item>>(it: I) -> S { let mut it = it; let mut n = S::default(); vp_run(&mut it, &mut |x| { n += x; true }); n }
pub fn by_ref<I: Iterator>(it: &mut I) -> &mut I { it }
pub fn min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(it: I, f: F) -> Option<I::Item> {
    let mut it = it; let mut f = f;
    match it.next() { None => None, Some(x) => { let mut r = x; vp_run(&mut it, &mut |y| { if f(&y) < f(&r) { r = y; } true }); Some(r) } }
}

// ------------------------------------------------------------------ slices and vectors
pub fn slice_first<T>(s: &[T]) -> Option<&T> { if s.len() > 0 { Some(&s[0]) } else { None } }
pub fn slice_last<T>(s: &[T]) -> Option<&T> { let n = s.len(); if n > 0 { Some(&s[n - 1]) } else { None } }
pub fn slice_first_mut<T>(s: &mut [T]) -> Option<&mut T> { if s.len() > 0 { Some(&mut s[0]) } else { None } }
pub fn slice_last_mut<T>(s: &mut [T]) -> Option<&mut T> { let n = s.len(); if n > 0 { Some(&mut s[n - 1]) } else { None } }
pub fn slice_get<T>(s: &[T], i: usize) -> Option<&T> { if i < s.len() { Some(&s[i]) } else { None } }
pub fn slice_get_range<T>(s: &[T], r: std::ops::Range<usize>) -> Option<&[T]> { if r.start <= r.end && r.end <= s.len() { Some(&s[r]) } else { None } }
pub fn slice_get_mut<T>(s: &mut [T], i: usize) -> Option<&mut T> { if i < s.len() { Some(&mut s[i]) } else { None } }
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool { let mut it = slice_iter(s); any(&mut it, |y| *y == *x) }
pub fn slice_swap<T>(s: &mut Vec<T>, a: usize, b: usize) { let x = vp_take(s, a); let y = vp_take(s, b); s[a] = y; s[b] = x; }
pub fn slice_split_at<T>(s: &[T], i: usize) -> (&[T], &[T]) { (&s[0..i], &s[i..s.len()]) }
pub fn slice_split_first<T>(s: &[T]) -> Option<(&T, &[T])> { if s.len() > 0 { Some((&s[0], &s[1..s.len()])) } else { None } }
pub fn slice_split_last<T>(s: &[T]) -> Option<(&T, &[T])> { let n = s.len(); if n > 0 { Some((&s[n - 1], &s[0..n - 1])) } else { None } }
// written out for sequences of few elements
pub fn small_sort_by<T, F: FnMut(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F) {
    let mut f = f; let n = v.len(); let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 { match f(&v[j - 1], &v[j]) { Ordering::Greater => { slice_swap(v, j - 1, j); j -= 1; }, _ => { break; } } }
        i += 1;
    }
}
pub fn small_sort<T: Ord>(v: &mut Vec<T>) { small_sort_by(v, |a, b| a.cmp(b)) }
pub fn small_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut Vec<T>, f: F) { let mut f = f; small_sort_by(v, |a, b| f(a).cmp(&f(b))) }
pub fn small_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, f: F) {
    let mut f = f; let mut i = 1;
    while i < v.len() {
        let mut a = vp_take(v, i - 1); let mut b = vp_take(v, i);
        if f(&mut b, &mut a) { v[i - 1] = a; v.remove(i); } else { v[i - 1] = a; v[i] = b; i += 1; }
    }
}
pub fn small_dedup<T: PartialEq>(v: &mut Vec<T>) { small_dedup_by(v, |b, a| *a == *b) }
pub fn small_dedup_by_key<T, K: PartialEq, F: FnMut(&mut T) -> K>(v: &mut Vec<T>, f: F) { let mut f = f; small_dedup_by(v, |b, a| f(a) == f(b)) }
pub fn slice_binary_search_by<'a, T, F: FnMut(&'a T) -> Ordering>(s: &'a [T], f: F) -> Result<usize, usize> {
    let mut f = f;
    let n = s.len();
    let i = vp_index(n);
    if i < n && vp_choice() {
        match f(&s[i]) { Ordering::Equal => { return Ok(i); }, _ => vp_stop() }
    }
    let mut k = 0;
    while k < i { match f(&s[k]) { Ordering::Less => {}, _ => vp_stop() } k += 1; }
    let mut k = i;
    while k < n { match f(&s[k]) { Ordering::Greater => {}, _ => vp_stop() } k += 1; }
    Err(i)
}
pub fn slice_binary_search<T: Ord>(s: &[T], x: &T) -> Result<usize, usize> { slice_binary_search_by(s, |y| y.cmp(x)) }
pub fn slice_binary_search_by_key<'a, T, B: Ord, F: FnMut(&'a T) -> B>(s: &'a [T], b: &B, f: F) -> Result<usize, usize> { let mut f = f; slice_binary_search_by(s, |y| f(y).cmp(b)) }
pub fn slice_partition_point<'a, T, P: FnMut(&'a T) -> bool>(s: &'a [T], p: P) -> usize {
    let mut p = p;
    let n = s.len();
    let i = vp_index(n);
    let mut k = 0;
    while k < i { if !p(&s[k]) { vp_stop() } k += 1; }
    let mut k = i;
    while k < n { if p(&s[k]) { vp_stop() } k += 1; }
    i
}
pub fn vec_truncate<T>(v: &mut Vec<T>, n: usize) { while v.len() > n { v.pop(); } }
pub fn vec_extend_from_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) { let mut it = slice_iter(s); vp_run(&mut it, &mut |x| { v.push(x.clone()); true }); }
pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) { while v.len() < n { v.push(x.clone()); } if v.len() > n { v.truncate(n); } }
pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, f: F) { let mut f = f; while v.len() < n { v.push(f()); } if v.len() > n { v.truncate(n); } }
pub fn vec_swap_remove<T>(v: &mut Vec<T>, i: usize) -> T { let n = v.len(); let x = vp_take(v, i); let y = vp_take(v, n - 1); v[i] = y; v.pop(); x }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, f: F) {
    let mut f = f; let mut r = Vec::new();
    let n = v.len(); let mut i = 0;
    while i < n { if f(&v[i]) { r.push(vp_take(v, i)); } i += 1; }
    *v = r;
}
pub fn deque_get<T>(s: &std::collections::VecDeque<T>, i: usize) -> Option<&T> { if i < s.len() { Some(&s[i]) } else { None } }
pub fn deque_front<T>(s: &std::collections::VecDeque<T>) -> Option<&T> { if s.len() > 0 { Some(&s[0]) } else { None } }
pub fn deque_back<T>(s: &std::collections::VecDeque<T>) -> Option<&T> { let n = s.len(); if n > 0 { Some(&s[n - 1]) } else { None } }
pub fn deque_front_mut<T>(s: &mut std::collections::VecDeque<T>) -> Option<&mut T> { if s.len() > 0 { Some(&mut s[0]) } else { None } }

// ------------------------------------------------------------------ option (only what the std MIR does in ways we do not follow)
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> { match *o { Some(_) => vp_replace(o, None), None => None } }
pub fn vp_replace<T>(o: &mut T, n: T) -> T { loop {} }
pub fn option_cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
