// Models of the std functions that client code may call, in terms of a small set of
// primitives that the analysis implements itself (see engine/prims.py): Vec / HashMap /
// HashSet / RefCell base operations and `next`/`next_back`/`len` of base iterators.
// A function named Type__method stands for that method; they are analysed inline, like
// any other code of the analysed crate, but never produce reports of their own.
#![allow(non_snake_case, unused, non_camel_case_types)]
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::ops::ControlFlow;

// ---------------------------------------------------------------- Option
pub fn Option__is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn Option__is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn Option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn Option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn Option__unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!("unwrap on None") } }
pub fn Option__expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => panic!("expect on None") } }
pub fn Option__unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn Option__inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { if let Some(x) = &o { f(x) } o }
pub fn Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn Option__and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn Option__or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn Option__xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None } }
pub fn Option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn Option__as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__as_deref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__as_deref_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn Option__copied<T: Copy>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn Option__take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn Option__replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn Option__insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => panic!("unreachable") } }
pub fn Option__get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if let None = o { *o = Some(f()); } match o { Some(x) => x, None => panic!("unreachable") } }
pub fn Option__flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn Option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn Option__unzip<T, U>(o: Option<(T, U)>) -> (Option<T>, Option<U>) { match o { Some((x, y)) => (Some(x), Some(y)), None => (None, None) } }
pub fn Option__branch<T>(o: Option<T>) -> ControlFlow<Option<std::convert::Infallible>, T> { match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn Option__from_residual<T>(o: Option<std::convert::Infallible>) -> Option<T> { None }
pub fn Option__into_iter<T>(o: Option<T>) -> OptIter<T> { OptIter { o } }
pub fn Option__iter<T>(o: &Option<T>) -> OptIter<&T> { OptIter { o: Option__as_ref(o) } }
pub struct OptIter<T> { o: Option<T> }
pub fn OptIter__next<T>(s: &mut OptIter<T>) -> Option<T> { std::mem::replace(&mut s.o, None) }
pub fn OptIter__next_back<T>(s: &mut OptIter<T>) -> Option<T> { std::mem::replace(&mut s.o, None) }
pub fn OptIter__len<T>(s: &OptIter<T>) -> usize { match s.o { Some(_) => 1, None => 0 } }
pub fn once<T>(x: T) -> OptIter<T> { OptIter { o: Some(x) } }
pub fn empty<T>() -> OptIter<T> { OptIter { o: None } }
pub fn Option__clone<T: Clone>(o: &Option<T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn Option__eq<T: PartialEq>(a: &Option<T>, b: &Option<T>) -> bool { match (a, b) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false } }
pub fn Option__ne<T: PartialEq>(a: &Option<T>, b: &Option<T>) -> bool { !Option__eq(a, b) }

// ---------------------------------------------------------------- Result
pub fn Result__is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn Result__is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn Result__is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn Result__ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn Result__err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result__map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result__map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result__map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn Result__map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn Result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result__or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn Result__unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!("unwrap on Err") } }
pub fn Result__expect<T, E>(o: Result<T, E>, m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!("expect on Err") } }
pub fn Result__unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => panic!("unwrap_err on Ok"), Err(e) => e } }
pub fn Result__unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn Result__as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result__as_mut<T, E>(o: &mut Result<T, E>) -> Result<&mut T, &mut E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result__branch<T, E>(o: Result<T, E>) -> ControlFlow<Result<std::convert::Infallible, E>, T> { match o { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn Result__from_residual<T, E>(o: Result<std::convert::Infallible, E>) -> Result<T, E> { match o { Ok(_) => panic!("unreachable"), Err(e) => Err(e) } }
pub fn ControlFlow__is_break<B, C>(o: &ControlFlow<B, C>) -> bool { match o { ControlFlow::Break(_) => true, ControlFlow::Continue(_) => false } }
pub fn ControlFlow__is_continue<B, C>(o: &ControlFlow<B, C>) -> bool { match o { ControlFlow::Break(_) => false, ControlFlow::Continue(_) => true } }

// ---------------------------------------------------------------- bool / mem / misc
pub fn bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool__then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }
pub fn replace<T>(d: &mut T, s: T) -> T { std::mem::replace(d, s) }

// ---------------------------------------------------------------- iterator adaptors
pub struct Map<I, F> { i: I, f: F }
pub fn Iterator__map<I: Iterator, B, F: FnMut(I::Item) -> B>(i: I, f: F) -> Map<I, F> { Map { i, f } }
pub fn Map__next<I: Iterator, B, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> { match s.i.next() { Some(x) => Some((s.f)(x)), None => None } }
pub fn Map__next_back<I: DoubleEndedIterator, B, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> { match s.i.next_back() { Some(x) => Some((s.f)(x)), None => None } }
pub fn Map__len<I: ExactSizeIterator, F>(s: &Map<I, F>) -> usize { s.i.len() }

pub struct Filter<I, F> { i: I, f: F }
pub fn Iterator__filter<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> Filter<I, F> { Filter { i, f } }
pub fn Filter__next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut Filter<I, F>) -> Option<I::Item> { while let Some(x) = s.i.next() { if (s.f)(&x) { return Some(x); } } None }
pub fn Filter__next_back<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(s: &mut Filter<I, F>) -> Option<I::Item> { while let Some(x) = s.i.next_back() { if (s.f)(&x) { return Some(x); } } None }

pub struct FilterMap<I, F> { i: I, f: F }
pub fn Iterator__filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(i: I, f: F) -> FilterMap<I, F> { FilterMap { i, f } }
pub fn Iterator__flatten__opt<T, I: Iterator<Item = Option<T>>>(i: I) -> FilterMap<I, fn(Option<T>) -> Option<T>> { FilterMap { i, f: |x| x } }
pub fn FilterMap__next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMap<I, F>) -> Option<B> { while let Some(x) = s.i.next() { if let Some(y) = (s.f)(x) { return Some(y); } } None }

pub struct Inspect<I, F> { i: I, f: F }
pub fn Iterator__inspect<I: Iterator, F: FnMut(&I::Item)>(i: I, f: F) -> Inspect<I, F> { Inspect { i, f } }
pub fn Inspect__next<I: Iterator, F: FnMut(&I::Item)>(s: &mut Inspect<I, F>) -> Option<I::Item> { match s.i.next() { Some(x) => { (s.f)(&x); Some(x) } None => None } }

pub struct Chain<A, B> { a: Option<A>, b: B }
pub fn Iterator__chain<A: Iterator, B: IntoIterator<Item = A::Item>>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a: Some(a), b: b.into_iter() } }
pub fn Chain__next<A: Iterator, B: Iterator<Item = A::Item>>(s: &mut Chain<A, B>) -> Option<A::Item> {
    if let Some(a) = &mut s.a { match a.next() { Some(x) => return Some(x), None => {} } s.a = None; }
    s.b.next()
}

pub struct Enumerate<I> { i: I, n: usize }
pub fn Iterator__enumerate<I: Iterator>(i: I) -> Enumerate<I> { Enumerate { i, n: 0 } }
pub fn Enumerate__next<I: Iterator>(s: &mut Enumerate<I>) -> Option<(usize, I::Item)> { match s.i.next() { Some(x) => { let n = s.n; s.n = n + 1; Some((n, x)) } None => None } }
pub fn Enumerate__next_back<I: ExactSizeIterator + DoubleEndedIterator>(s: &mut Enumerate<I>) -> Option<(usize, I::Item)> { match s.i.next_back() { Some(x) => { let k = s.n + s.i.len(); Some((k, x)) } None => None } }
pub fn Enumerate__len<I: ExactSizeIterator>(s: &Enumerate<I>) -> usize { s.i.len() }

pub struct Zip<A, B> { a: A, b: B }
pub fn Iterator__zip<A: Iterator, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn Zip__next<A: Iterator, B: Iterator>(s: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> { match s.a.next() { Some(x) => match s.b.next() { Some(y) => Some((x, y)), None => None }, None => None } }

pub struct Rev<I> { i: I }
pub fn Iterator__rev__adt<I: DoubleEndedIterator>(i: I) -> Rev<I> { Rev { i } }
pub fn Rev__next<I: DoubleEndedIterator>(s: &mut Rev<I>) -> Option<I::Item> { s.i.next_back() }
pub fn Rev__next_back<I: DoubleEndedIterator>(s: &mut Rev<I>) -> Option<I::Item> { s.i.next() }
pub fn Rev__len<I: ExactSizeIterator>(s: &Rev<I>) -> usize { s.i.len() }

pub struct Cloned<I> { i: I }
pub fn Iterator__cloned<'a, T: 'a + Clone, I: Iterator<Item = &'a T>>(i: I) -> Cloned<I> { Cloned { i } }
pub fn Iterator__copied<'a, T: 'a + Copy, I: Iterator<Item = &'a T>>(i: I) -> Cloned<I> { Cloned { i } }
pub fn Cloned__next<'a, T: 'a + Clone, I: Iterator<Item = &'a T>>(s: &mut Cloned<I>) -> Option<T> { match s.i.next() { Some(x) => Some(x.clone()), None => None } }
pub fn Cloned__next_back<'a, T: 'a + Clone, I: DoubleEndedIterator<Item = &'a T>>(s: &mut Cloned<I>) -> Option<T> { match s.i.next_back() { Some(x) => Some(x.clone()), None => None } }
pub fn Cloned__len<I: ExactSizeIterator>(s: &Cloned<I>) -> usize { s.i.len() }

pub struct TakeWhile<I, F> { i: I, f: F, done: bool }
pub fn Iterator__take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> TakeWhile<I, F> { TakeWhile { i, f, done: false } }
pub fn TakeWhile__next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut TakeWhile<I, F>) -> Option<I::Item> { if s.done { return None; } match s.i.next() { Some(x) => if (s.f)(&x) { Some(x) } else { s.done = true; None }, None => None } }
pub struct MapWhile<I, F> { i: I, f: F }
pub fn Iterator__map_while<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(i: I, f: F) -> MapWhile<I, F> { MapWhile { i, f } }
pub fn MapWhile__next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut MapWhile<I, F>) -> Option<B> { match s.i.next() { Some(x) => (s.f)(x), None => None } }
pub struct SkipWhile<I, F> { i: I, f: F, started: bool }
pub fn Iterator__skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> SkipWhile<I, F> { SkipWhile { i, f, started: false } }
pub fn SkipWhile__next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut SkipWhile<I, F>) -> Option<I::Item> { if s.started { return s.i.next(); } while let Some(x) = s.i.next() { if !(s.f)(&x) { s.started = true; return Some(x); } } None }

pub struct Skip<I> { i: I, n: usize }
pub fn Iterator__skip__adt<I: Iterator>(i: I, n: usize) -> Skip<I> { Skip { i, n } }
pub fn Skip__next<I: Iterator>(s: &mut Skip<I>) -> Option<I::Item> { while s.n > 0 { s.n -= 1; match s.i.next() { Some(_) => {} None => return None } } s.i.next() }
pub struct Take<I> { i: I, n: usize }
pub fn Iterator__take__adt<I: Iterator>(i: I, n: usize) -> Take<I> { Take { i, n } }
pub fn Take__next<I: Iterator>(s: &mut Take<I>) -> Option<I::Item> { if s.n == 0 { return None; } s.n -= 1; s.i.next() }

pub struct Peekable<I: Iterator> { i: I, p: Option<Option<I::Item>> }
pub fn Iterator__peekable<I: Iterator>(i: I) -> Peekable<I> { Peekable { i, p: None } }
pub fn Peekable__next<I: Iterator>(s: &mut Peekable<I>) -> Option<I::Item> { match std::mem::replace(&mut s.p, None) { Some(v) => v, None => s.i.next() } }
pub fn Peekable__peek<I: Iterator>(s: &mut Peekable<I>) -> Option<&I::Item> { if let None = s.p { let v = s.i.next(); s.p = Some(v); } match &s.p { Some(Some(x)) => Some(x), _ => None } }

pub struct FlatMap<I, F, U: IntoIterator> { i: I, f: F, cur: Option<U::IntoIter> }
pub fn Iterator__flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(i: I, f: F) -> FlatMap<I, F, U> { FlatMap { i, f, cur: None } }
pub fn FlatMap__next<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(s: &mut FlatMap<I, F, U>) -> Option<U::Item> {
    loop {
        if let Some(c) = &mut s.cur { if let Some(x) = c.next() { return Some(x); } }
        match s.i.next() { Some(y) => { s.cur = Some((s.f)(y).into_iter()); } None => { s.cur = None; return None; } }
    }
}
pub struct Flatten<I: Iterator> where I::Item: IntoIterator { i: I, cur: Option<<I::Item as IntoIterator>::IntoIter> }
pub fn Iterator__flatten<I: Iterator>(i: I) -> Flatten<I> where I::Item: IntoIterator { Flatten { i, cur: None } }
pub fn Flatten__next<I: Iterator>(s: &mut Flatten<I>) -> Option<<I::Item as IntoIterator>::Item> where I::Item: IntoIterator {
    loop {
        if let Some(c) = &mut s.cur { if let Some(x) = c.next() { return Some(x); } }
        match s.i.next() { Some(y) => { s.cur = Some(y.into_iter()); } None => { s.cur = None; return None; } }
    }
}
// The same, once the loop that asks them has been split into loops inside each other: `advance` moves on
// to the next inner iterator, `next` only asks that one.
pub struct NFlatMap<I, F, U: IntoIterator> { i: I, f: F, cur: Option<U::IntoIter> }
pub fn NFlatMap__advance<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(s: &mut NFlatMap<I, F, U>) -> bool { match s.i.next() { Some(y) => { s.cur = Some((s.f)(y).into_iter()); true } None => false } }
pub fn NFlatMap__next<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(s: &mut NFlatMap<I, F, U>) -> Option<U::Item> { let x = match &mut s.cur { Some(c) => c.next(), None => None }; if let None = x { s.cur = None; } x }
pub struct NFlatten<I: Iterator> where I::Item: IntoIterator { i: I, cur: Option<<I::Item as IntoIterator>::IntoIter> }
pub fn NFlatten__advance<I: Iterator>(s: &mut NFlatten<I>) -> bool where I::Item: IntoIterator { match s.i.next() { Some(y) => { s.cur = Some(y.into_iter()); true } None => false } }
pub fn NFlatten__next<I: Iterator>(s: &mut NFlatten<I>) -> Option<<I::Item as IntoIterator>::Item> where I::Item: IntoIterator { let x = match &mut s.cur { Some(c) => c.next(), None => None }; if let None = x { s.cur = None; } x }
pub struct FromFn<F> { f: F }
pub fn from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> { FromFn { f } }
pub fn FromFn__next<T, F: FnMut() -> Option<T>>(s: &mut FromFn<F>) -> Option<T> { (s.f)() }
pub struct Scan<I, S, F> { i: I, s: S, f: F }
pub fn Iterator__scan<I: Iterator, S, B, F: FnMut(&mut S, I::Item) -> Option<B>>(i: I, s: S, f: F) -> Scan<I, S, F> { Scan { i, s, f } }
pub fn Scan__next<I: Iterator, S, B, F: FnMut(&mut S, I::Item) -> Option<B>>(c: &mut Scan<I, S, F>) -> Option<B> { match c.i.next() { Some(x) => (c.f)(&mut c.s, x), None => None } }
pub struct Successors<T, F> { n: Option<T>, f: F }
pub fn successors<T, F: FnMut(&T) -> Option<T>>(n: Option<T>, f: F) -> Successors<T, F> { Successors { n, f } }
pub fn Successors__next<T, F: FnMut(&T) -> Option<T>>(s: &mut Successors<T, F>) -> Option<T> { match std::mem::replace(&mut s.n, None) { Some(x) => { s.n = (s.f)(&x); Some(x) } None => None } }

// ---------------------------------------------------------------- iterator consumers
pub fn Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(i: I, f: F) { let mut i = i; let mut f = f; while let Some(x) = i.next() { f(x); } }
pub fn Iterator__try_for_each<I: Iterator, B, F: FnMut(I::Item) -> ControlFlow<B>>(i: &mut I, f: F) -> ControlFlow<B> { let mut f = f; while let Some(x) = i.next() { match f(x) { ControlFlow::Continue(_) => {} ControlFlow::Break(b) => return ControlFlow::Break(b) } } ControlFlow::Continue(()) }
pub fn Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(i: I, b: B, f: F) -> B { let mut i = i; let mut f = f; let mut acc = b; while let Some(x) = i.next() { acc = f(acc, x); } acc }
pub fn Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, f: F) -> bool { let mut f = f; while let Some(x) = i.next() { if f(x) { return true; } } false }
pub fn Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, f: F) -> bool { let mut f = f; while let Some(x) = i.next() { if !f(x) { return false; } } true }
pub fn Iterator__find<I: Iterator, F: FnMut(&I::Item) -> bool>(i: &mut I, f: F) -> Option<I::Item> { let mut f = f; while let Some(x) = i.next() { if f(&x) { return Some(x); } } None }
pub fn Iterator__find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(i: &mut I, f: F) -> Option<B> { let mut f = f; while let Some(x) = i.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn Iterator__position<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, f: F) -> Option<usize> { let mut f = f; let mut n = 0; while let Some(x) = i.next() { if f(x) { return Some(n); } n += 1; } None }
pub fn Iterator__rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(i: &mut I, f: F) -> Option<usize> { let mut f = f; let mut n = i.len(); while let Some(x) = i.next_back() { n -= 1; if f(x) { return Some(n); } } None }
pub fn Iterator__last<I: Iterator>(i: I) -> Option<I::Item> { let mut i = i; let mut r = None; while let Some(x) = i.next() { r = Some(x); } r }
pub fn Iterator__count<I: Iterator>(i: I) -> usize { let mut i = i; let mut n = 0; while let Some(_) = i.next() { n += 1; } n }
pub fn Iterator__nth<I: Iterator>(i: &mut I, n: usize) -> Option<I::Item> { let mut k = n; while k > 0 { match i.next() { Some(_) => {} None => return None } k -= 1; } i.next() }
pub fn Iterator__reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(i: I, f: F) -> Option<I::Item> { let mut i = i; let mut f = f; match i.next() { None => None, Some(a) => { let mut acc = a; while let Some(x) = i.next() { acc = f(acc, x); } Some(acc) } } }
pub fn Iterator__min<I: Iterator>(i: I) -> Option<I::Item> where I::Item: Ord { let mut i = i; match i.next() { None => None, Some(a) => { let mut acc = a; while let Some(x) = i.next() { if x < acc { acc = x; } } Some(acc) } } }
pub fn Iterator__max<I: Iterator>(i: I) -> Option<I::Item> where I::Item: Ord { let mut i = i; match i.next() { None => None, Some(a) => { let mut acc = a; while let Some(x) = i.next() { if !(x < acc) { acc = x; } } Some(acc) } } }
pub fn Iterator__min_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(i: I, f: F) -> Option<I::Item> { let mut i = i; let mut f = f; match i.next() { None => None, Some(a) => { let mut key = f(&a); let mut acc = a; while let Some(x) = i.next() { let k = f(&x); if k < key { key = k; acc = x; } } Some(acc) } } }
pub fn Iterator__max_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(i: I, f: F) -> Option<I::Item> { let mut i = i; let mut f = f; match i.next() { None => None, Some(a) => { let mut key = f(&a); let mut acc = a; while let Some(x) = i.next() { let k = f(&x); if !(k < key) { key = k; acc = x; } } Some(acc) } } }
pub fn Iterator__sum<I: Iterator<Item = usize>>(i: I) -> usize { let mut i = i; let mut n = 0; while let Some(x) = i.next() { n += x; } n }
pub fn Iterator__partition__vec<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> (Vec<I::Item>, Vec<I::Item>) { let mut i = i; let mut f = f; let mut a = Vec::new(); let mut b = Vec::new(); while let Some(x) = i.next() { if f(&x) { a.push(x) } else { b.push(x) } } (a, b) }
pub fn Iterator__unzip__vec<A, B, I: Iterator<Item = (A, B)>>(i: I) -> (Vec<A>, Vec<B>) { let mut i = i; let mut a = Vec::new(); let mut b = Vec::new(); while let Some((x, y)) = i.next() { a.push(x); b.push(y); } (a, b) }

pub fn Vec__from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> { let mut i = i.into_iter(); let mut v = Vec::new(); while let Some(x) = i.next() { v.push(x); } v }
pub fn HashSet__from_iter<T: Eq + Hash, I: IntoIterator<Item = T>>(i: I) -> HashSet<T> { let mut i = i.into_iter(); let mut v = HashSet::new(); while let Some(x) = i.next() { v.insert(x); } v }
pub fn HashMap__from_iter<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(i: I) -> HashMap<K, V> { let mut i = i.into_iter(); let mut v = HashMap::new(); while let Some((k, x)) = i.next() { v.insert(k, x); } v }
pub fn Option__from_iter<T, I: IntoIterator<Item = Option<T>>>(i: I) -> Option<Vec<T>> { let mut i = i.into_iter(); let mut v = Vec::new(); while let Some(x) = i.next() { match x { Some(y) => v.push(y), None => return None } } Some(v) }
pub fn Result__from_iter<T, E, I: IntoIterator<Item = Result<T, E>>>(i: I) -> Result<Vec<T>, E> { let mut i = i.into_iter(); let mut v = Vec::new(); while let Some(x) = i.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } } Ok(v) }

// ---------------------------------------------------------------- Vec / slice
pub fn Vec__is_empty<T>(v: &Vec<T>) -> bool { v.len() == 0 }
pub fn Vec__first<T>(v: &Vec<T>) -> Option<&T> { v.get(0) }
pub fn Vec__last<T>(v: &Vec<T>) -> Option<&T> { if v.len() == 0 { None } else { v.get(v.len() - 1) } }
pub fn Vec__last_mut<T>(v: &mut Vec<T>) -> Option<&mut T> { if v.len() == 0 { None } else { let n = v.len() - 1; v.get_mut(n) } }
pub fn Vec__first_mut<T>(v: &mut Vec<T>) -> Option<&mut T> { v.get_mut(0) }
pub fn Vec__push_front<T>(v: &mut Vec<T>, x: T) { v.insert(0, x) }
pub fn Vec__push_back<T>(v: &mut Vec<T>, x: T) { v.push(x) }
pub fn Vec__pop_back<T>(v: &mut Vec<T>) -> Option<T> { v.pop() }
pub fn Vec__pop_front<T>(v: &mut Vec<T>) -> Option<T> { if v.len() == 0 { None } else { Some(v.remove(0)) } }
pub fn Vec__front<T>(v: &Vec<T>) -> Option<&T> { v.get(0) }
pub fn Vec__front_mut<T>(v: &mut Vec<T>) -> Option<&mut T> { v.get_mut(0) }
pub fn Vec__back<T>(v: &Vec<T>) -> Option<&T> { if v.len() == 0 { None } else { v.get(v.len() - 1) } }
pub fn Vec__back_mut<T>(v: &mut Vec<T>) -> Option<&mut T> { if v.len() == 0 { None } else { let n = v.len() - 1; v.get_mut(n) } }
pub fn Vec__contains<T: PartialEq>(v: &Vec<T>, x: &T) -> bool { let mut i = v.iter(); while let Some(y) = i.next() { if *y == *x { return true; } } false }
pub fn Vec__extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) { let mut i = i.into_iter(); while let Some(x) = i.next() { v.push(x); } }
pub fn Vec__extend_from_slice<T: Clone>(v: &mut Vec<T>, w: &Vec<T>) { let mut i = w.iter(); while let Some(x) = i.next() { v.push(x.clone()); } }
pub fn Vec__append<T>(v: &mut Vec<T>, w: &mut Vec<T>) { let o = std::mem::replace(w, Vec::new()); let mut i = o.into_iter(); while let Some(x) = i.next() { v.push(x); } }
pub fn Vec__to_vec<T: Clone>(v: &Vec<T>) -> Vec<T> { v.clone() }
pub fn Vec__into_boxed_slice<T>(v: Vec<T>) -> Vec<T> { v }
pub fn Vec__split_last<T>(v: &Vec<T>) -> Option<(&T, &[T])> { if v.len() == 0 { None } else { let n = v.len() - 1; Some((&v[n], &v[..n])) } }
pub fn Vec__split_first<T>(v: &Vec<T>) -> Option<(&T, &[T])> { if v.len() == 0 { None } else { Some((&v[0], &v[1..])) } }
pub fn Vec__resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) { while v.len() < n { v.push(x.clone()); } }

// ---------------------------------------------------------------- HashSet / HashMap
pub fn HashSet__extend<T: Eq + Hash, I: IntoIterator<Item = T>>(v: &mut HashSet<T>, i: I) { let mut i = i.into_iter(); while let Some(x) = i.next() { v.insert(x); } }
pub fn HashSet__is_empty<T>(v: &HashSet<T>) -> bool { v.len() == 0 }
pub fn HashSet__get<'a, T: Eq + Hash>(v: &'a HashSet<T>, x: &'a T) -> Option<&'a T> { if v.contains(x) { Some(x) } else { None } }
pub fn HashSet__replace<T: Eq + Hash>(v: &mut HashSet<T>, x: T) { v.insert(x); }
pub fn HashSet__retain<T: Clone + Eq + Hash, F: FnMut(&T) -> bool>(v: &mut HashSet<T>, mut f: F) { let c = v.clone(); let mut i = c.iter(); while let Some(x) = i.next() { if !f(x) { v.remove(x); } } }
pub fn HashSet__is_disjoint<T: Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> bool { let mut i = a.iter(); while let Some(x) = i.next() { if b.contains(x) { return false; } } true }
pub fn HashSet__take<T: Clone + Eq + Hash>(v: &mut HashSet<T>, x: &T) -> Option<T> { if v.remove(x) { Some(x.clone()) } else { None } }
pub fn HashSet__bitor<T: Clone + Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> HashSet<T> { let mut r = HashSet::new(); let mut i = a.iter(); while let Some(x) = i.next() { r.insert(x.clone()); } let mut i = b.iter(); while let Some(x) = i.next() { r.insert(x.clone()); } r }
pub fn HashSet__sub<T: Clone + Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> HashSet<T> { let mut r = HashSet::new(); let mut i = a.iter(); while let Some(x) = i.next() { if !b.contains(x) { r.insert(x.clone()); } } r }
pub fn HashSet__bitxor<T: Clone + Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> HashSet<T> { let mut r = HashSet::new(); let mut i = a.iter(); while let Some(x) = i.next() { if !b.contains(x) { r.insert(x.clone()); } } let mut i = b.iter(); while let Some(x) = i.next() { if !a.contains(x) { r.insert(x.clone()); } } r }
pub fn HashSet__bitand<T: Clone + Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> HashSet<T> { let mut r = HashSet::new(); let mut i = a.iter(); while let Some(x) = i.next() { if b.contains(x) { r.insert(x.clone()); } } r }
pub fn HashSet__is_subset<T: Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> bool { let mut i = a.iter(); while let Some(x) = i.next() { if !b.contains(x) { return false; } } true }
pub fn HashSet__is_superset<T: Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> bool { HashSet__is_subset(b, a) }
pub struct Difference<'a, I, T> { i: I, o: &'a HashSet<T> }
pub fn HashSet__difference<'a, T: Eq + Hash>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> Difference<'a, std::collections::hash_set::Iter<'a, T>, T> { Difference { i: a.iter(), o: b } }
pub fn Difference__next<'a, T: 'a + Eq + Hash, I: Iterator<Item = &'a T>>(s: &mut Difference<'a, I, T>) -> Option<&'a T> { while let Some(x) = s.i.next() { if !s.o.contains(x) { return Some(x); } } None }
pub struct Intersection<'a, I, T> { i: I, o: &'a HashSet<T> }
pub fn HashSet__intersection<'a, T: Eq + Hash>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> Intersection<'a, std::collections::hash_set::Iter<'a, T>, T> { Intersection { i: a.iter(), o: b } }
pub fn Intersection__next<'a, T: 'a + Eq + Hash, I: Iterator<Item = &'a T>>(s: &mut Intersection<'a, I, T>) -> Option<&'a T> { while let Some(x) = s.i.next() { if s.o.contains(x) { return Some(x); } } None }
pub struct Union<'a, I, T> { a: Option<I>, b: I, o: &'a HashSet<T> }
pub fn HashSet__union<'a, T: Eq + Hash>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> Union<'a, std::collections::hash_set::Iter<'a, T>, T> { Union { a: Some(a.iter()), b: b.iter(), o: a } }
pub fn Union__next<'a, T: 'a + Eq + Hash, I: Iterator<Item = &'a T>>(s: &mut Union<'a, I, T>) -> Option<&'a T> {
    if let Some(a) = &mut s.a { match a.next() { Some(x) => return Some(x), None => {} } s.a = None; }
    while let Some(x) = s.b.next() { if !s.o.contains(x) { return Some(x); } } None
}
pub fn HashMap__extend<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(v: &mut HashMap<K, V>, i: I) { let mut i = i.into_iter(); while let Some((k, x)) = i.next() { v.insert(k, x); } }
pub fn HashMap__is_empty<K, V>(v: &HashMap<K, V>) -> bool { v.len() == 0 }
pub fn HashMap__get_key_value<'a, K: Eq + Hash, V>(m: &'a HashMap<K, V>, k: &'a K) -> Option<(&'a K, &'a V)> { match m.get(k) { Some(v) => Some((k, v)), None => None } }
pub fn HashMap__index<'a, K: Eq + Hash, V>(m: &'a HashMap<K, V>, k: &K) -> &'a V { match m.get(k) { Some(v) => v, None => panic!("no entry for key") } }

pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
pub struct VacantEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
pub fn HashMap__entry<K: Eq + Hash, V>(m: &mut HashMap<K, V>, k: K) -> Entry<'_, K, V> { if m.contains_key(&k) { Entry::Occupied(OccupiedEntry { m, k }) } else { Entry::Vacant(VacantEntry { m, k }) } }
pub fn OccupiedEntry__into_mut<'a, K: Eq + Hash, V>(e: OccupiedEntry<'a, K, V>) -> &'a mut V { match e.m.get_mut(&e.k) { Some(v) => v, None => panic!("unreachable") } }
pub fn OccupiedEntry__get_mut<'b, 'a, K: Eq + Hash, V>(e: &'b mut OccupiedEntry<'a, K, V>) -> &'b mut V { match e.m.get_mut(&e.k) { Some(v) => v, None => panic!("unreachable") } }
pub fn OccupiedEntry__get<'b, 'a, K: Eq + Hash, V>(e: &'b OccupiedEntry<'a, K, V>) -> &'b V { match e.m.get(&e.k) { Some(v) => v, None => panic!("unreachable") } }
pub fn OccupiedEntry__key<'b, 'a, K, V>(e: &'b OccupiedEntry<'a, K, V>) -> &'b K { &e.k }
pub fn OccupiedEntry__insert<'b, 'a, K: Eq + Hash + Clone, V>(e: &'b mut OccupiedEntry<'a, K, V>, v: V) { e.m.insert(e.k.clone(), v); }
pub fn VacantEntry__insert<'a, K: Eq + Hash + Clone, V>(e: VacantEntry<'a, K, V>, v: V) -> &'a mut V { e.m.insert(e.k.clone(), v); match e.m.get_mut(&e.k) { Some(v) => v, None => panic!("unreachable") } }
pub fn VacantEntry__key<'b, 'a, K, V>(e: &'b VacantEntry<'a, K, V>) -> &'b K { &e.k }
pub fn Entry__or_insert_with<'a, K: Eq + Hash + Clone, V, F: FnOnce() -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V { match e { Entry::Occupied(o) => OccupiedEntry__into_mut(o), Entry::Vacant(v) => VacantEntry__insert(v, f()) } }
pub fn Entry__or_insert<'a, K: Eq + Hash + Clone, V>(e: Entry<'a, K, V>, x: V) -> &'a mut V { match e { Entry::Occupied(o) => OccupiedEntry__into_mut(o), Entry::Vacant(v) => VacantEntry__insert(v, x) } }
pub fn Entry__or_insert_with_key<'a, K: Eq + Hash + Clone, V, F: FnOnce(&K) -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V { match e { Entry::Occupied(o) => OccupiedEntry__into_mut(o), Entry::Vacant(v) => { let x = f(&v.k); VacantEntry__insert(v, x) } } }
pub fn Entry__and_modify<'a, K: Eq + Hash, V, F: FnOnce(&mut V)>(e: Entry<'a, K, V>, f: F) -> Entry<'a, K, V> { match e { Entry::Occupied(o) => { let mut o = o; f(OccupiedEntry__get_mut(&mut o)); Entry::Occupied(o) } Entry::Vacant(v) => Entry::Vacant(v) } }
pub fn Entry__key<'b, 'a, K, V>(e: &'b Entry<'a, K, V>) -> &'b K { match e { Entry::Occupied(o) => &o.k, Entry::Vacant(v) => &v.k } }

// ---------------------------------------------------------------- consumers of nested iterators
// Used instead of the `next` loops above when an iterator contains a FlatMap or Flatten: the
// consumer becomes one loop inside another, as a reader of the code would write it.
pub fn FlatMap__for_each__deep<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U, G: FnMut(U::Item)>(s: FlatMap<I, F, U>, g: G) { let mut g = g; let mut h = s.f; s.i.for_each(|y| { h(y).into_iter().for_each(|x| g(x)) }) }
pub fn FlatMap__any__deep<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U, G: FnMut(U::Item) -> bool>(s: &mut FlatMap<I, F, U>, g: G) -> bool { let mut g = g; let h = &mut s.f; s.i.any(|y| { h(y).into_iter().any(|x| g(x)) }) }
pub fn FlatMap__all__deep<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U, G: FnMut(U::Item) -> bool>(s: &mut FlatMap<I, F, U>, g: G) -> bool { let mut g = g; let h = &mut s.f; s.i.all(|y| { h(y).into_iter().all(|x| g(x)) }) }
pub fn Flatten__for_each__deep<I: Iterator, G: FnMut(<I::Item as IntoIterator>::Item)>(s: Flatten<I>, g: G) where I::Item: IntoIterator { let mut g = g; s.i.for_each(|y| { y.into_iter().for_each(|x| g(x)) }) }
pub fn Flatten__any__deep<I: Iterator, G: FnMut(<I::Item as IntoIterator>::Item) -> bool>(s: &mut Flatten<I>, g: G) -> bool where I::Item: IntoIterator { let mut g = g; s.i.any(|y| { y.into_iter().any(|x| g(x)) }) }
pub fn Flatten__all__deep<I: Iterator, G: FnMut(<I::Item as IntoIterator>::Item) -> bool>(s: &mut Flatten<I>, g: G) -> bool where I::Item: IntoIterator { let mut g = g; s.i.all(|y| { y.into_iter().all(|x| g(x)) }) }
pub fn Map__for_each__deep<I: Iterator, B, F: FnMut(I::Item) -> B, G: FnMut(B)>(s: Map<I, F>, g: G) { let mut g = g; let mut h = s.f; s.i.for_each(|x| g(h(x))) }
pub fn Map__any__deep<I: Iterator, B, F: FnMut(I::Item) -> B, G: FnMut(B) -> bool>(s: &mut Map<I, F>, g: G) -> bool { let mut g = g; let h = &mut s.f; s.i.any(|x| g(h(x))) }
pub fn Map__all__deep<I: Iterator, B, F: FnMut(I::Item) -> B, G: FnMut(B) -> bool>(s: &mut Map<I, F>, g: G) -> bool { let mut g = g; let h = &mut s.f; s.i.all(|x| g(h(x))) }
pub fn Filter__for_each__deep<I: Iterator, F: FnMut(&I::Item) -> bool, G: FnMut(I::Item)>(s: Filter<I, F>, g: G) { let mut g = g; let mut h = s.f; s.i.for_each(|x| { if h(&x) { g(x) } }) }
pub fn Filter__any__deep<I: Iterator, F: FnMut(&I::Item) -> bool, G: FnMut(I::Item) -> bool>(s: &mut Filter<I, F>, g: G) -> bool { let mut g = g; let h = &mut s.f; s.i.any(|x| h(&x) && g(x)) }
pub fn Filter__all__deep<I: Iterator, F: FnMut(&I::Item) -> bool, G: FnMut(I::Item) -> bool>(s: &mut Filter<I, F>, g: G) -> bool { let mut g = g; let h = &mut s.f; s.i.all(|x| !h(&x) || g(x)) }
pub fn FilterMap__for_each__deep<I: Iterator, B, F: FnMut(I::Item) -> Option<B>, G: FnMut(B)>(s: FilterMap<I, F>, g: G) { let mut g = g; let mut h = s.f; s.i.for_each(|x| { if let Some(y) = h(x) { g(y) } }) }
pub fn Inspect__for_each__deep<I: Iterator, F: FnMut(&I::Item), G: FnMut(I::Item)>(s: Inspect<I, F>, g: G) { let mut g = g; let mut h = s.f; s.i.for_each(|x| { h(&x); g(x) }) }
pub fn Cloned__for_each__deep<'a, T: 'a + Clone, I: Iterator<Item = &'a T>, G: FnMut(T)>(s: Cloned<I>, g: G) { let mut g = g; s.i.for_each(|x| g(x.clone())) }
pub fn Cloned__any__deep<'a, T: 'a + Clone, I: Iterator<Item = &'a T>, G: FnMut(T) -> bool>(s: &mut Cloned<I>, g: G) -> bool { let mut g = g; s.i.any(|x| g(x.clone())) }
pub fn Cloned__all__deep<'a, T: 'a + Clone, I: Iterator<Item = &'a T>, G: FnMut(T) -> bool>(s: &mut Cloned<I>, g: G) -> bool { let mut g = g; s.i.all(|x| g(x.clone())) }
pub fn Chain__for_each__deep<A: Iterator, B: Iterator<Item = A::Item>, G: FnMut(A::Item)>(s: Chain<A, B>, g: G) { let mut g = g; if let Some(a) = s.a { a.for_each(|x| g(x)); } s.b.for_each(|x| g(x)) }
pub fn Enumerate__for_each__deep<I: Iterator, G: FnMut((usize, I::Item))>(s: Enumerate<I>, g: G) { let mut g = g; let mut n = s.n; s.i.for_each(|x| { g((n, x)); n += 1; }) }
pub fn Vec__from_iter__deep<T, I: Iterator<Item = T>>(i: I) -> Vec<T> { let mut v = Vec::new(); i.for_each(|x| { v.push(x); }); v }
pub fn HashSet__from_iter__deep<T: Eq + Hash, I: Iterator<Item = T>>(i: I) -> HashSet<T> { let mut v = HashSet::new(); i.for_each(|x| { v.insert(x); }); v }
pub fn Vec__extend__deep<T, I: Iterator<Item = T>>(v: &mut Vec<T>, i: I) { i.for_each(|x| { v.push(x); }) }
pub fn HashSet__extend__deep<T: Eq + Hash, I: Iterator<Item = T>>(v: &mut HashSet<T>, i: I) { i.for_each(|x| { v.insert(x); }) }
pub fn Vec__from_iter__small<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> { let mut i = i.into_iter(); let mut v = Vec::new(); if let Some(x) = i.next() { v.push(x); if let Some(x) = i.next() { v.push(x); if let Some(x) = i.next() { v.push(x); } } } v }
pub fn HashSet__from_iter__small<T: Eq + Hash, I: IntoIterator<Item = T>>(i: I) -> HashSet<T> { let mut i = i.into_iter(); let mut v = HashSet::new(); if let Some(x) = i.next() { v.insert(x); if let Some(x) = i.next() { v.insert(x); if let Some(x) = i.next() { v.insert(x); } } } v }
pub fn Vec__extend__small<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) { let mut i = i.into_iter(); if let Some(x) = i.next() { v.push(x); if let Some(x) = i.next() { v.push(x); if let Some(x) = i.next() { v.push(x); } } } }
pub fn HashSet__extend__small<T: Eq + Hash, I: IntoIterator<Item = T>>(v: &mut HashSet<T>, i: I) { let mut i = i.into_iter(); if let Some(x) = i.next() { v.insert(x); if let Some(x) = i.next() { v.insert(x); if let Some(x) = i.next() { v.insert(x); } } } }
