//! Models of library functions, written so that the analysis can look inside them.
use std::collections::HashMap;

// ---------------------------------------------------------------- Option
pub fn Option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn Option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn Option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn Option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn Option_unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(x) => x, None => d }
}
pub fn Option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn Option_unwrap_or_default<T: Default>(o: Option<T>) -> T {
    match o { Some(x) => x, None => T::default() }
}
pub fn Option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn Option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn Option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => false }
}
pub fn Option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => true }
}
pub fn Option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
pub fn Option_or<T>(o: Option<T>, b: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => b }
}
pub fn Option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn Option_and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> {
    match o { Some(_) => b, None => None }
}
pub fn Option_zip<T, U>(o: Option<T>, b: Option<U>) -> Option<(T, U)> {
    match o { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None }
}
pub fn Option_flatten<T>(o: Option<Option<T>>) -> Option<T> {
    match o { Some(x) => x, None => None }
}
pub fn Option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}
pub fn Option_is_some<T>(o: &Option<T>) -> bool {
    match o { Some(_) => true, None => false }
}
pub fn Option_is_none<T>(o: &Option<T>) -> bool {
    match o { Some(_) => false, None => true }
}

// ---------------------------------------------------------------- Result
pub fn Result_map<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn Result_map_err<T, U, E, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> {
    match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn Result_and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn Result_and<T, U, E>(o: Result<T, E>, b: Result<U, E>) -> Result<U, E> {
    match o { Ok(_) => b, Err(e) => Err(e) }
}
pub fn Result_or<T, E, F>(o: Result<T, E>, b: Result<T, F>) -> Result<T, F> {
    match o { Ok(x) => Ok(x), Err(_) => b }
}
pub fn Result_or_else<T, E, E2, F: FnOnce(E) -> Result<T, E2>>(o: Result<T, E>, f: F) -> Result<T, E2> {
    match o { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn Result_ok<T, E>(o: Result<T, E>) -> Option<T> {
    match o { Ok(x) => Some(x), Err(_) => None }
}
pub fn Result_err<T, E>(o: Result<T, E>) -> Option<E> {
    match o { Ok(_) => None, Err(e) => Some(e) }
}
pub fn Result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T {
    match o { Ok(x) => x, Err(_) => d }
}
pub fn Result_unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T {
    match o { Ok(x) => x, Err(_) => T::default() }
}
pub fn Result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
    match o { Ok(x) => x, Err(e) => f(e) }
}
pub fn Result_map_or<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
    match o { Ok(x) => f(x), Err(_) => d }
}
pub fn Result_map_or_else<T, U, E, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
    match o { Ok(x) => f(x), Err(e) => d(e) }
}
pub fn Result_is_ok<T, E>(o: &Result<T, E>) -> bool {
    match o { Ok(_) => true, Err(_) => false }
}
pub fn Result_is_err<T, E>(o: &Result<T, E>) -> bool {
    match o { Ok(_) => false, Err(_) => true }
}
pub fn Result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool {
    match o { Ok(x) => f(x), Err(_) => false }
}
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b { Some(f()) } else { None }
}
pub fn bool_then_some<T>(b: bool, t: T) -> Option<T> {
    if b { Some(t) } else { None }
}

// ---------------------------------------------------------------- iterator adapters
/// One step of an iterator: adapters that drop elements yield `Skip`, so that consuming a filtered
/// iterator needs no nested loop.
pub enum Step<T> { Done, Skip, Yield(T) }
pub trait It { type Item; fn step(&mut self) -> Step<Self::Item>; }
pub trait ItBack: It { fn step_back(&mut self) -> Step<Self::Item>; }

pub fn it_next<I: It>(i: &mut I) -> Option<I::Item> {
    loop {
        match i.step() { Step::Yield(x) => return Some(x), Step::Skip => (), Step::Done => return None }
    }
}
pub fn it_next_back<I: ItBack>(i: &mut I) -> Option<I::Item> {
    loop {
        match i.step_back() { Step::Yield(x) => return Some(x), Step::Skip => (), Step::Done => return None }
    }
}

pub struct Map<I, F> { i: I, f: F }
pub fn Iterator_map<I, F>(i: I, f: F) -> Map<I, F> { Map { i, f } }
impl<B, I: It, F: FnMut(I::Item) -> B> It for Map<I, F> {
    type Item = B;
    fn step(&mut self) -> Step<B> {
        match self.i.step() { Step::Yield(x) => Step::Yield((self.f)(x)), Step::Skip => Step::Skip, Step::Done => Step::Done }
    }
}
impl<B, I: ItBack, F: FnMut(I::Item) -> B> ItBack for Map<I, F> {
    fn step_back(&mut self) -> Step<B> {
        match self.i.step_back() { Step::Yield(x) => Step::Yield((self.f)(x)), Step::Skip => Step::Skip, Step::Done => Step::Done }
    }
}
pub struct Filter<I, F> { i: I, f: F }
pub fn Iterator_filter<I, F>(i: I, f: F) -> Filter<I, F> { Filter { i, f } }
impl<I: It, F: FnMut(&I::Item) -> bool> It for Filter<I, F> {
    type Item = I::Item;
    fn step(&mut self) -> Step<I::Item> {
        match self.i.step() {
            Step::Yield(x) => if (self.f)(&x) { Step::Yield(x) } else { Step::Skip },
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct FilterMap<I, F> { i: I, f: F }
pub fn Iterator_filter_map<I, F>(i: I, f: F) -> FilterMap<I, F> { FilterMap { i, f } }
impl<B, I: It, F: FnMut(I::Item) -> Option<B>> It for FilterMap<I, F> {
    type Item = B;
    fn step(&mut self) -> Step<B> {
        match self.i.step() {
            Step::Yield(x) => match (self.f)(x) { Some(y) => Step::Yield(y), None => Step::Skip },
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct Enumerate<I> { i: I, n: usize }
pub fn Iterator_enumerate<I>(i: I) -> Enumerate<I> { Enumerate { i, n: 0 } }
impl<I: It> It for Enumerate<I> {
    type Item = (usize, I::Item);
    fn step(&mut self) -> Step<(usize, I::Item)> {
        match self.i.step() {
            Step::Yield(x) => { let n = self.n; self.n = n + 1; Step::Yield((n, x)) }
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct Zip<A, B> { a: A, b: B }
pub fn Iterator_zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn zip_zip<A: IntoIterator, B: IntoIterator>(a: A, b: B) -> Zip<A::IntoIter, B::IntoIter> { Zip { a: a.into_iter(), b: b.into_iter() } }
impl<A: It, B: It> It for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn step(&mut self) -> Step<(A::Item, B::Item)> {
        match it_next(&mut self.a) {
            Some(x) => match it_next(&mut self.b) { Some(y) => Step::Yield((x, y)), None => Step::Done },
            None => Step::Done,
        }
    }
}
pub struct Chain<A, B> { a: A, b: B, first: bool }
pub fn Iterator_chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> {
    Chain { a, b: b.into_iter(), first: true }
}
impl<A: It, B: It<Item = A::Item>> It for Chain<A, B> {
    type Item = A::Item;
    fn step(&mut self) -> Step<A::Item> {
        if self.first {
            match self.a.step() { Step::Yield(x) => return Step::Yield(x), Step::Skip => return Step::Skip, Step::Done => self.first = false }
        }
        self.b.step()
    }
}
pub struct Skip<I> { i: I, n: usize }
pub fn Iterator_skip<I>(i: I, n: usize) -> Skip<I> { Skip { i, n } }
impl<I: It> It for Skip<I> {
    type Item = I::Item;
    fn step(&mut self) -> Step<I::Item> {
        match self.i.step() {
            Step::Yield(x) => if self.n > 0 { self.n -= 1; Step::Skip } else { Step::Yield(x) },
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct Take<I> { i: I, n: usize }
pub fn Iterator_take<I>(i: I, n: usize) -> Take<I> { Take { i, n } }
impl<I: It> It for Take<I> {
    type Item = I::Item;
    fn step(&mut self) -> Step<I::Item> {
        if self.n == 0 { return Step::Done }
        match self.i.step() {
            Step::Yield(x) => { self.n -= 1; Step::Yield(x) }
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct Rev<I> { i: I }
pub fn Iterator_rev<I>(i: I) -> Rev<I> { Rev { i } }
impl<I: ItBack> It for Rev<I> {
    type Item = I::Item;
    fn step(&mut self) -> Step<I::Item> { self.i.step_back() }
}
impl<I: ItBack> ItBack for Rev<I> {
    fn step_back(&mut self) -> Step<I::Item> { self.i.step() }
}
pub struct Peekable<I: It> { i: I, p: Option<Option<I::Item>> }
pub fn Iterator_peekable<I: It>(i: I) -> Peekable<I> { Peekable { i, p: None } }
pub fn Peekable_peek<I: It>(s: &mut Peekable<I>) -> Option<&I::Item> {
    if let None = s.p { let v = it_next(&mut s.i); s.p = Some(v); }
    match &s.p { Some(Some(x)) => Some(x), _ => None }
}
impl<I: It> It for Peekable<I> {
    type Item = I::Item;
    fn step(&mut self) -> Step<I::Item> {
        match self.p.take() { Some(Some(v)) => Step::Yield(v), Some(None) => Step::Done, None => self.i.step() }
    }
}
pub struct TakeWhile<I, F> { i: I, f: F, done: bool }
pub fn Iterator_take_while<I, F>(i: I, f: F) -> TakeWhile<I, F> { TakeWhile { i, f, done: false } }
impl<I: It, F: FnMut(&I::Item) -> bool> It for TakeWhile<I, F> {
    type Item = I::Item;
    fn step(&mut self) -> Step<I::Item> {
        if self.done { return Step::Done }
        match self.i.step() {
            Step::Yield(x) => if (self.f)(&x) { Step::Yield(x) } else { self.done = true; Step::Done },
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct Chunks<'a, T> { s: &'a [T], n: usize, i: usize }
pub fn slice_chunks<T>(s: &[T], n: usize) -> Chunks<'_, T> { assert!(n != 0); Chunks { s, n, i: 0 } }
impl<'a, T> It for Chunks<'a, T> {
    type Item = &'a [T];
    fn step(&mut self) -> Step<&'a [T]> {
        let o = self.i;
        if o >= self.s.len() { return Step::Done }
        let e = if self.s.len() - o < self.n { self.s.len() } else { o + self.n };
        self.i = o + self.n;
        Step::Yield(&self.s[o..e])
    }
}
pub struct ChunksExact<'a, T> { s: &'a [T], n: usize, i: usize }
pub fn slice_chunks_exact<T>(s: &[T], n: usize) -> ChunksExact<'_, T> { assert!(n != 0); ChunksExact { s, n, i: 0 } }
impl<'a, T> It for ChunksExact<'a, T> {
    type Item = &'a [T];
    fn step(&mut self) -> Step<&'a [T]> {
        let o = self.i;
        if self.s.len() < o + self.n { return Step::Done }
        self.i = o + self.n;
        Step::Yield(&self.s[o..o + self.n])
    }
}
pub struct SkipWhile<I, F> { i: I, f: F, on: bool }
pub fn Iterator_skip_while<I, F>(i: I, f: F) -> SkipWhile<I, F> { SkipWhile { i, f, on: true } }
impl<I: It, F: FnMut(&I::Item) -> bool> It for SkipWhile<I, F> {
    type Item = I::Item;
    fn step(&mut self) -> Step<I::Item> {
        match self.i.step() {
            Step::Yield(x) => if self.on && (self.f)(&x) { Step::Skip } else { self.on = false; Step::Yield(x) },
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct MapWhile<I, F> { i: I, f: F, done: bool }
pub fn Iterator_map_while<I, F>(i: I, f: F) -> MapWhile<I, F> { MapWhile { i, f, done: false } }
impl<B, I: It, F: FnMut(I::Item) -> Option<B>> It for MapWhile<I, F> {
    type Item = B;
    fn step(&mut self) -> Step<B> {
        if self.done { return Step::Done }
        match self.i.step() {
            Step::Yield(x) => match (self.f)(x) { Some(y) => Step::Yield(y), None => { self.done = true; Step::Done } },
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct Scan<I, S, F> { i: I, s: S, f: F, done: bool }
pub fn Iterator_scan<I, S, F>(i: I, s: S, f: F) -> Scan<I, S, F> { Scan { i, s, f, done: false } }
impl<B, S, I: It, F: FnMut(&mut S, I::Item) -> Option<B>> It for Scan<I, S, F> {
    type Item = B;
    fn step(&mut self) -> Step<B> {
        if self.done { return Step::Done }
        match self.i.step() {
            Step::Yield(x) => match (self.f)(&mut self.s, x) { Some(y) => Step::Yield(y), None => { self.done = true; Step::Done } },
            Step::Skip => Step::Skip,
            Step::Done => Step::Done,
        }
    }
}
pub struct Inspect<I, F> { i: I, f: F }
pub fn Iterator_inspect<I, F>(i: I, f: F) -> Inspect<I, F> { Inspect { i, f } }
impl<I: It, F: FnMut(&I::Item)> It for Inspect<I, F> {
    type Item = I::Item;
    fn step(&mut self) -> Step<I::Item> {
        match self.i.step() { Step::Yield(x) => { (self.f)(&x); Step::Yield(x) }, Step::Skip => Step::Skip, Step::Done => Step::Done }
    }
}
/// Lazily flattened sequence of sequences; only consumed by the functions below.
pub struct Flat<I> { i: I }
pub fn Iterator_flatten<I>(i: I) -> Flat<I> { Flat { i } }
pub fn Iterator_flat_map<I, F>(i: I, f: F) -> Flat<Map<I, F>> { Flat { i: Map { i, f } } }

// ---------------------------------------------------------------- consumers
macro_rules! each {
    ($i:expr, $x:pat => $b:block) => {
        loop { match $i.step() { Step::Yield($x) => $b, Step::Skip => (), Step::Done => break } }
    };
}
pub fn Iterator_fold<I: It, B, F: FnMut(B, I::Item) -> B>(mut i: I, init: B, mut f: F) -> B {
    let mut acc = init;
    each!(i, x => { acc = f(acc, x); });
    acc
}
pub fn Iterator_try_fold<I: It, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(i: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    each!(i, x => { match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) } });
    Ok(acc)
}
pub fn Iterator_try_for_each<I: It, E, F: FnMut(I::Item) -> Result<(), E>>(i: &mut I, mut f: F) -> Result<(), E> {
    each!(i, x => { match f(x) { Ok(()) => (), Err(e) => return Err(e) } });
    Ok(())
}
pub fn Iterator_for_each<I: It, F: FnMut(I::Item)>(mut i: I, mut f: F) {
    each!(i, x => { f(x); });
}
pub fn Iterator_all<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
    each!(i, x => { if !f(x) { return false } });
    true
}
pub fn Iterator_any<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
    each!(i, x => { if f(x) { return true } });
    false
}
pub fn Iterator_find<I: It, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> {
    each!(i, x => { if f(&x) { return Some(x) } });
    None
}
pub fn Iterator_find_map<I: It, B, F: FnMut(I::Item) -> Option<B>>(i: &mut I, mut f: F) -> Option<B> {
    each!(i, x => { if let Some(y) = f(x) { return Some(y) } });
    None
}
pub fn Iterator_position<I: It, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    each!(i, x => { if f(x) { return Some(n) } n += 1; });
    None
}
pub fn Iterator_count<I: It>(mut i: I) -> usize {
    let mut n = 0;
    each!(i, _ => { n += 1; });
    n
}
pub fn Iterator_last<I: It>(mut i: I) -> Option<I::Item> {
    let mut r = None;
    each!(i, x => { r = Some(x); });
    r
}
pub fn sum_u32<I: It<Item = u32>>(mut i: I) -> u32 {
    let mut n = 0u32;
    each!(i, x => { n += x; });
    n
}
pub fn sum_usize<I: It<Item = usize>>(mut i: I) -> usize {
    let mut n = 0usize;
    each!(i, x => { n += x; });
    n
}
pub fn collect_vec<T, I: It<Item = T>>(mut i: I) -> Vec<T> {
    let mut v = Vec::new();
    each!(i, x => { v.push(x); });
    v
}
pub fn collect_result_vec<T, E, I: It<Item = Result<T, E>>>(mut i: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    each!(i, x => { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } });
    Ok(v)
}
pub fn collect_result_unit<E, I: It<Item = Result<(), E>>>(mut i: I) -> Result<(), E> {
    each!(i, x => { match x { Ok(_) => (), Err(e) => return Err(e) } });
    Ok(())
}
pub fn collect_option_vec<T, I: It<Item = Option<T>>>(mut i: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    each!(i, x => { match x { Some(y) => v.push(y), None => return None } });
    Some(v)
}
pub fn collect_str<I: It<Item = String>>(mut i: I) -> String {
    let mut v = String::new();
    each!(i, x => { v.push_str(&x); });
    v
}
pub fn collect_flat<T, J: IntoIterator<Item = T>, I: It<Item = J>>(f: Flat<I>) -> Vec<T> {
    let mut i = f.i;
    let mut v = Vec::new();
    each!(i, x => { v.extend(x); });
    v
}
pub fn extend_iter<T, I: It<Item = T>>(v: &mut Vec<T>, mut i: I) {
    each!(i, x => { v.push(x); });
}
pub fn collect_map<K: std::hash::Hash + Eq, T, I: It<Item = (K, T)>>(mut i: I) -> HashMap<K, T> {
    let mut v = HashMap::new();
    each!(i, (k, x) => { v.insert(k, x); });
    v
}

pub fn Iterator_partition<I: It, F: FnMut(&I::Item) -> bool>(mut i: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    each!(i, x => { if f(&x) { a.push(x); } else { b.push(x); } });
    (a, b)
}
pub fn Iterator_unzip<A, B, I: It<Item = (A, B)>>(mut i: I) -> (Vec<A>, Vec<B>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    each!(i, (x, y) => { a.push(x); b.push(y); });
    (a, b)
}

// ---------------------------------------------------------------- slices, strings
pub fn slice_first<T>(s: &[T]) -> Option<&T> { s.get(0) }
pub fn slice_contains_eq<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s.iter() { if *y == *x { return true } }
    false
}
pub fn slice_last<T>(s: &[T]) -> Option<&T> {
    if s.len() == 0 { None } else { Some(&s[s.len() - 1]) }
}
pub fn slice_split_first<T>(s: &[T]) -> Option<(&T, &[T])> {
    if s.len() == 0 { None } else { Some((&s[0], &s[1..])) }
}
pub fn slice_split_last<T>(s: &[T]) -> Option<(&T, &[T])> {
    if s.len() == 0 { None } else { Some((&s[s.len() - 1], &s[..s.len() - 1])) }
}
pub fn slice_split_at<T>(s: &[T], n: usize) -> (&[T], &[T]) { (&s[..n], &s[n..]) }
