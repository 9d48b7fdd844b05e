//! Reference bodies for the standard-library combinators the engine inlines.
//! Never executed: only their MIR is read.
#![allow(dead_code, clippy::all)]
use std::collections::HashSet;
use std::ops::ControlFlow;

// ---- Option ----
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn partition_position<T: Ord>(v: &[T], k: &T) -> usize { match v.binary_search(k) { Ok(i) => i, Err(i) => i } }
pub fn option_or<T>(o: Option<T>, d: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => d } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn option_zip<T, U>(a: Option<T>, b: Option<U>) -> Option<(T, U)> { match a { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn option_branch<T>(o: Option<T>) -> ControlFlow<Option<std::convert::Infallible>, T> { match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn option_and<T, U>(o: Option<T>, d: Option<U>) -> Option<U> { match o { Some(_) => d, None => None } }
pub fn option_xor<T>(o: Option<T>, d: Option<T>) -> Option<T> { match o { Some(x) => match d { Some(_) => None, None => Some(x) }, None => d } }
pub fn option_insert<T>(o: &mut Option<T>, x: T) -> &mut T { *o = Some(x); match o { Some(y) => y, None => loop {} } }
pub fn option_get_or_insert<T>(o: &mut Option<T>, x: T) -> &mut T { if o.is_none() { *o = Some(x); } match o { Some(y) => y, None => loop {} } }
pub fn option_replace<T>(o: &mut Option<T>, x: T) -> Option<T> { std::mem::replace(o, Some(x)) }
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(r) => match r { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }, None => Ok(None) } }
pub fn result_and<T, E, U>(r: Result<T, E>, d: Result<U, E>) -> Result<U, E> { match r { Ok(_) => d, Err(e) => Err(e) } }
pub fn result_or<T, E, G>(r: Result<T, E>, d: Result<T, G>) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(_) => d } }
pub fn result_is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(_) => false, Err(e) => f(e) } }
pub fn result_inspect<T, E, F: FnOnce(&T)>(r: Result<T, E>, f: F) -> Result<T, E> { match r { Ok(x) => { f(&x); Ok(x) } Err(e) => Err(e) } }
pub fn result_inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> { match r { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
pub fn result_flatten<T, E>(r: Result<Result<T, E>, E>) -> Result<T, E> { match r { Ok(x) => x, Err(e) => Err(e) } }
pub fn result_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> { match r { Ok(o) => match o { Some(x) => Some(Ok(x)), None => None }, Err(e) => Some(Err(e)) } }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }

// ---- Result ----
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn result_map_err<T, E, G, F: FnOnce(E) -> G>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn result_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn result_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn result_is_ok<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(x) => f(x), Err(_) => false } }
pub fn result_branch<T, E>(r: Result<T, E>) -> ControlFlow<Result<std::convert::Infallible, E>, T> { match r { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }

// ---- Iterator consumers ----
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn iter_find_map<I: Iterator, U, F: FnMut(I::Item) -> Option<U>>(it: &mut I, mut f: F) -> Option<U> { while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x); } acc }
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: I, mut f: F) -> Option<usize> { let mut e = it.enumerate(); while let Some((i, x)) = e.next() { if f(x) { return Some(i); } } None }
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut i: I, mut f: F) -> Option<I::Item> { match i.next() { None => None, Some(first) => { let mut acc = first; for x in i { acc = f(acc, x); } Some(acc) } } }
pub fn iter_try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> { while let Some(x) = it.next() { match f(x) { Ok(()) => {} Err(e) => return Err(e) } } Ok(()) }
pub fn iter_try_fold_result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> { let mut acc = init; while let Some(x) = it.next() { match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) } } Ok(acc) }
pub fn iter_count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn iter_sum<I: Iterator<Item = u64>>(mut it: I) -> u64 { let mut n = 0; while let Some(x) = it.next() { n += x; } n }
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x); } v }
pub fn collect_vec_from<T, I: Iterator<Item = T>>(mut v: Vec<T>, mut it: I) -> Vec<T> { while let Some(x) = it.next() { v.push(x); } v }
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> { let mut v = Vec::new(); while let Some(x) = it.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } } Ok(v) }
pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> { let mut v = Vec::new(); while let Some(x) = it.next() { match x { Some(y) => v.push(y), None => return None } } Some(v) }
pub fn collect_result_string<E, I: Iterator<Item = Result<String, E>>>(mut it: I) -> Result<String, E> { let mut v = String::new(); while let Some(x) = it.next() { match x { Ok(y) => v.push_str(&y), Err(e) => return Err(e) } } Ok(v) }
pub fn collect_set<T: std::hash::Hash + Eq, I: Iterator<Item = T>>(mut it: I) -> HashSet<T> { let mut v = HashSet::new(); while let Some(x) = it.next() { v.insert(x); } v }
pub fn collect_string<I: Iterator<Item = String>>(mut it: I) -> String { let mut v = String::new(); while let Some(x) = it.next() { v.push_str(&x); } v }
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { for x in it { v.push(x); } }
pub fn set_extend<T: std::hash::Hash + Eq, I: IntoIterator<Item = T>>(v: &mut HashSet<T>, it: I) { for x in it { v.insert(x); } }
pub fn string_extend<I: IntoIterator<Item = String>>(v: &mut String, it: I) { for x in it { v.push_str(&x); } }
pub fn entry_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if o.is_none() { *o = Some(f()); } match o { Some(x) => x, None => loop {} } }
