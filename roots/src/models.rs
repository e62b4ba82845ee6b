//! Plain-loop meanings of iterator consumers. The driver substitutes them for the standard
//! library's own bodies, which reach the same results through specialisation and `try_fold`.
use std::ops::ControlFlow;
pub fn m_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() { if p(&x) { return Some(x); } }
    None
}
pub fn m_all<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> bool {
    while let Some(x) = it.next() { if !p(x) { return false; } }
    true
}
pub fn m_any<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> bool {
    while let Some(x) = it.next() { if p(x) { return true; } }
    false
}
pub fn m_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; }
    None
}
pub fn m_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(b) = f(x) { return Some(b); } }
    None
}
pub fn m_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn m_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x); }
    l
}
pub fn m_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 { if it.next().is_none() { return None; } n -= 1; }
    it.next()
}
pub fn m_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn m_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn m_from_iter_vec<I: IntoIterator>(it: I) -> Vec<I::Item> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn m_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut it = s.iter();
    while let Some(y) = it.next() { if y == x { return true; } }
    false
}
pub fn m_extend_from_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
    let mut it = s.iter();
    while let Some(y) = it.next() { v.push(y.clone()); }
}
pub fn m_extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn m_from_iter_string<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut it = it.into_iter();
    let mut s = String::new();
    while let Some(c) = it.next() { s.push(c); }
    s
}
pub fn m_try_fold_result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Ok(b) => acc = b, Err(e) => return Err(e) } }
    Ok(acc)
}
pub fn m_try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Some(b) => acc = b, None => return None } }
    Some(acc)
}
pub fn m_try_fold_cf<I: Iterator, B, C, F: FnMut(B, I::Item) -> ControlFlow<C, B>>(it: &mut I, init: B, mut f: F) -> ControlFlow<C, B> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { ControlFlow::Continue(b) => acc = b, ControlFlow::Break(c) => return ControlFlow::Break(c) } }
    ControlFlow::Continue(acc)
}
/// Reading lines as the read_token crate does: blank text is skipped, and two items need a line
/// break between them. What counts as blank is left open.
pub fn m_lines<F: FnMut(&read_token::ReadToken) -> Option<range::Range>>(
    this: &read_token::ReadToken, mut f: F) -> Result<range::Range, range::Range>
{
    let mut rt = *this;
    let mut new_lines = true;
    loop {
        let (end, n) = blank(&rt);
        if end {
            rt.offset += n;
            break;
        }
        if n > 0 {
            rt = rt.consume(n);
            new_lines = true;
        }
        if !new_lines { return Err(range::Range::empty(rt.offset)); }
        match f(&rt) {
            None => break,
            Some(range) => {
                new_lines = ended(&rt, range);
                rt = rt.consume(range.length);
            }
        }
    }
    Ok(rt.subtract(this))
}
/// How many bytes of blank text up to and including a line break start the text, and whether
/// nothing else is left.
pub fn blank(rt: &read_token::ReadToken) -> (bool, usize) { (rt.src.is_empty(), 0) }
/// Whether the item that was read ended with a line break.
pub fn ended(rt: &read_token::ReadToken, range: range::Range) -> bool { rt.src.len() < range.length }
