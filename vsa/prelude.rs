//! Iterator consumers and adaptors as plain loops: what the analyser inlines for
//! `iter.for_each(f)`, `iter.collect::<Vec<_>>()`, … (standard-library semantics).
#![crate_type = "lib"]

pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x)
    }
}
pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        f(x)?
    }
    Ok(())
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)
    }
    acc
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true
        }
    }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false
        }
    }
    true
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x)
        }
    }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y)
        }
    }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i)
        }
        i += 1;
    }
    None
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1
    }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x)
    }
    l
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 {
        it.next()?;
        k -= 1;
    }
    it.next()
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x)
    }
    v
}
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}
pub fn collect_result_unit<E, I: Iterator<Item = Result<(), E>>>(mut it: I) -> Result<(), E> {
    while let Some(x) = it.next() {
        x?
    }
    Ok(())
}
pub fn extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x)
    }
}
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x)
        }
    }
    None
}
pub fn filter_map_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: &mut F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y)
        }
    }
    None
}
pub fn collect_string<I: Iterator<Item = char>>(mut it: I) -> String {
    let mut s = String::new();
    while let Some(c) = it.next() {
        s.push(c)
    }
    s
}

pub fn for_each_chain<A: Iterator, B: Iterator<Item = A::Item>, F: FnMut(A::Item)>(mut a: A, mut b: B, mut f: F) {
    while let Some(x) = a.next() {
        f(x)
    }
    while let Some(x) = b.next() {
        f(x)
    }
}

// A consumer that visits everything: filters become conditions in the body of the one loop.
pub fn for_each_map<I: Iterator, B, G: FnMut(I::Item) -> B, F: FnMut(B)>(it: I, mut g: G, mut f: F) {
    it.for_each(|x| f(g(x)))
}
pub fn for_each_filter<I: Iterator, P: FnMut(&I::Item) -> bool, F: FnMut(I::Item)>(it: I, mut p: P, mut f: F) {
    it.for_each(|x| {
        if p(&x) {
            f(x)
        }
    })
}
pub fn for_each_filter_map<I: Iterator, B, G: FnMut(I::Item) -> Option<B>, F: FnMut(B)>(it: I, mut g: G, mut f: F) {
    it.for_each(|x| {
        if let Some(y) = g(x) {
            f(y)
        }
    })
}
pub fn extend_vec_each<T, I: Iterator<Item = T>>(v: &mut Vec<T>, it: I) {
    it.for_each(|x| v.push(x))
}
pub fn collect_vec_each<I: Iterator>(it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    it.for_each(|x| v.push(x));
    v
}
pub fn mapfold_seq<I: Iterator, T, O, F: Fn(&mut T, I::Item) -> O>(mut it: I, target: &mut T, f: F) -> Vec<O> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(f(target, x)) }
    v
}
pub fn mapfold_split<I: Iterator, T: Default, O, F: Fn(&mut T, I::Item) -> O, R: Fn(&mut T, T)>(mut it: I, target: &mut T, f: F, reduce: R) -> Vec<O> {
    let mut v = Vec::new();
    if let Some(x) = it.next() { v.push(f(target, x)) }
    while let Some(x) = it.next() {
        let mut t = T::default();
        v.push(f(&mut t, x));
        reduce(target, t)
    }
    v
}
