//! Models of functions of std which consume iterators: the dump uses them instead of the specialised originals.

/// `Vec::from_iter`
pub fn collect_vec<T, I: Iterator<Item = T>>(iter: I) -> Vec<T> {
    let mut iter = iter;
    let (lower, _) = iter.size_hint();
    let mut v = Vec::with_capacity(lower);
    while let Some(x) = iter.next() {
        v.push(x);
    }
    v
}

/// `Vec::extend`
pub fn extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, iter: I) {
    let mut iter = iter;
    let (lower, _) = iter.size_hint();
    v.reserve(lower);
    while let Some(x) = iter.next() {
        v.push(x);
    }
}
