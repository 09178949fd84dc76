//! Reference implementations of standard-library algorithms that the analysis steps through
//! instead of the real (unsafe, hand-optimised) ones.
use std::cmp::Ordering;

pub fn tys(_: &[u8]) {}
pub fn pair_of<K, V>() -> (K, V) {
    loop {}
}
pub fn opt_of<T>() -> Option<T> {
    loop {}
}

pub fn collect_vec<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub struct Shunt<'a, I, E> {
    it: I,
    err: &'a mut Option<E>,
}
impl<'a, T, E, I: Iterator<Item = Result<T, E>>> Iterator for Shunt<'a, I, E> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() {
            Some(Ok(x)) => Some(x),
            Some(Err(e)) => {
                *self.err = Some(e);
                None
            }
            None => None,
        }
    }
}
pub fn collect_result<T, E, C: std::iter::FromIterator<T>, I: IntoIterator<Item = Result<T, E>>>(it: I) -> Result<C, E> {
    let it = it.into_iter();
    let mut err = None;
    let c = {
        let s = Shunt { it, err: &mut err };
        s.collect::<C>()
    };
    match err {
        None => Ok(c),
        Some(e) => Err(e),
    }
}
pub struct OShunt<'a, I> {
    it: I,
    stop: &'a mut bool,
}
impl<'a, T, I: Iterator<Item = Option<T>>> Iterator for OShunt<'a, I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() {
            Some(Some(x)) => Some(x),
            Some(None) => {
                *self.stop = true;
                None
            }
            None => None,
        }
    }
}
pub fn collect_option<T, C: std::iter::FromIterator<T>, I: IntoIterator<Item = Option<T>>>(it: I) -> Option<C> {
    let it = it.into_iter();
    let mut stop = false;
    let c = {
        let s = OShunt { it, stop: &mut stop };
        s.collect::<C>()
    };
    if stop {
        None
    } else {
        Some(c)
    }
}
/// Insertion sort, stable: the result of any stable sort by a consistent comparator.
pub fn sort_by<T, F: FnMut(&T, &T) -> Ordering>(v: &mut [T], mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j - 1], &v[j]) == Ordering::Greater {
            v.swap(j - 1, j);
            j -= 1;
        }
        i += 1;
    }
}
pub fn sort<T: Ord>(v: &mut [T]) {
    sort_by(v, |a, b| a.cmp(b))
}
pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
    sort_by(v, |a, b| f(a).cmp(&f(b)))
}
pub fn dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let dup = {
            let (l, r) = v.split_at_mut(i);
            f(&mut r[0], &mut l[i - 1])
        };
        if dup {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn dedup_by_key<T, K: PartialEq, F: FnMut(&mut T) -> K>(v: &mut Vec<T>, mut f: F) {
    dedup_by(v, |a, b| f(a) == f(b))
}
pub fn dedup<T: PartialEq>(v: &mut Vec<T>) {
    dedup_by(v, |a, b| *a == *b)
}
pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if !f(&v[i]) {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn slice_eq<A: PartialEq<B>, B>(a: &[A], b: &[B]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn slice_cmp<T: Ord>(a: &[T], b: &[T]) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.len() {
            return if i == b.len() { Ordering::Equal } else { Ordering::Less };
        }
        if i == b.len() {
            return Ordering::Greater;
        }
        match a[i].cmp(&b[i]) {
            Ordering::Equal => {}
            o => return o,
        }
        i += 1;
    }
}
pub fn slice_partial_cmp<T: PartialOrd>(a: &[T], b: &[T]) -> Option<Ordering> {
    let mut i = 0;
    loop {
        if i == a.len() {
            return if i == b.len() { Some(Ordering::Equal) } else { Some(Ordering::Less) };
        }
        if i == b.len() {
            return Some(Ordering::Greater);
        }
        match a[i].partial_cmp(&b[i]) {
            Some(Ordering::Equal) => {}
            o => return o,
        }
        i += 1;
    }
}
pub fn binary_search_by<T, F: FnMut(&T) -> Ordering>(v: &[T], mut f: F) -> Result<usize, usize> {
    let mut i = 0;
    while i < v.len() {
        match f(&v[i]) {
            Ordering::Equal => return Ok(i),
            Ordering::Greater => return Err(i),
            Ordering::Less => {}
        }
        i += 1;
    }
    Err(i)
}
pub struct MZip<A, B> {
    pub a: A,
    pub b: B,
}
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut MZip<A, B>) -> Option<(A::Item, B::Item)> {
    match z.a.next() {
        None => None,
        Some(x) => match z.b.next() {
            None => None,
            Some(y) => Some((x, y)),
        },
    }
}
/// Ordered insertion into a sorted association list (BTreeMap).
pub fn btree_insert<K: Ord, V>(m: &mut Vec<(K, V)>, k: K, v: V) -> Option<V> {
    let mut i = m.len();
    while i > 0 {
        match m[i - 1].0.cmp(&k) {
            Ordering::Less => break,
            Ordering::Equal => return Some(std::mem::replace(&mut m[i - 1].1, v)),
            Ordering::Greater => {}
        }
        i -= 1;
    }
    m.insert(i, (k, v));
    None
}
pub fn bset_insert<K: Ord>(m: &mut Vec<K>, k: K) -> bool {
    let mut i = m.len();
    while i > 0 {
        match m[i - 1].cmp(&k) {
            Ordering::Less => break,
            Ordering::Equal => return false,
            Ordering::Greater => {}
        }
        i -= 1;
    }
    m.insert(i, k);
    true
}
pub fn hash_insert<K: Eq, V>(m: &mut Vec<(K, V)>, k: K, v: V) -> Option<V> {
    let mut i = 0;
    while i < m.len() {
        if m[i].0 == k {
            return Some(std::mem::replace(&mut m[i].1, v));
        }
        i += 1;
    }
    m.push((k, v));
    None
}
pub fn hset_insert<K: Eq>(m: &mut Vec<K>, k: K) -> bool {
    let mut i = 0;
    while i < m.len() {
        if m[i] == k {
            return false;
        }
        i += 1;
    }
    m.push(k);
    true
}
pub fn btree_collect<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> Vec<(K, V)> {
    let mut it = it.into_iter();
    let mut m = Vec::new();
    while let Some((k, v)) = it.next() {
        btree_insert(&mut m, k, v);
    }
    m
}
pub fn bset_collect<K: Ord, I: IntoIterator<Item = K>>(it: I) -> Vec<K> {
    let mut it = it.into_iter();
    let mut m = Vec::new();
    while let Some(k) = it.next() {
        bset_insert(&mut m, k);
    }
    m
}
pub fn hash_collect<K: Eq, V, I: IntoIterator<Item = (K, V)>>(it: I) -> Vec<(K, V)> {
    let mut it = it.into_iter();
    let mut m = Vec::new();
    while let Some((k, v)) = it.next() {
        hash_insert(&mut m, k, v);
    }
    m
}
pub fn hset_collect<K: Eq, I: IntoIterator<Item = K>>(it: I) -> Vec<K> {
    let mut it = it.into_iter();
    let mut m = Vec::new();
    while let Some(k) = it.next() {
        hset_insert(&mut m, k);
    }
    m
}
pub fn btree_extend<K: Ord, V, I: IntoIterator<Item = (K, V)>>(m: &mut Vec<(K, V)>, it: I) {
    let mut it = it.into_iter();
    while let Some((k, v)) = it.next() {
        btree_insert(m, k, v);
    }
}
pub fn bset_extend<K: Ord, I: IntoIterator<Item = K>>(m: &mut Vec<K>, it: I) {
    let mut it = it.into_iter();
    while let Some(k) = it.next() {
        bset_insert(m, k);
    }
}
pub fn hash_extend<K: Eq, V, I: IntoIterator<Item = (K, V)>>(m: &mut Vec<(K, V)>, it: I) {
    let mut it = it.into_iter();
    while let Some((k, v)) = it.next() {
        hash_insert(m, k, v);
    }
}
pub fn hset_extend<K: Eq, I: IntoIterator<Item = K>>(m: &mut Vec<K>, it: I) {
    let mut it = it.into_iter();
    while let Some(k) = it.next() {
        hset_insert(m, k);
    }
}
