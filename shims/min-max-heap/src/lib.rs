//! Stand-in for `min-max-heap`: a double-ended priority queue, kept as a sorted vector.
//! Which of several equal elements comes out first is unspecified there; knob 0 of `vsched`
//! decides here whether an element goes before or after its equals.
use std::fmt;
use std::ops::{Deref, DerefMut};

#[derive(Clone)]
pub struct MinMaxHeap<T>(Vec<T>);

impl<T: fmt::Debug> fmt::Debug for MinMaxHeap<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl<T: Ord> Default for MinMaxHeap<T> {
    fn default() -> Self {
        MinMaxHeap::new()
    }
}

impl<T> MinMaxHeap<T> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.0.iter()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn into_vec(self) -> Vec<T> {
        self.0
    }
    pub fn drain(&mut self) -> std::vec::Drain<'_, T> {
        self.0.drain(..)
    }
    pub fn capacity(&self) -> usize {
        self.0.capacity()
    }
    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n)
    }
    pub fn shrink_to_fit(&mut self) {
        self.0.shrink_to_fit()
    }
}

impl<T: Ord> MinMaxHeap<T> {
    pub fn new() -> Self {
        MinMaxHeap(Vec::new())
    }
    pub fn with_capacity(n: usize) -> Self {
        MinMaxHeap(Vec::with_capacity(n))
    }
    fn place(&self, e: &T, v: &[T]) -> usize {
        if vsched::knob(0) == 1 {
            v.partition_point(|x| x <= e)
        } else {
            v.partition_point(|x| x < e)
        }
    }
    pub fn push(&mut self, e: T) {
        let i = self.place(&e, &self.0);
        self.0.insert(i, e);
    }
    pub fn peek_min(&self) -> Option<&T> {
        self.0.first()
    }
    pub fn peek_max(&self) -> Option<&T> {
        self.0.last()
    }
    pub fn pop_min(&mut self) -> Option<T> {
        if self.0.is_empty() {
            None
        } else {
            Some(self.0.remove(0))
        }
    }
    pub fn pop_max(&mut self) -> Option<T> {
        self.0.pop()
    }
    pub fn push_pop_min(&mut self, e: T) -> T {
        match self.peek_min() {
            Some(m) if *m < e => self.replace_min(e).unwrap(),
            _ => e,
        }
    }
    pub fn push_pop_max(&mut self, e: T) -> T {
        match self.peek_max() {
            Some(m) if *m > e => self.replace_max(e).unwrap(),
            _ => e,
        }
    }
    pub fn replace_min(&mut self, e: T) -> Option<T> {
        let old = self.pop_min();
        self.push(e);
        old
    }
    pub fn replace_max(&mut self, e: T) -> Option<T> {
        let old = self.pop_max();
        self.push(e);
        old
    }
    pub fn into_vec_asc(self) -> Vec<T> {
        self.0
    }
    pub fn into_vec_desc(mut self) -> Vec<T> {
        self.0.reverse();
        self.0
    }
    pub fn drain_asc(&mut self) -> std::vec::IntoIter<T> {
        std::mem::take(&mut self.0).into_iter()
    }
    pub fn drain_desc(&mut self) -> std::vec::IntoIter<T> {
        let mut v = std::mem::take(&mut self.0);
        v.reverse();
        v.into_iter()
    }
    pub fn append(&mut self, other: &mut Self) {
        for e in other.0.drain(..) {
            self.push(e);
        }
    }
    pub fn peek_min_mut(&mut self) -> Option<PeekMinMut<'_, T>> {
        if self.0.is_empty() {
            None
        } else {
            Some(PeekMinMut { heap: self, removed: false })
        }
    }
    pub fn peek_max_mut(&mut self) -> Option<PeekMaxMut<'_, T>> {
        if self.0.is_empty() {
            None
        } else {
            Some(PeekMaxMut { heap: self, removed: false })
        }
    }
}

pub struct PeekMaxMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    removed: bool,
}
impl<'a, T: Ord> PeekMaxMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.removed = true;
        self.heap.0.pop().unwrap()
    }
}
impl<'a, T: Ord> Deref for PeekMaxMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.heap.0.last().unwrap()
    }
}
impl<'a, T: Ord> DerefMut for PeekMaxMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.heap.0.last_mut().unwrap()
    }
}
impl<'a, T: Ord> Drop for PeekMaxMut<'a, T> {
    fn drop(&mut self) {
        if self.removed {
            return;
        }
        let n = self.heap.0.len();
        if n >= 2 {
            let (rest, last) = self.heap.0.split_at(n - 1);
            let i = self.heap.place(&last[0], rest);
            if i < n - 1 {
                self.heap.0[i..].rotate_right(1);
            }
        }
    }
}

pub struct PeekMinMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    removed: bool,
}
impl<'a, T: Ord> PeekMinMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.removed = true;
        self.heap.0.remove(0)
    }
}
impl<'a, T: Ord> Deref for PeekMinMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.heap.0[0]
    }
}
impl<'a, T: Ord> DerefMut for PeekMinMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.heap.0[0]
    }
}
impl<'a, T: Ord> Drop for PeekMinMut<'a, T> {
    fn drop(&mut self) {
        if self.removed {
            return;
        }
        let e = self.heap.0.remove(0);
        self.heap.push(e);
    }
}

pub struct IntoIter<T>(std::vec::IntoIter<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        self.0.next_back()
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> IntoIterator for MinMaxHeap<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.0.into_iter())
    }
}
impl<'a, T> IntoIterator for &'a MinMaxHeap<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T: Ord> std::iter::FromIterator<T> for MinMaxHeap<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut h = MinMaxHeap::new();
        for e in iter {
            h.push(e);
        }
        h
    }
}
impl<T: Ord> Extend<T> for MinMaxHeap<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for e in iter {
            self.push(e);
        }
    }
}
impl<T: Ord> From<Vec<T>> for MinMaxHeap<T> {
    fn from(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}
