//! Iterators fed to the containers: honest, lying about their length, and
//! panicking part-way (through the fuse).

use crate::elem::{Elem, M};
use crate::fault::{self, Hook};

#[derive(Clone, Debug)]
pub enum Claim {
    /// `len()` and `size_hint()` are exact.
    Honest,
    /// `size_hint()` promises nothing (only for plain iterators).
    Vague,
    /// `len()` answers these values in turn (the last one repeats), whatever is left.
    Lies(Vec<usize>),
}

#[derive(Clone, Debug)]
pub struct Feed {
    pub items: Vec<M>,
    pub claim: Claim,
}

pub struct FeedIter<E> {
    items: std::vec::IntoIter<E>,
    claim: Claim,
    calls: std::cell::Cell<usize>,
}
impl Feed {
    pub fn iter<E: Elem>(&self) -> FeedIter<E> {
        let v: Vec<E> = self.items.iter().map(|m| E::make(*m)).collect();
        FeedIter { items: v.into_iter(), claim: self.claim.clone(), calls: std::cell::Cell::new(0) }
    }
}
impl<E> FeedIter<E> {
    fn claimed(&self) -> usize {
        match &self.claim {
            Claim::Lies(v) if !v.is_empty() => {
                let i = self.calls.get();
                self.calls.set(i + 1);
                v[i.min(v.len() - 1)]
            }
            _ => self.items.len(),
        }
    }
}
impl<E> Iterator for FeedIter<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        fault::tick(Hook::Iter);
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match &self.claim {
            Claim::Vague => (0, None),
            _ => {
                let n = self.claimed();
                (n, Some(n))
            }
        }
    }
}
impl<E> DoubleEndedIterator for FeedIter<E> {
    fn next_back(&mut self) -> Option<E> {
        fault::tick(Hook::Iter);
        self.items.next_back()
    }
}
impl<E> ExactSizeIterator for FeedIter<E> {
    fn len(&self) -> usize {
        self.claimed()
    }
}
