//! All the ways of borrowing a container as a slice.

use std::borrow::{Borrow, BorrowMut};
use std::ops::DerefMut;

/// The slice a container can be borrowed as; if the ways of borrowing it
/// disagree, the one that disagrees with the others.
pub fn view<E, C: Borrow<[E]> + AsRef<[E]> + DerefMut<Target = [E]>>(c: &C) -> &[E] {
    let s: &[E] = c;
    let same = |v: &[E]| v.len() == s.len() && (v.is_empty() || v.as_ptr() == s.as_ptr());
    let v: &[E] = c.borrow();
    if !same(v) {
        return v;
    }
    let v: &[E] = c.as_ref();
    if !same(v) {
        return v;
    }
    s
}
/// The same for exclusive borrows.
pub fn view_mut<E, C: BorrowMut<[E]> + AsMut<[E]> + DerefMut<Target = [E]>>(c: &mut C) -> &mut [E] {
    let at = |v: &mut [E]| (if v.is_empty() { 0 } else { v.as_ptr() as usize }, v.len());
    let s = at(c);
    if at(c.borrow_mut()) != s {
        return c.borrow_mut();
    }
    if at(c.as_mut()) != s {
        return c.as_mut();
    }
    c
}
