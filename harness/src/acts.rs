//! Containers under one set of simple operations, mirrored in a model.

use crate::elem::{Elem, M};
use bitmaps::{Bits, BitsImpl};
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use sized_chunks::{Chunk, InlineArray, SparseChunk};

/// What the histories need of a container. Contents are (index, item).
pub trait Acts<E: Elem>: Clone + PartialEq + 'static {
    const NAME: &'static str;
    const CAP: usize;
    fn mk() -> Self;
    fn list(&self) -> Vec<(usize, M)>;
    /// One of a few operations; mirrors it in the model. In-contract only.
    fn act(&mut self, m: &mut Vec<(usize, M)>, how: usize, at: usize, v: M);
    fn live(&self) -> bool;
}

fn renumber(m: &mut [(usize, M)]) {
    for (i, x) in m.iter_mut().enumerate() {
        x.0 = i;
    }
}
macro_rules! held_seq {
    ($C:ident, $name:expr) => {
        impl<E: Elem, const N: usize> Acts<E> for $C<E, N> {
            const NAME: &'static str = $name;
            const CAP: usize = N;
            fn mk() -> Self {
                Self::new()
            }
            fn list(&self) -> Vec<(usize, M)> {
                self.iter().enumerate().map(|(i, x)| (i, x.m())).collect()
            }
            fn live(&self) -> bool {
                self.iter().all(|x| x.intact())
            }
            fn act(&mut self, m: &mut Vec<(usize, M)>, how: usize, at: usize, v: M) {
                let len = m.len();
                match how {
                    0 | 1 if len < N => {
                        m.push((0, v));
                        self.push_back(E::make(v));
                    }
                    2 if len < N => {
                        m.insert(0, (0, v));
                        self.push_front(E::make(v));
                    }
                    3 if len > 0 => {
                        m.remove(0);
                        drop(self.pop_front());
                    }
                    4 if len > 0 => {
                        m.pop();
                        drop(self.pop_back());
                    }
                    5 if len < N => {
                        m.insert(at % (len + 1), (0, v));
                        self.insert(at % (len + 1), E::make(v));
                    }
                    6 if len > 0 => {
                        m.remove(at % len);
                        drop(self.remove(at % len));
                    }
                    7 if len > 0 => {
                        m[at % len].1 = v;
                        self[at % len] = E::make(v);
                    }
                    8 => {
                        m.clear();
                        self.clear();
                    }
                    _ => {}
                }
                renumber(m);
            }
        }
    };
}
held_seq!(Chunk, "Chunk");
#[cfg(feature = "rb")]
held_seq!(RingBuffer, "RingBuffer");
        impl<E: Elem, const N: usize> Acts<E> for SparseChunk<E, N>
        where
            BitsImpl<N>: Bits,
            <BitsImpl<N> as Bits>::Store: 'static,
        {
            const NAME: &'static str = "SparseChunk";
            const CAP: usize = N;
            fn mk() -> Self {
                Self::new()
            }
            fn list(&self) -> Vec<(usize, M)> {
                self.entries().map(|(i, x)| (i, x.m())).collect()
            }
            fn live(&self) -> bool {
                self.iter().all(|x| x.intact())
            }
            fn act(&mut self, m: &mut Vec<(usize, M)>, how: usize, at: usize, v: M) {
                match how {
                    0 | 1 | 2 | 5 | 7 => {
                        let i = at % N;
                        m.retain(|x| x.0 != i);
                        m.push((i, v));
                        m.sort_by_key(|x| x.0);
                        drop(self.insert(i, E::make(v)));
                    }
                    3 | 6 => {
                        let i = at % N;
                        m.retain(|x| x.0 != i);
                        drop(self.remove(i));
                    }
                    4 => {
                        if !m.is_empty() {
                            m.remove(0);
                        }
                        drop(self.pop());
                    }
                    _ => {
                        m.clear();
                        while self.pop().is_some() {}
                    }
                }
            }
        }


impl<E: Elem, T: 'static> Acts<E> for InlineArray<E, T> {
    const NAME: &'static str = "InlineArray";
    const CAP: usize = if Self::CAPACITY < 16 { Self::CAPACITY } else { 16 };
    fn mk() -> Self {
        Self::new()
    }
    fn list(&self) -> Vec<(usize, M)> {
        self.iter().enumerate().map(|(i, x)| (i, x.m())).collect()
    }
    fn live(&self) -> bool {
        self.iter().all(|x| x.intact())
    }
    fn act(&mut self, m: &mut Vec<(usize, M)>, how: usize, at: usize, v: M) {
        let len = m.len();
        match how {
            0 | 1 if len < Self::CAP => {
                m.push((0, v));
                self.push(E::make(v));
            }
            2 if len < Self::CAP => {
                m.insert(0, (0, v));
                self.insert(0, E::make(v));
            }
            3 if len > 0 => {
                m.remove(0);
                drop(self.remove(0));
            }
            4 if len > 0 => {
                m.pop();
                drop(self.pop());
            }
            5 if len < Self::CAP => {
                m.insert(at % (len + 1), (0, v));
                self.insert(at % (len + 1), E::make(v));
            }
            6 if len > 0 => {
                m.remove(at % len);
                drop(self.remove(at % len));
            }
            7 if len > 0 => {
                m[at % len].1 = v;
                self[at % len] = E::make(v);
            }
            8 => {
                m.clear();
                self.clear();
            }
            _ => {}
        }
        renumber(m);
    }
}
