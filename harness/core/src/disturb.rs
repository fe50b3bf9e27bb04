//! What may have happened on the thread before: operations on other matrices,
//! carried out, refused or broken off. None of it may show in what follows.
use crate::rng::Rng;
use crate::runner::{clear_panic_note, rejects};
use crate::sc::Sc;
use householder::matrix_multiply::Dot;
use householder::types::{c32, c64};
use householder::*;

/// A generator that panics after some words.
pub struct Ends(pub usize);
impl rand::RngCore for Ends {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.0 == 0 {
            panic!("generator is exhausted")
        }
        self.0 -= 1;
        0x9E37_79B9_7F4A_7C15u64.wrapping_mul((self.0 as u64).wrapping_add(3))
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

fn row<T: Sc>(m: usize, n: usize) -> MatrixD<T, RowMajor> {
    let mut x = MatrixD::<T, RowMajor>::zeros_from_dim(m, n);
    let mut k = 1.0;
    x.for_each(|e| {
        k += 0.5;
        *e = T::mk(k, -k)
    });
    x
}

pub const DISTURBANCES: usize = 16;

/// One operation on matrices of its own.
fn one<T: Sc>(what: usize, r: &mut Rng) {
    let (m, n) = (r.range(1, 4), r.range(1, 4));
    let s = T::mk(2.0, 0.5);
    let zero = T::mk(0.0, 0.0);
    rejects(|| match what {
        0 => {
            // a refused product
            let (a, b, mut c) = (row::<T>(m, n), row::<T>(n + 1, m), row::<T>(m, m));
            T::mm(s, &a, &b, s, &mut c);
        }
        1 => {
            let (a, b, mut c) = (row::<T>(m, n), row::<T>(n, m), row::<T>(m, m + 1));
            T::mm(s, &a, &b, s, &mut c);
        }
        2 => {
            let (a, b) = (row::<T>(m, n), ColumnVectorD::<T>::zeros_from_length(n + 1));
            let mut c = ColumnVectorD::<T>::zeros_from_length(m);
            T::mm_col(s, &a, &b, s, &mut c);
        }
        3 => {
            let (a, b) = (RowVectorD::<T>::zeros_from_length(m), row::<T>(m + 1, n));
            let mut c = RowVectorD::<T>::zeros_from_length(n);
            T::mm_row(s, &a, &b, s, &mut c);
        }
        4 => drop(row::<f64>(m, n).dot(&row::<f64>(n + 1, m))),
        5 => drop((row::<T>(m, n) + T::sl(s, row::<T>(m + 1, n))).eval()),
        6 => drop(RandomAccess::get(&row::<T>(m, n), m, 0)),
        7 => *RandomAccessMut::get1d_mut(&mut row::<T>(m, n), m * n) = s,
        8 => drop(row::<T>(m, n).block((0, 1), (m, n))),
        9 => {
            let mut x = row::<T>(m, n);
            drop(x.split_in_four_mut((m + 1, 0)));
        }
        10 => {
            let buf = [zero; 3];
            drop(SliceMatrix::<T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(&buf), RowMajor::new((m + 3, n))));
        }
        11 => {
            let mut left = r.below(m * n);
            row::<T>(m, n).for_each(|e| {
                *e = s;
                if left == 0 {
                    panic!("broken off")
                }
                left -= 1;
            });
        }
        12 => T::fill(&mut row::<T>(m, n), &mut Ends(r.below(2 * m * n))),
        13 => {
            // views that are never dropped
            let mut x = row::<T>(m + 1, n + 1);
            std::mem::forget(x.block((0, 0), (m, n)));
            std::mem::forget(x.block_mut((1, 0), (m, n)));
            std::mem::forget(x.split_in_four_mut((m, n)));
            std::mem::forget(Matrix::from_ref(&x));
            std::mem::forget(&x + &x);
        }
        14 => {
            // products that are carried out
            let (a, b, mut c) = (row::<T>(m, n), row::<T>(n, m), row::<T>(m, m));
            T::mm(s, &a, &b, zero, &mut c);
            T::mm(zero, &a, &b, s, &mut c);
            drop(row::<f64>(m, n).dot(&row::<f64>(n, m)));
        }
        _ => {
            // a traversal within a traversal
            let mut x = row::<T>(m, n);
            let mut y = row::<T>(n, m);
            x.for_each(|e| {
                y.for_each(|f| *f = *e);
            });
            drop((x + T::sl(s, row::<T>(m, n))).eval());
        }
    });
}

/// Up to three operations, chosen by `r`.
pub fn disturb(r: &mut Rng) {
    let of = if cfg!(miri) { 1 } else { r.range(1, 3) };
    for _ in 0..of {
        let k = r.below(DISTURBANCES);
        match r.below(4) {
            0 => one::<f32>(k, r),
            1 => one::<f64>(k, r),
            2 => one::<c32>(k, r),
            _ => one::<c64>(k, r),
        }
    }
    clear_panic_note();
}
