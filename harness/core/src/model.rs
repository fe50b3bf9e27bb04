//! Executable reference models.
use crate::sc::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Row,
    Col,
    /// packed upper triangle, last row first, left to right
    Upper,
    /// user-defined: packed lower triangle, row by row
    Lower,
    /// user-defined: rows in turn from left to right and from right to left
    Snake,
}

impl Order {
    pub fn count(self, m: usize, n: usize) -> usize {
        match self {
            Order::Upper | Order::Lower => m * (m + 1) / 2,
            _ => m * n,
        }
    }
    /// The (row, col) pair of the `i`-th element in logical order.
    pub fn pair(self, i: usize, m: usize, n: usize) -> (usize, usize) {
        match self {
            Order::Row => (i / n, i % n),
            Order::Col => (i % m, i / m),
            Order::Snake => (i / n, if i / n % 2 == 0 { i % n } else { n - 1 - i % n }),
            Order::Lower => {
                let mut r = 0;
                while (r + 1) * (r + 2) / 2 <= i {
                    r += 1
                }
                (r, i - r * (r + 1) / 2)
            }
            Order::Upper => {
                // walk rows from the last one; row m-1-p holds p+1 elements
                let (mut lo, mut hi) = (0u128, m as u128);
                // largest p with p(p+1)/2 <= i
                while lo + 1 < hi {
                    let mid = (lo + hi) / 2;
                    if mid * (mid + 1) / 2 <= i as u128 {
                        lo = mid
                    } else {
                        hi = mid
                    }
                }
                let p = lo as usize;
                let off = i - ((lo * (lo + 1) / 2) as usize);
                (m - 1 - p, m - 1 - p + off)
            }
        }
    }
    pub fn index(self, r: usize, c: usize, m: usize, n: usize) -> usize {
        match self {
            Order::Row => r * n + c,
            Order::Col => c * m + r,
            Order::Lower => r * (r + 1) / 2 + c,
            Order::Snake => r * n + if r % 2 == 0 { c } else { n - 1 - c },
            Order::Upper => {
                let p = (m - 1 - r) as u128;
                (p * (p + 1) / 2) as usize + (c - r)
            }
        }
    }
    /// Is (r, c) an element of an m x n matrix with this order?
    pub fn valid(self, r: usize, c: usize, m: usize, n: usize) -> bool {
        r < m && c < n && (self != Order::Upper || c >= r) && (self != Order::Lower || c <= r)
    }
}

/// The reference matrix: a map from (row, col) to value.
#[derive(Clone)]
pub struct Grid<T> {
    pub m: usize,
    pub n: usize,
    pub order: Order,
    pub v: Vec<T>,
}

impl<T: Sc> Grid<T> {
    pub fn zeros(m: usize, n: usize, order: Order) -> Self {
        Grid {
            m,
            n,
            order,
            v: vec![T::mk(0.0, 0.0); m * n],
        }
    }
    pub fn from_fn(m: usize, n: usize, order: Order, mut f: impl FnMut(usize, usize) -> T) -> Self {
        let mut g = Self::zeros(m, n, order);
        for r in 0..m {
            for c in 0..n {
                if order.valid(r, c, m, n) {
                    g.v[r * n + c] = f(r, c);
                }
            }
        }
        g
    }
    pub fn count(&self) -> usize {
        self.order.count(self.m, self.n)
    }
    pub fn at(&self, r: usize, c: usize) -> T {
        self.v[r * self.n + c]
    }
    pub fn at_mut(&mut self, r: usize, c: usize) -> &mut T {
        &mut self.v[r * self.n + c]
    }
    pub fn pair(&self, i: usize) -> (usize, usize) {
        self.order.pair(i, self.m, self.n)
    }
    pub fn at1(&self, i: usize) -> T {
        let (r, c) = self.pair(i);
        self.at(r, c)
    }
    pub fn at1_mut(&mut self, i: usize) -> &mut T {
        let (r, c) = self.pair(i);
        self.at_mut(r, c)
    }
    pub fn map(&self, mut f: impl FnMut(T) -> T) -> Self {
        let mut g = self.clone();
        for x in g.v.iter_mut() {
            *x = f(*x)
        }
        g
    }
    pub fn zip(&self, o: &Self, f: impl Fn(T, T) -> T) -> Self {
        let mut g = self.clone();
        for (x, y) in g.v.iter_mut().zip(o.v.iter()) {
            *x = f(*x, *y)
        }
        g
    }
    pub fn sub(&self, r0: usize, c0: usize, m: usize, n: usize) -> Self {
        Grid::from_fn(m, n, self.order, |r, c| self.at(r0 + r, c0 + c))
    }
    pub fn put(&mut self, r0: usize, c0: usize, g: &Self) {
        for r in 0..g.m {
            for c in 0..g.n {
                *self.at_mut(r0 + r, c0 + c) = g.at(r, c)
            }
        }
    }
}
