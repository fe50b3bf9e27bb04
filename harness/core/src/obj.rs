//! Object-safe views of the library's types, so that one workload drives every
//! combination of scalar, layout, container and size type.
use crate::runner::R;
use crate::sc::*;
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::*;
use rand::RngCore;

/// The index arithmetic of a layout.
pub trait LayoutDyn {
    fn dim(&self) -> (usize, usize);
    fn nelem(&self) -> usize;
    fn c12(&self, i: usize) -> (usize, usize);
    fn c21(&self, r: usize, c: usize) -> usize;
    fn r1(&self, i: usize) -> usize;
    fn r2(&self, r: usize, c: usize) -> usize;
    fn stride(&self) -> (usize, usize);
}
impl<L: LayoutType> LayoutDyn for L {
    fn dim(&self) -> (usize, usize) {
        LayoutType::dim(self)
    }
    fn nelem(&self) -> usize {
        self.number_of_elements()
    }
    fn c12(&self, i: usize) -> (usize, usize) {
        self.convert_1d_2d(i)
    }
    fn c21(&self, r: usize, c: usize) -> usize {
        self.convert_2d_1d(r, c)
    }
    fn r1(&self, i: usize) -> usize {
        self.convert_1d_raw(i)
    }
    fn r2(&self, r: usize, c: usize) -> usize {
        self.convert_2d_raw(r, c)
    }
    fn stride(&self) -> (usize, usize) {
        LayoutType::stride(self)
    }
}

/// Read access to any matrix: storage, view, reference or expression.
pub trait MatRo<T: Sc> {
    fn dim(&self) -> (usize, usize);
    fn get(&self, r: usize, c: usize) -> T;
    fn get1d(&self, i: usize) -> T;
    /// # Safety
    /// as for the library's unchecked access
    unsafe fn getu(&self, r: usize, c: usize) -> T;
    /// # Safety
    /// as for the library's unchecked access
    unsafe fn get1du(&self, i: usize) -> T;
    fn lay(&self) -> &dyn LayoutDyn;
    fn index_lay(&self) -> Box<dyn LayoutDyn>;
    /// compile time sizes
    fn sizes(&self) -> (usize, usize);
}

impl<T: Sc, I, L, RS, CS> MatRo<T> for Matrix<T, I, L, RS, CS>
where
    I: MatrixTrait<T, L, RS, CS>,
    L: LayoutType,
    L::IndexLayout: 'static,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    fn dim(&self) -> (usize, usize) {
        Matrix::dim(self)
    }
    fn get(&self, r: usize, c: usize) -> T {
        RandomAccess::get(self, r, c)
    }
    fn get1d(&self, i: usize) -> T {
        RandomAccess::get1d(self, i)
    }
    unsafe fn getu(&self, r: usize, c: usize) -> T {
        self.get_unchecked(r, c)
    }
    unsafe fn get1du(&self, i: usize) -> T {
        self.get1d_unchecked(i)
    }
    fn lay(&self) -> &dyn LayoutDyn {
        self.layout()
    }
    fn index_lay(&self) -> Box<dyn LayoutDyn> {
        Box::new(self.layout().index_layout())
    }
    fn sizes(&self) -> (usize, usize) {
        (RS::N, CS::N)
    }
}

/// Write access to any mutable matrix, mutable references included.
pub trait MatAcc<T: Sc>: MatRo<T> {
    fn get_mut(&mut self, r: usize, c: usize) -> &mut T;
    fn get1d_mut(&mut self, i: usize) -> &mut T;
    /// # Safety
    /// as for the library's unchecked access
    unsafe fn getu_mut(&mut self, r: usize, c: usize) -> &mut T;
    /// # Safety
    /// as for the library's unchecked access
    unsafe fn get1du_mut(&mut self, i: usize) -> &mut T;
}

impl<T: Sc, I, L, RS, CS> MatAcc<T> for Matrix<T, I, L, RS, CS>
where
    I: MatrixTraitMut<T, L, RS, CS>,
    L: LayoutType,
    L::IndexLayout: 'static,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    fn get_mut(&mut self, r: usize, c: usize) -> &mut T {
        RandomAccessMut::get_mut(self, r, c)
    }
    fn get1d_mut(&mut self, i: usize) -> &mut T {
        RandomAccessMut::get1d_mut(self, i)
    }
    unsafe fn getu_mut(&mut self, r: usize, c: usize) -> &mut T {
        self.get_unchecked_mut(r, c)
    }
    unsafe fn get1du_mut(&mut self, i: usize) -> &mut T {
        self.get1d_unchecked_mut(i)
    }
}

/// Visitors.
pub type VisRo<'f, T> = &'f mut dyn FnMut(&dyn MatRo<T>) -> R;
pub type VisAcc<'f, T> = &'f mut dyn FnMut(&mut dyn MatAcc<T>) -> R;

/// A read-only matrix backed by storage.
pub trait MatStore<T: Sc>: MatRo<T> {
    fn slice(&self, first: usize, last: usize) -> &[T];
    fn ptr(&self) -> *const T;
    /// visit the matrix wrapped in `depth` shared references (1..=3)
    fn with_ref(&self, depth: usize, f: VisRo<T>) -> R;
    /// visit the lazy expressions `s * &m`, `&m * s`, `&m + &m` and
    /// `s * &m + &m * s` (`kind` 0..=3)
    fn with_expr(&self, kind: usize, s: T, f: VisRo<T>) -> R;
}

impl<T: Sc, D, L, RS, CS> MatStore<T> for Base<T, L, D, RS, CS>
where
    D: DataContainer<Item = T>,
    L: LayoutType,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    fn slice(&self, first: usize, last: usize) -> &[T] {
        self.get_slice(first, last)
    }
    fn ptr(&self) -> *const T {
        self.get_pointer()
    }
    fn with_ref(&self, depth: usize, f: VisRo<T>) -> R {
        let r1 = Matrix::from_ref(self);
        if depth <= 1 {
            return f(&r1);
        }
        let r2 = Matrix::<T, _, L, RS, CS>::new(MatrixRef::new(&r1));
        if depth == 2 {
            return f(&r2);
        }
        let r3 = Matrix::from_ref(&r2);
        f(&r3)
    }
    fn with_expr(&self, kind: usize, s: T, f: VisRo<T>) -> R {
        match kind % 4 {
            0 => f(&T::slr(s, self)),
            1 => f(&T::srr(self, s)),
            2 => f(&(self + self)),
            _ => f(&(T::slr(s, self) + T::srr(self, s))),
        }
    }
}

/// A mutable matrix backed by storage.
pub trait MatMut<T: Sc>: MatAcc<T> + MatStore<T> {
    fn slice_mut(&mut self, first: usize, last: usize) -> &mut [T];
    fn ptr_mut(&mut self) -> *mut T;
    fn each(&mut self, f: &mut dyn FnMut(&mut T));
    fn fill(&mut self, rng: &mut dyn RngCore);
    /// visit the matrix wrapped in `depth` mutable references (1..=2)
    fn with_ref_mut(&mut self, depth: usize, f: VisAcc<T>) -> R;
    fn acc(&mut self) -> &mut dyn MatAcc<T>;
    fn ro(&self) -> &dyn MatRo<T>;
}

impl<T: Sc, D, L, RS, CS> MatMut<T> for Base<T, L, D, RS, CS>
where
    D: DataContainerMut<Item = T>,
    L: LayoutType,
    L::IndexLayout: LayoutType<IndexLayout = L::IndexLayout> + 'static,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    fn slice_mut(&mut self, first: usize, last: usize) -> &mut [T] {
        self.get_slice_mut(first, last)
    }
    fn ptr_mut(&mut self) -> *mut T {
        self.get_pointer_mut()
    }
    fn each(&mut self, f: &mut dyn FnMut(&mut T)) {
        self.for_each(|x| f(x))
    }
    fn fill(&mut self, rng: &mut dyn RngCore) {
        T::fill(self, rng)
    }
    fn with_ref_mut(&mut self, depth: usize, f: VisAcc<T>) -> R {
        let mut r1 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(self));
        if depth <= 1 {
            return f(&mut r1);
        }
        let mut r2 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut r1));
        f(&mut r2)
    }
    fn acc(&mut self) -> &mut dyn MatAcc<T> {
        self
    }
    fn ro(&self) -> &dyn MatRo<T> {
        self
    }
}

pub type VisBlk<'f, T> = &'f mut dyn FnMut(&dyn BlkRo<T>) -> R;
pub type VisBlkMut<'f, T> = &'f mut dyn FnMut(&mut dyn BlkMut<T>) -> R;
pub type VisSplit<'f, T> = &'f mut dyn FnMut([&mut dyn BlkMut<T>; 4]) -> R;

/// Matrices that offer blocks. The outer option is `None` if the request for
/// the block was refused by a panic.
pub trait BlkRo<T: Sc>: MatStore<T> {
    fn with_block(&self, tl: (usize, usize), dim: (usize, usize), f: VisBlk<T>) -> Option<R>;
    fn eval_box(&self) -> Box<dyn BlkMut<T>>;
}

pub trait BlkMut<T: Sc>: MatMut<T> + BlkRo<T> {
    fn with_block_mut(
        &mut self,
        tl: (usize, usize),
        dim: (usize, usize),
        f: VisBlkMut<T>,
    ) -> Option<R>;
    /// `self = alpha * a * b + beta * self`
    fn gemm(
        &mut self,
        alpha: T,
        a: &MatrixD<T, RowMajor>,
        b: &MatrixD<T, ColumnMajor>,
        beta: T,
    );
    fn mat(&mut self) -> &mut dyn MatMut<T>;
    fn blk(&self) -> &dyn BlkRo<T>;
}

/// Row-major matrices that can be split.
pub trait Split<T: Sc>: BlkMut<T> {
    fn with_split(&mut self, at: (usize, usize), f: VisSplit<T>) -> Option<R>;
    /// split, and run one closure per quadrant on its own thread
    fn split_threads(
        &mut self,
        at: (usize, usize),
        fs: [&mut (dyn FnMut(&mut dyn BlkMut<T>) + Send); 4],
    );
}

macro_rules! blk {
    ($L:ident, $S:ident) => {
        impl<T: Sc, D: DataContainer<Item = T>> BlkRo<T> for Base<T, $L, D, Dynamic, Dynamic> {
            fn with_block(
                &self,
                tl: (usize, usize),
                dim: (usize, usize),
                f: VisBlk<T>,
            ) -> Option<R> {
                match crate::runner::attempt(|| self.block(tl, dim)) {
                    Ok(b) => Some(f(&b)),
                    Err(_) => None,
                }
            }
            fn eval_box(&self) -> Box<dyn BlkMut<T>> {
                Box::new(self.eval())
            }
        }
        impl<T: Sc, D: DataContainerMut<Item = T>> BlkMut<T> for Base<T, $L, D, Dynamic, Dynamic> {
            fn with_block_mut(
                &mut self,
                tl: (usize, usize),
                dim: (usize, usize),
                f: VisBlkMut<T>,
            ) -> Option<R> {
                match crate::runner::attempt(|| self.block_mut(tl, dim)) {
                    Ok(mut b) => Some(f(&mut b)),
                    Err(_) => None,
                }
            }
            fn gemm(
                &mut self,
                alpha: T,
                a: &MatrixD<T, RowMajor>,
                b: &MatrixD<T, ColumnMajor>,
                beta: T,
            ) {
                T::mm(alpha, a, b, beta, self)
            }
            fn mat(&mut self) -> &mut dyn MatMut<T> {
                self
            }
            fn blk(&self) -> &dyn BlkRo<T> {
                self
            }
        }
    };
}
blk!(RowMajor, ArbitraryStrideRowMajor);
blk!(ColumnMajor, ArbitraryStrideColumnMajor);
blk!(ArbitraryStrideRowMajor, ArbitraryStrideRowMajor);
blk!(ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor);

impl<T: Sc, D: DataContainerMut<Item = T>> Split<T> for Base<T, RowMajor, D, Dynamic, Dynamic> {
    fn with_split(&mut self, at: (usize, usize), f: VisSplit<T>) -> Option<R> {
        match crate::runner::attempt(|| self.split_in_four_mut(at)) {
            Ok((mut a, mut b, mut c, mut d)) => Some(f([&mut a, &mut b, &mut c, &mut d])),
            Err(_) => None,
        }
    }
    fn split_threads(
        &mut self,
        at: (usize, usize),
        fs: [&mut (dyn FnMut(&mut dyn BlkMut<T>) + Send); 4],
    ) {
        let (mut a, mut b, mut c, mut d) = self.split_in_four_mut(at);
        let [fa, fb, fc, fd] = fs;
        let (a, b, c, d) = (Carry(&mut a), Carry(&mut b), Carry(&mut c), Carry(&mut d));
        std::thread::scope(|s| {
            s.spawn(move || fa(a.take()));
            s.spawn(move || fb(b.take()));
            s.spawn(move || fc(c.take()));
            s.spawn(move || fd(d.take()));
        });
    }
}

/// Takes a value to another thread without asking the compiler: whether the
/// library allows that is asked separately (C10), so that a library which does
/// not is judged instead of failing to build.
pub struct Carry<T>(pub T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}
impl<T> Carry<T> {
    pub fn take(self) -> T {
        self.0
    }
    pub fn look(&self) -> &T {
        &self.0
    }
}
