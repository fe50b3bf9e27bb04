//! a matrix whose container is bound to a thread is shared with another
use householder::*;

use data_container::{DataContainer, DataContainerMut};
use std::rc::Rc;
use std::cell::Cell;
struct Counting(Rc<Cell<usize>>, Vec<f64>);
impl DataContainer for Counting {
    type Item = f64;
    unsafe fn get_unchecked(&self, index: usize) -> f64 {
        self.0.set(self.0.get() + 1);
        *self.1.get_unchecked(index)
    }
    fn get_pointer(&self) -> *const f64 {
        self.1.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        self.1.len()
    }
}
impl DataContainerMut for Counting {
    unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut f64 {
        self.0.set(self.0.get() + 1);
        self.1.get_unchecked_mut(index)
    }
    fn get_pointer_mut(&mut self) -> *mut f64 {
        self.1.as_mut_ptr()
    }
}
type Own = Matrix<f64, householder::base_matrix::BaseMatrix<f64, Counting, RowMajor, Dynamic, Dynamic>, RowMajor, Dynamic, Dynamic>;

fn main() {
    let n = Rc::new(Cell::new(0));
    let m = Own::from_data(Counting(n.clone(), vec![1.0; 4]), RowMajor::new((2, 2)));
    let m = &m;
    std::thread::scope(|s| {
        #[cfg(not(feature = "control"))]
        { s.spawn(move || for _ in 0..50 { std::hint::black_box(m.get(0, 0)); }); }
        s.spawn(|| for _ in 0..50 { std::hint::black_box(3); });
        for _ in 0..50 { n.set(n.get() + 1); }
    });
    std::hint::black_box(n.get());
}
