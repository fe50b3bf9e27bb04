//! Common machinery of the runtime monitors: workload PRNG, scalar helpers,
//! reference models, monitoring heap, matrix zoo, tracing operands, runner.
pub mod disturb;
pub mod gemm;
pub mod heap;
pub mod hist;
pub mod model;
pub mod obj;
pub mod rng;
pub mod runner;
pub mod sc;

pub mod shapes;
pub mod trace;
pub mod zoo;

pub use disturb::{disturb, Ends};
pub use gemm::*;
pub use hist::*;
pub use model::*;
pub use obj::*;
pub use rng::Rng;
pub use runner::*;
pub use sc::*;
pub use shapes::*;
pub use trace::*;
pub use zoo::*;
