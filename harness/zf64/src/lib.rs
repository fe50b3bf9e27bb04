//! The generic monitors for f64.
hhc::zoo_crate!(f64, hh_zoo_f64 hh_zoo_ro_f64 hh_blk_f64 hh_blk_ro_f64 hh_split_f64 hh_gemm_f64);
