//! The generic monitors for f32.
hhc::zoo_crate!(f32, hh_zoo_f32 hh_zoo_ro_f32 hh_blk_f32 hh_blk_ro_f32 hh_split_f32 hh_gemm_f32);
