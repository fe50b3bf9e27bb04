//! The generic monitors for c32.
hhc::zoo_crate!(householder::types::c32, hh_zoo_c32 hh_zoo_ro_c32 hh_blk_c32 hh_blk_ro_c32 hh_split_c32 hh_gemm_c32);
