//! The generic monitors for c64.
hhc::zoo_crate!(householder::types::c64, hh_zoo_c64 hh_zoo_ro_c64 hh_blk_c64 hh_blk_ro_c64 hh_split_c64 hh_gemm_c64);
