#![allow(dead_code)]
pub mod sym;
pub mod val;
pub mod tables;
pub mod sk;
pub mod h_int;
pub mod h_fp;
pub mod h_entry;
pub mod h_big;
#[cfg(feature = "variants")]
pub mod h_var;

macro_rules! export {
    ($($m:ident :: $f:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        mod exports { $(#[no_mangle] pub extern "C" fn $f() { super::$m::$f() })* }
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}
#[cfg(not(feature = "variants"))]
export! {
    h_int::h_new_pf, h_int::h_new_plus, h_int::h_pf_step, h_int::h_pf_fresh, h_int::h_plus_step, h_int::h_sparse_set,
    h_int::h_order_plus, h_int::h_order_dense, h_int::h_order_pf, h_int::h_to_dense, h_int::h_switch, h_int::h_store,
    h_int::h_store_raw, h_int::h_merge_pf, h_int::h_merge_pf_stream, h_int::h_merge_plus, h_int::h_mismatch_pf,
    h_int::h_mismatch_plus, h_int::h_pure_plus, h_int::h_pure_dense, h_int::h_pure_pf, h_int::h_budget,
    h_int::h_flush_point, h_int::h_dense_size, h_int::h_serde_plus, h_int::h_serde_dense, h_int::h_serde_pf,
    h_int::h_clone_plus, h_int::h_clone_dense, h_int::h_clone_pf,
    h_fp::h_pf_count, h_fp::h_plus_select, h_fp::h_plus_bias, h_fp::h_sparse_count, h_fp::h_pf_finite, h_fp::h_plus_finite,
    h_fp::h_pf_edge, h_fp::h_plus_edge, h_fp::h_plus_seg, h_fp::h_ops, h_fp::h_dense_ops, h_fp::h_pf_ops,
    h_big::h_big, h_big::h_big_budget, h_big::h_big_merge, h_big::h_big_order, h_big::h_big_mid, h_big::h_pf_win, h_big::h_plus_win,
    h_big::h_merge_dense, h_big::h_store_gap,
    h_big::h_big_near, h_fp::h_pf_rank, h_fp::h_plus_rank, h_entry::h_entry_plus, h_entry::h_entry_pf, h_entry::h_entry_dense,
}
#[cfg(feature = "variants")]
export! {
    h_var::h_const_pf, h_var::h_const_plus, h_var::h_const_stream, h_var::h_nostd_new, h_var::h_nostd_step, h_var::h_nostd_merge,
    h_var::h_nostd_count, h_var::h_nostd_lc, h_var::h_nostd_large, h_var::h_nostd_stream,
}
