#![allow(static_mut_refs, clippy::all, unused_macros)]
/// Runs `$e` for each node number, as constant `$i`.
#[cfg(feature = "n4")]
macro_rules! each_node { ($i:ident, $e:expr) => {{ { const $i: usize = 0; $e; } { const $i: usize = 1; $e; } { const $i: usize = 2; $e; } { const $i: usize = 3; $e; } }} }
#[cfg(not(feature = "n4"))]
macro_rules! each_node { ($i:ident, $e:expr) => {{ { const $i: usize = 0; $e; } { const $i: usize = 1; $e; } { const $i: usize = 2; $e; } }} }
/// Runs `$e` with the blueprint of node `$i`, once per constant node number.
#[cfg(feature = "n4")]
macro_rules! disp { ($i:expr, $b:ident, $e:expr) => { match $i { 0 => { let $b = bp(0); $e } 1 => { let $b = bp(1); $e } 2 => { let $b = bp(2); $e } _ => { let $b = bp(3); $e } } } }
#[cfg(not(feature = "n4"))]
macro_rules! disp { ($i:expr, $b:ident, $e:expr) => { match $i { 0 => { let $b = bp(0); $e } 1 => { let $b = bp(1); $e } _ => { let $b = bp(2); $e } } } }

/// `check!("P01", cond, "text")`: `cond` must hold on every path. Encoded as a
/// reachability goal of its negation, so that it prunes nothing.
#[cfg(kani)]
macro_rules! check { ($p:literal, $c:expr, $m:literal) => { kani::cover(!($c), concat!("CHECK ", $p, " ", $m)) } }
/// Vacuity witness: some execution must get here with `cond`.
#[cfg(kani)]
macro_rules! witness { ($c:expr, $m:literal) => { kani::cover($c, concat!("WITNESS ", $m)) } }
#[cfg(not(kani))]
macro_rules! check { ($p:literal, $c:expr, $m:literal) => { if !($c) { $crate::rt::FAILS.with(|f| f.borrow_mut().push(($p, $m))) } } }
#[cfg(not(kani))]
macro_rules! witness { ($c:expr, $m:literal) => { let _ = $c; } }

pub mod rt;
#[macro_use]
pub mod world;
pub mod hist;
pub mod sworld;
pub mod util;
pub mod real;
pub mod ready;
pub mod blue;
#[cfg(feature = "doc")]
pub mod text;
#[cfg(feature = "doc")]
pub mod doc;

/// Every scenario, by name: a proof harness under Kani, an entry of the
/// replay table otherwise.
macro_rules! scenarios { ($( $(#[$m:meta])* $n:ident => $e:expr; )*) => {
    #[cfg(kani)]
    mod proofs {
        use super::*;
        $( $(#[$m])* #[kani::proof] fn $n() { $e } )*
    }
    #[cfg(not(kani))]
    pub fn scenario(name: &str) -> Option<fn()> {
        match name { $( $(#[$m])* stringify!($n) => Some(|| { $e }), )* _ => None }
    }
} }
#[allow(unused_imports)]
use hist::*;
#[allow(unused_imports)]
use sworld::*;
#[allow(unused_imports)]
use util::*;
scenarios! {
    h1_inv => h1::<INVALIDATE>();
    h1_purge => h1::<PURGE>();
    h1_dynm => h1::<DYN_MUT>();
    h1_cart => h1::<CLEAR_ART>();
    h1_call => h1::<CLEAR_ALL>();
    h1_gc => h1::<GC>();
    h1_dyn => h1::<DYN>();
    h1_look => h1::<LOOKUP>();
    #[cfg(feature = "mutbox")]
    h1_lookm => h1::<LOOKUP_MUT>();
    #[cfg(feature = "mutbox")]
    h1_getm => h1::<GET_MUT>();
    #[cfg(feature = "mutbox")]
    h2_lookm_inv => h2::<LOOKUP_MUT, 1, INVALIDATE>();
    #[cfg(feature = "mutbox")]
    h2_inv_lookm => h2::<INVALIDATE, 1, LOOKUP_MUT>();
    #[cfg(feature = "mutbox")]
    h2_getm_getm => h2::<GET_MUT, 1, GET_MUT>();
    #[cfg(feature = "mutbox")]
    h2_lookm_gc => h2::<LOOKUP_MUT, 1, GC>();
    #[cfg(feature = "mutbox")]
    h2_purge_getm => h2::<PURGE, 1, GET_MUT>();
    #[cfg(feature = "mutbox")]
    h0_lookm_gc => h0::<LOOKUP_MUT, GC>();
    h1d_inv => h1d::<INVALIDATE>();
    h1d_purge => h1d::<PURGE>();
    h1k_inv_1 => h1k::<INVALIDATE, 1>();
    h1k_inv_2 => h1k::<INVALIDATE, 2>();
    h1t_inv => h1t::<INVALIDATE>();
    h1t_purge => h1t::<PURGE>();
    h1m_inv => h1m::<INVALIDATE>();
    h1m_purge => h1m::<PURGE>();
    h2_inv_inv => h2::<INVALIDATE, 1, INVALIDATE>();
    h2_inv_purge => h2::<INVALIDATE, 1, PURGE>();
    h2_purge_inv => h2::<PURGE, 1, INVALIDATE>();
    h2_purge_purge => h2::<PURGE, 1, PURGE>();
    h2_dynm_inv => h2::<DYN_MUT, 1, INVALIDATE>();
    h2_inv_dynm => h2::<INVALIDATE, 1, DYN_MUT>();
    h2_cart_inv => h2::<CLEAR_ART, 1, INVALIDATE>();
    h2_call_inv => h2::<CLEAR_ALL, 1, INVALIDATE>();
    h2_purge_gc => h2::<PURGE, 1, GC>();
    h2_inv_gc => h2::<INVALIDATE, 1, GC>();
    h2_cart_gc => h2::<CLEAR_ART, 1, GC>();
    h2_call_gc => h2::<CLEAR_ALL, 1, GC>();
    h2_dynm_gc => h2::<DYN_MUT, 1, GC>();
    h2_purge_inv_2 => h2::<PURGE, 2, INVALIDATE>();
    h2_inv_inv_2 => h2::<INVALIDATE, 2, INVALIDATE>();
    h2_inv_gc_2 => h2::<INVALIDATE, 2, GC>();
    h3_inv => h3::<INVALIDATE, INVALIDATE, INVALIDATE>();
    h3_ipd => h3::<INVALIDATE, PURGE, DYN_MUT>();
    h3_pgi => h3::<PURGE, GC, INVALIDATE>();
    h3_gip => h3::<GC, INVALIDATE, PURGE>();
    h0_inv_gc => h0::<INVALIDATE, GC>();
    h0_purge_gc => h0::<PURGE, GC>();
    h0_dyn_purge => h0::<DYN, PURGE>();
    h0_look => h0::<LOOKUP, LOOKUP>();
    acc_inv => acc::<INVALIDATE>();
    acc_purge => acc::<PURGE>();
    fail_1 => fail1();
    #[cfg(feature = "bomb")]
    p1_inv_0 => p1::<INVALIDATE, 0>();
    #[cfg(feature = "bomb")]
    p1_inv_1 => p1::<INVALIDATE, 1>();
    #[cfg(feature = "bomb")]
    p1_inv_2 => p1::<INVALIDATE, 2>();
    #[cfg(feature = "bomb")]
    p2_inv_0 => p2::<INVALIDATE, 0>();
    #[cfg(feature = "bomb")]
    p2_inv_1 => p2::<INVALIDATE, 1>();
    #[cfg(feature = "bomb")]
    p2_inv_2 => p2::<INVALIDATE, 2>();
    #[cfg(feature = "bomb")]
    p1_purge_0 => p1::<PURGE, 0>();
    #[cfg(feature = "bomb")]
    p1_purge_1 => p1::<PURGE, 1>();
    #[cfg(feature = "bomb")]
    p1_purge_2 => p1::<PURGE, 2>();
    #[cfg(feature = "bomb")]
    p2_purge_0 => p2::<PURGE, 0>();
    #[cfg(feature = "bomb")]
    p2_purge_1 => p2::<PURGE, 1>();
    #[cfg(feature = "bomb")]
    p2_purge_2 => p2::<PURGE, 2>();
    #[cfg(feature = "bomb")]
    p1_dynm_0 => p1::<DYN_MUT, 0>();
    #[cfg(feature = "bomb")]
    p1_dynm_1 => p1::<DYN_MUT, 1>();
    #[cfg(feature = "bomb")]
    p1_dynm_2 => p1::<DYN_MUT, 2>();
    #[cfg(feature = "bomb")]
    p2_dynm_0 => p2::<DYN_MUT, 0>();
    #[cfg(feature = "bomb")]
    p2_dynm_1 => p2::<DYN_MUT, 1>();
    #[cfg(feature = "bomb")]
    p2_dynm_2 => p2::<DYN_MUT, 2>();
    #[cfg(feature = "bomb")]
    p1_gc_0 => p1::<GC, 0>();
    #[cfg(feature = "bomb")]
    p1_gc_1 => p1::<GC, 1>();
    #[cfg(feature = "bomb")]
    p1_gc_2 => p1::<GC, 2>();
    #[cfg(feature = "bomb")]
    p2_gc_0 => p2::<GC, 0>();
    #[cfg(feature = "bomb")]
    p2_gc_1 => p2::<GC, 1>();
    #[cfg(feature = "bomb")]
    p2_gc_2 => p2::<GC, 2>();
    gc1_2 => gc1::<2>();
    gc1_1 => gc1::<1>();
    gc2_inv => gc2::<INVALIDATE>();
    gc2_purge => gc2::<PURGE>();
    gc2_cart => gc2::<CLEAR_ART>();
    gc2_call => gc2::<CLEAR_ALL>();
    gc2_dynm => gc2::<DYN_MUT>();
    gc_3 => gc3();
    gc_4 => gc4();
    gc_5 => gc5();
    #[cfg(feature = "count")]
    reuse_purge => reuse::<PURGE>();
    #[cfg(feature = "count")]
    reuse_call => reuse::<CLEAR_ALL>();
    #[cfg(feature = "count")]
    reuse_gc => reuse::<GC>();
    #[cfg(feature = "count")]
    reuse_inv => reuse::<INVALIDATE>();
    #[cfg(feature = "doc")]
    text_1 => text::text1();
    #[cfg(feature = "doc")]
    vis_1 => text::vis1();
    u_fwd_inv => forwarding::<INVALIDATE, INVALIDATE>();
    u_fwd_pur => forwarding::<PURGE, INVALIDATE>();
    u_cln_inv => cloning::<INVALIDATE, PURGE>();
    u_fgn_inv => feigning::<INVALIDATE, PURGE>();
    u_red_inv => redeeming::<INVALIDATE, INVALIDATE>();
    u_red_pur => redeeming::<PURGE, INVALIDATE>();
    u_red_inp => redeeming::<INVALIDATE, PURGE>();
    u_const => constant();
    u_conf => configurable();
    u_fun => functional();
    t1_dynm => t1::<DYN_MUT>();
    t1_purge => t1::<PURGE>();
    t1_inv => t1::<INVALIDATE>();
    t1_cart => t1::<CLEAR_ART>();
    t1_call => t1::<CLEAR_ALL>();
    t2_dynm_dynm => t2::<DYN_MUT, DYN_MUT>();
    t2_inv_dynm => t2::<INVALIDATE, DYN_MUT>();
    t2_dynm_purge => t2::<DYN_MUT, PURGE>();
    s1_dynm_inv => s1::<DYN_MUT, INVALIDATE>();
    s1_inv_purge => s1::<INVALIDATE, PURGE>();
    s1_purge_dynm => s1::<PURGE, DYN_MUT>();
    s1_cart_call => s1::<CLEAR_ART, CLEAR_ALL>();
    s1_dyn_cart => s1::<DYN, CLEAR_ART>();
    s1_gc_inv => s1::<GC, INVALIDATE>();
    s0_dynm_purge => s0::<DYN_MUT, PURGE>();
    s0_purge_gc => s0::<PURGE, GC>();
    s0_dynm_call => s0::<DYN_MUT, CLEAR_ALL>();
    can_rc_v => real::rc_can::<real::V>();
    can_rc_z => real::rc_can::<real::Z>();
    can_rc_w => real::rc_can::<real::W>();
    can_arc_v => real::arc_can::<real::V>();
    can_arc_z => real::arc_can::<real::Z>();
    can_arc_w => real::arc_can::<real::W>();
    can_box_v => real::box_can::<real::V>();
    can_box_z => real::box_can::<real::Z>();
    can_box_w => real::box_can::<real::W>();
    r_rc_inv_l1 => ready::rc::first::<INVALIDATE, 0, 0, 1>();
    r_rc_inv_l3 => ready::rc::first::<INVALIDATE, 0, 0, 3>();
    r_rc_inv_m1 => ready::rc::first::<INVALIDATE, 1, 1, 1>();
    r_rc_inv_d0 => ready::rc::first::<INVALIDATE, 0, 2, 0>();
    r_rc_inv_d3 => ready::rc::first::<INVALIDATE, 0, 2, 3>();
    r_rc_purge_l1 => ready::rc::first::<PURGE, 1, 0, 1>();
    r_rc_purge_m1 => ready::rc::first::<PURGE, 1, 1, 1>();
    r_rc_purge_d0 => ready::rc::first::<PURGE, 0, 2, 0>();
    r_rc_purge_d1 => ready::rc::first::<PURGE, 0, 2, 1>();
    r_rc_purge_d2 => ready::rc::first::<PURGE, 0, 2, 2>();
    r_rc_dynm_m1 => ready::rc::first::<DYN_MUT, 1, 1, 1>();
    r_rc_dynm_m2 => ready::rc::first::<DYN_MUT, 1, 1, 2>();
    r_rc_dynm_d0 => ready::rc::first::<DYN_MUT, 0, 2, 0>();
    r_rc_dynm_d1 => ready::rc::first::<DYN_MUT, 0, 2, 1>();
    r_rc_dynm_d3 => ready::rc::first::<DYN_MUT, 0, 2, 3>();
    r_arc_inv_l1 => ready::arc::first::<INVALIDATE, 0, 0, 1>();
    r_arc_inv_l3 => ready::arc::first::<INVALIDATE, 0, 0, 3>();
    r_arc_inv_m1 => ready::arc::first::<INVALIDATE, 1, 1, 1>();
    r_arc_purge_l1 => ready::arc::first::<PURGE, 1, 0, 1>();
    r_arc_purge_m1 => ready::arc::first::<PURGE, 1, 1, 1>();
    r_arc_dynm_m1 => ready::arc::first::<DYN_MUT, 1, 1, 1>();
    r_arc_dynm_m2 => ready::arc::first::<DYN_MUT, 1, 1, 2>();
    #[cfg(feature = "mutbox")]
    r_box_inv_l1 => ready::boxed::first::<INVALIDATE, 0, 0, 1>();
    #[cfg(feature = "mutbox")]
    r_box_inv_m4 => ready::boxed::first::<INVALIDATE, 1, 1, 4>();
    #[cfg(feature = "mutbox")]
    r_box_purge_d1 => ready::boxed::first::<PURGE, 1, 2, 1>();
    #[cfg(feature = "mutbox")]
    r_box_purge_l3 => ready::boxed::first::<PURGE, 1, 0, 3>();
    #[cfg(feature = "mutbox")]
    r_box_purge_l4 => ready::boxed::first::<PURGE, 0, 0, 4>();
    #[cfg(feature = "mutbox")]
    r_box_dynm_d2 => ready::boxed::first::<DYN_MUT, 0, 2, 2>();
    #[cfg(feature = "mutbox")]
    r_box_dynm_m1 => ready::boxed::first::<DYN_MUT, 0, 1, 1>();
    #[cfg(feature = "mutbox")]
    r_box_lookm_l1 => ready::boxed::first::<LOOKUP_MUT, 0, 0, 1>();
    #[cfg(feature = "mutbox")]
    r_box_lookm_d1 => ready::boxed::first::<LOOKUP_MUT, 0, 2, 1>();
    #[cfg(feature = "mutbox")]
    r_box_getm_l1 => ready::boxed::first::<GET_MUT, 1, 0, 1>();
    #[cfg(feature = "mutbox")]
    r_box_getm_l4 => ready::boxed::first::<GET_MUT, 0, 0, 4>();
    #[cfg(feature = "mutbox")]
    r_box_getm_m3 => ready::boxed::first::<GET_MUT, 0, 1, 3>();
    #[cfg(feature = "mutbox")]
    r_box_getm_d1 => ready::boxed::first::<GET_MUT, 0, 2, 1>();
    bp_rc_v => blue::rc_v();
    bp_rc_z => blue::rc_z();
    bp_arc_v => blue::arc_v();
    bp_arc_z => blue::arc_z();
    bp_dyn_v => blue::dyn_v();
    bp_dyn_z => blue::dyn_z();
    #[cfg(feature = "unsized")]
    bp_uns_v0 => blue::uns::of_v::<0>();
    #[cfg(feature = "unsized")]
    bp_uns_z0 => blue::uns::of_z::<0>();
    #[cfg(feature = "unsized")]
    bp_uns_v1 => blue::uns::of_v::<1>();
    #[cfg(feature = "unsized")]
    bp_uns_z1 => blue::uns::of_z::<1>();
    #[cfg(feature = "unsized")]
    bp_uns_v2 => blue::uns::of_v::<2>();
    #[cfg(feature = "unsized")]
    bp_uns_z2 => blue::uns::of_z::<2>();
    #[cfg(feature = "unsized")]
    bp_uns_v3 => blue::uns::of_v::<3>();
    #[cfg(feature = "unsized")]
    bp_uns_z3 => blue::uns::of_z::<3>();
    #[cfg(feature = "unsized")]
    bp_uns_v4 => blue::uns::of_v::<4>();
    #[cfg(feature = "unsized")]
    bp_uns_z4 => blue::uns::of_z::<4>();
    #[cfg(feature = "unsized")]
    bp_uns_v5 => blue::uns::of_v::<5>();
    #[cfg(feature = "unsized")]
    bp_uns_z5 => blue::uns::of_z::<5>();
    #[cfg(feature = "unsized")]
    bp_uns_v6 => blue::uns::of_v::<6>();
    #[cfg(feature = "unsized")]
    bp_uns_z6 => blue::uns::of_z::<6>();
    #[cfg(feature = "unsized")]
    bp_art => blue::uns::artifact();
    #[cfg(feature = "diag")]
    hnd_rc => blue::handles::rc();
    #[cfg(feature = "diag")]
    hnd_arc => blue::handles::arc();
    #[cfg(feature = "diag")]
    hnd_boxed => blue::handles::boxed();
}
