//! Builders with a dynamic state: pure functions of their dependencies'
//! artifacts and of their own state, which they may also write.
#![allow(static_mut_refs)]
use crate::hist::*;
use crate::rt::*;
use crate::world::*;
#[allow(unused_imports)]
use daab::blueprint::*;
use daab::cache::*;
use daab::canning::*;
use daab::*;

/// A builder's state. Counted, to see when it is dropped.
pub struct St(pub u8, u8);
#[cfg(not(feature = "count"))]
impl St { pub fn new(v: u8, _i: u8) -> St { St(v, _i) } }
#[cfg(feature = "count")]
mod counting {
    use super::*;
    pub static mut STATES: [u8; 4] = [0; 4];
    impl St { pub fn new(v: u8, i: u8) -> St { unsafe { STATES[i as usize] += 1; } St(v, i) } }
    impl Drop for St { fn drop(&mut self) { unsafe { STATES[self.1 as usize] -= 1; } } }
}
#[cfg(feature = "count")]
pub use counting::STATES;
impl std::fmt::Debug for St { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

/// What each state starts with, and what it is now.
pub static mut INITV: [u8; 4] = [0; 4];
pub static mut MS: [u8; 4] = [0; 4];
/// The build writes its state.
pub const WRITE: u8 = 0x20;

pub struct SNode(pub u8);
impl std::fmt::Debug for SNode { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
#[derive(Clone)]
pub struct SBin(pub u8);
impl std::fmt::Debug for SBin { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
static SNODES: [SNode; 4] = [SNode(0), SNode(1), SNode(2), SNode(3)];
impl AsRef<SNode> for SBin { fn as_ref(&self) -> &SNode { &SNODES[self.0 as usize] } }
impl Can<SNode> for BCan { type Bin = SBin; fn bin_as_ptr(b: &SBin) -> *const () { (4 + b.0 as usize) as *const () } }
impl CanSized<SNode> for BCan {
    fn into_bin(t: SNode) -> SBin { SBin(t.0) }
    fn from_bin(b: SBin) -> Self { BCan::hold(b.0) }
    fn downcast_can(self) -> Option<SBin> { Some(SBin(self.0)) }
}
pub type Sp = Blueprint<SNode, BCan>;
#[inline]
pub fn sp(i: u8) -> Sp { Blueprint::new(SNode(i)) }

macro_rules! sdep { ($r:ident, $me:expr, $j:literal, $e:expr, $acc:ident, $ok:ident) => {
    if $me > $j && $e & (1 << $j) != 0 {
        EOK[$j] |= 1 << $me;
        EANY[$j] |= 1 << $me;
        KN |= 1 << $j;
        match $r.resolve(&sp($j)) {
            Ok(a) => {
                check!("P06", a.node == $j, "resolve hands out the artifact of the resolved builder");
                $acc = $acc.rotate_left(1) ^ a.val;
                $ok |= 1 << $j;
            }
            Err(x) => if $e & TOL == 0 { return Err(x) } else { $acc = $acc.rotate_left(1) ^ 0x5a; },
        }
    }
} }

impl Builder<ACan, BCan> for SNode {
    type Artifact = Art;
    type DynState = St;
    type Err = u8;
    fn build(&self, r: &mut Resolver<ACan, BCan, St>) -> Result<Art, u8> {
        unsafe {
            let me = self.0 as usize;
            let b = 1u8 << me;
            ATT[me] += 1;
            KN |= b;
            each_node!(J, EOK[J] &= !b);
            let e = ENV[me];
            let mut acc = 0u8;
            let mut ok = 0u8;
            sdep!(r, me, 0, e, acc, ok);
            sdep!(r, me, 1, e, acc, ok);
            #[cfg(feature = "n4")]
            sdep!(r, me, 2, e, acc, ok);
            check!("P05", DS & b != 0, "the state exists when its builder is run");
            let s = r.my_state();
            let v = s.0;
            check!("P05", v == MS[me], "a build sees the current state of its own builder");
            if e & WRITE != 0 {
                s.0 = v.wrapping_add(1);
                MS[me] = v.wrapping_add(1);
                check!("P05", r.my_state().0 == MS[me], "a build sees what it wrote to its state");
            }
            if e & FAIL != 0 && v & 1 != 0 { return Err(0x10 | me as u8) }
            SER[me] += 1;
            USED[me] = ok;
            UB |= b;
            LB |= b;
            Ok(Art { node: self.0, serial: SER[me], gen: 0, val: acc ^ v })
        }
    }
    fn init_dyn_state(&self) -> St {
        unsafe {
            let me = self.0 as usize;
            let b = 1u8 << me;
            check!("P05", DS & b == 0, "a state is initialised only if there is none");
            DS |= b;
            KN |= b;
            MS[me] = INITV[me];
            INI[me] += 1;
            St::new(INITV[me], self.0)
        }
    }
}

/// The value of every node computed from scratch with the current states, and
/// which of them can be computed.
pub fn recompute() -> ([u8; 4], u8) {
    unsafe {
        let mut v = [0u8; 4];
        let mut ok = 0u8;
        each_node!(K, {
            let e = ENV[K];
            let mut acc = 0u8;
            let mut good = true;
            each_node!(J, if J < K && e >> J & 1 != 0 {
                if ok >> J & 1 == 0 && e & TOL == 0 { good = false; }
                acc = acc.rotate_left(1) ^ if ok >> J & 1 != 0 { v[J] } else { 0x5a };
            });
            let s = if DS >> K & 1 != 0 { MS[K] } else { INITV[K] };
            v[K] = acc ^ s;
            if good && (e & FAIL == 0 || s & 1 == 0) { ok |= 1 << K; }
        });
        (v, ok)
    }
}
pub fn reset() {
    unsafe {
        INITV = [0; 4]; MS = [0; 4];
        #[cfg(feature = "count")]
        { STATES = [0; 4]; }
    }
}
#[inline]
fn ms(i: u8) -> u8 { unsafe { if i == 0 { MS[0] } else if i == 1 { MS[1] } else if i == 2 { MS[2] } else { MS[3] } } }
#[inline]
fn setms(b: u8, v: u8) { unsafe { each_node!(J, if b >> J & 1 != 0 { MS[J] = v; }) } }

/// `mask`: the flags a behaviour may have.
pub fn sstart(mask: u8) -> C {
    unsafe {
        each_node!(J, ENV[J] = inp(J) & mask);
        each_node!(J, INITV[J] = inp(32 + J));
    }
    new_cache()
}
pub fn sget<const K: u8>(c: &mut C) {
    let r = c.get(&sp(K));
    let (v, ok) = recompute();
    if let Ok(a) = r {
        check!("P06", ok >> K & 1 != 0 && a.node == K && a.val == v[K as usize], "a request returns what recomputing everything would give");
        check!("P05", unsafe { DS >> K & 1 != 0 }, "a built builder has a state");
    } else {
        check!("P06", ok >> K & 1 == 0, "a request fails only if recomputing everything would");
    }
}
/// One operation of kind `O` on an arbitrary builder with an arbitrary value.
pub fn sop<const O: u8>(c: &mut C, p: usize) {
    unsafe {
        match O {
            INVALIDATE => { let i = node(8 * p + 4); c.invalidate(&sp(i)); model_invalidate(onehot(i)); }
            PURGE => { let i = node(8 * p + 4); let b = onehot(i); c.purge(&sp(i)); model_invalidate(b); KN &= !b; DS &= !b; }
            DYN_MUT => {
                let i = node(8 * p + 4);
                let v = inp(8 * p + 5);
                let b = onehot(i);
                let s = c.dyn_state_mut(&sp(i));
                check!("P05", DS & b != 0 && s.0 == ms(i), "dyn_state_mut gives the current state");
                s.0 = v;
                model_invalidate(b);
                KN |= b;
                setms(b, v);
            }
            DYN => {
                let i = node(8 * p + 4);
                let s = c.dyn_state(&sp(i)).0;
                check!("P05", DS & onehot(i) != 0 && s == ms(i), "dyn_state gives the current state");
            }
            CLEAR_ART => { c.clear_artifacts(); model_clear(); }
            CLEAR_ALL => { c.clear_all(); model_clear(); KN = 0; DS = 0; }
            GC => { c.garbage_collection(); }
            _ => {}
        }
    }
}
pub fn ssettle(c: &C) {
    unsafe {
        let (v, ok) = recompute();
        each_node!(J, {
            let s = c.get_dyn_state(&sp(J as u8)).map(|s| s.0);
            check!("P05", s.is_some() == (DS >> J & 1 != 0), "a state lives from its first use until its builder is purged or the cache cleared");
            check!("P05", s.is_none() || s == Some(MS[J]), "the state is what was last written to it");
            if let Some(a) = c.lookup(&sp(J as u8)) {
                check!("P06", ok >> J & 1 != 0 && a.node == J as u8 && a.val == v[J], "whatever is cached is what recomputing it would give");
            }
            #[cfg(feature = "count")]
            check!("P21", STATES[J] == (DS >> J & 1), "a removed state is dropped at once");
        });
    }
}
/// P06: get; op; gets.
pub fn t1<const A: u8>() {
    let mut c = sstart(0xc7);
    sget::<TOP>(&mut c);
    sop::<A>(&mut c, 1);
    ssettle(&c);
    sget::<TOP>(&mut c);
    ssettle(&c);
    witness!(unsafe { USED[2] == 3 && USED[1] == 1 && UB == ALL }, "the interesting case occurs");
}
/// P06: get; op; get another; op; get.
pub fn t2<const A: u8, const B: u8>() {
    let mut c = sstart(0xc7);
    sget::<TOP>(&mut c);
    sop::<A>(&mut c, 1);
    sget::<1>(&mut c);
    sop::<B>(&mut c, 2);
    ssettle(&c);
    sget::<TOP>(&mut c);
    witness!(unsafe { USED[2] == 3 && USED[1] == 1 && UB == ALL }, "the interesting case occurs");
}
/// P05: states that builds write, failures, two operations.
pub fn s1<const A: u8, const B: u8>() {
    let mut c = sstart(0xff);
    sget_any::<1>(&mut c);
    ssettle(&c);
    sop::<A>(&mut c, 1);
    ssettle(&c);
    sget_any::<TOP>(&mut c);
    sop::<B>(&mut c, 2);
    ssettle(&c);
    witness!(unsafe { ATT[2] == 1 && SER[1] >= 1 && ENV[1] & WRITE != 0 && ENV[2] & FAIL != 0 }, "the interesting case occurs");
}
fn sget_any<const K: u8>(c: &mut C) { let _ = c.get(&sp(K)); }
/// P05: states without builds.
pub fn s0<const A: u8, const B: u8>() {
    let mut c = sstart(0xff);
    sop::<A>(&mut c, 1);
    ssettle(&c);
    sop::<DYN>(&mut c, 2);
    ssettle(&c);
    sop::<B>(&mut c, 3);
    ssettle(&c);
    sop::<DYN_MUT>(&mut c, 5);
    ssettle(&c);
    witness!(unsafe { DS != 0 }, "the interesting case occurs");
}
