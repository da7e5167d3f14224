//! The builders, cans and ghost state the scenarios run daab with.
//!
//! Node `i` may depend on nodes `j < i`: up to renaming, every acyclic
//! dependency graph over `N` builders. What a build does (which dependencies
//! it resolves, whether it fails, whether it tolerates a failed dependency)
//! is read from `ENV`, chosen by the solver.
#![allow(static_mut_refs)]
use daab::canning::*;
#[allow(unused_imports)]
use daab::blueprint::*;
#[allow(unused_imports)]
use daab::cache::*;
use daab::*;
use std::any::Any;

#[cfg(feature = "n4")]
pub const N: usize = 4;
#[cfg(not(feature = "n4"))]
pub const N: usize = 3;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Art { pub node: u8, pub serial: u8, pub gen: u8, pub val: u8 }
impl std::fmt::Debug for Art { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { debug_text(f) } }

/// Artifact can: the plain value.
pub struct ACan(pub Art);
impl Clone for ACan { #[inline] fn clone(&self) -> Self { made(self.0.node); ACan(self.0) } }
impl std::fmt::Debug for ACan { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl CanBase for ACan { fn can_as_ptr(&self) -> *const dyn Any { &self.0 } }
impl Can<Art> for ACan { type Bin = Art; fn bin_as_ptr(b: &Art) -> *const () { b as *const Art as *const () } }
impl CanSized<Art> for ACan {
    fn into_bin(t: Art) -> Art { t }
    fn from_bin(b: Art) -> Self { made(b.node); ACan(b) }
    fn downcast_can(self) -> Option<Art> { Some(self.0) }
}
impl CanRef<Art> for ACan { fn downcast_can_ref(&self) -> Option<&Art> { Some(&self.0) } }
impl CanRefMut<Art> for ACan { fn downcast_can_mut(&mut self) -> Option<&mut Art> { Some(&mut self.0) } }

/// Builder can: the number of the builder, which lives at address `4 + i`.
pub struct BCan(pub u8);
pub struct BWeak(pub u8);
impl std::fmt::Debug for BCan { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Debug for BWeak { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl Clone for BCan { #[inline] fn clone(&self) -> Self { strong(self.0); BCan(self.0) } }
impl CanBase for BCan { fn can_as_ptr(&self) -> *const dyn Any { (4 + self.0 as usize) as *const u8 as *const dyn Any } }
impl CanStrong for BCan {
    type CanWeak = BWeak;
    fn downgrade(&self) -> BWeak { weak(self.0); BWeak(self.0) }
    fn upgrade_from_weak(w: &BWeak) -> Option<BCan> { if unsafe { ALIVE == 0xf || ALIVE >> w.0 & 1 != 0 } { strong(w.0); Some(BCan(w.0)) } else { None } }
}
impl BCan { #[inline] pub fn hold(i: u8) -> BCan { strong(i); BCan(i) } }
/// Counting of the references a cache holds, for the ownership properties.
#[cfg(feature = "count")]
mod counting {
    use super::*;
    pub static mut STRONG: u8 = 0;
    pub static mut WEAK: [u8; 4] = [0; 4];
    #[inline] pub fn strong(_i: u8) { unsafe { STRONG += 1 } }
    #[inline] pub fn weak(i: u8) { unsafe { WEAK[i as usize] += 1 } }
    /// Artifact cans in existence, per node.
    pub static mut ARTS: [u8; 4] = [0; 4];
    #[inline] pub fn made(i: u8) { unsafe { ARTS[i as usize] += 1 } }
    impl Drop for ACan { #[inline] fn drop(&mut self) { unsafe { ARTS[self.0.node as usize] -= 1 } } }
    impl Drop for BCan { #[inline] fn drop(&mut self) { unsafe { STRONG -= 1 } } }
    impl Drop for BWeak { #[inline] fn drop(&mut self) { unsafe { WEAK[self.0 as usize] -= 1 } } }
}
#[cfg(feature = "count")]
pub use counting::*;
#[cfg(not(feature = "count"))]
#[inline(always)] fn strong(_i: u8) {}
#[cfg(not(feature = "count"))]
#[inline(always)] fn weak(_i: u8) {}
#[cfg(not(feature = "count"))]
#[inline(always)] fn made(_i: u8) {}

pub struct Node(pub u8);
impl std::fmt::Debug for Node { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { debug_text(f) } }
/// Bin of a builder.
#[derive(Clone)]
pub struct NBin(pub u8);
impl std::fmt::Debug for NBin { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
static NODES: [Node; 4] = [Node(0), Node(1), Node(2), Node(3)];
impl AsRef<Node> for NBin { fn as_ref(&self) -> &Node { &NODES[self.0 as usize] } }
impl Can<Node> for BCan { type Bin = NBin; fn bin_as_ptr(b: &NBin) -> *const () { (4 + b.0 as usize) as *const () } }
impl CanSized<Node> for BCan {
    fn into_bin(t: Node) -> NBin { NBin(t.0) }
    fn from_bin(b: NBin) -> Self { strong(b.0); BCan(b.0) }
    fn downcast_can(self) -> Option<NBin> { Some(NBin(self.0)) }
}

// ---- ghost state ---------------------------------------------------------

/// Bits of an `ENV` entry: dependencies in the low bits, then flags.
pub const FAIL: u8 = 0x80;
pub const TOL: u8 = 0x40;

/// What the next build of each node does.
pub static mut ENV: [u8; 4] = [0; 4];
/// Builders that still have a strong reference.
pub static mut ALIVE: u8 = 0xf;
/// Builders the user still holds, and what each builder itself holds on to.
pub static mut EXT: u8 = 0xf;
pub static mut HOLD: [u8; 4] = [0; 4];
/// Generation of the builder at each address.
pub static mut GEN: [u8; 4] = [0; 4];
/// Build attempts and successful builds per node, since ever.
pub static mut ATT: [u8; 4] = [0; 4];
pub static mut SER: [u8; 4] = [0; 4];
/// Dependencies whose artifact went into the last successful build.
pub static mut USED: [u8; 4] = [0; 4];
pub static mut USEDSER: [[u8; 4]; 4] = [[0; 4]; 4];
/// Which accessor a build resolves with: 0 = resolve, 1 = ref, 2 = cloned.
pub static mut KIND: [u8; 4] = [0; 4];
/// Resolve dependencies in descending order.
pub static mut DESC: bool = false;
/// How often a build resolves each of its dependencies, less one.
pub static mut MORE: u8 = 0;
/// A dependency that failed behaves as `FLIP` says from then on.
pub static mut MEND: bool = false;
pub static mut FLIP: [u8; 4] = [0; 4];
/// The builder whose next build panics once it has resolved its dependencies.
#[cfg(feature = "bomb")]
pub static mut BOMB: u8 = 0xfe;

/// Model, upper/lower bound: `UB` = may be cached, `LB` = must be cached.
pub static mut UB: u8 = 0;
pub static mut LB: u8 = 0;
/// `EOK[j]`: nodes that resolved `j` in their last attempt, be it in vain;
/// `EANY[j]`: nodes that resolved `j` in any attempt since they were last
/// invalidated.
pub static mut EOK: [u8; 4] = [0; 4];
pub static mut EANY: [u8; 4] = [0; 4];
/// Builders known to the cache, and those with a dynamic state.
pub static mut KN: u8 = 0;
pub static mut DS: u8 = 0;
/// Calls of `init_dyn_state` per node.
pub static mut INI: [u8; 4] = [0; 4];

pub type Bp = Blueprint<Node, BCan>;
#[inline]
pub fn bp(i: u8) -> Bp { Blueprint::new(Node(i)) }

/// One `resolve` of dependency `$j` by node `$me`.
macro_rules! dep { ($r:ident, $me:expr, $j:literal, $e:expr) => {
    if $me > $j && $e & (1 << $j) != 0 && ALIVE & (1 << $j) != 0 {
        let mut again = MORE;
        loop {
            EOK[$j] |= 1 << $me;
            EANY[$j] |= 1 << $me;
            KN |= 1 << $j;
            #[cfg(feature = "doc")]
            { crate::doc::RES_EXP[$me][$j] += 1; }
            let a: Result<Art, u8> = match KIND[$me] {
                0 => $r.resolve(&bp($j)),
                1 => $r.resolve_ref(&bp($j)).map(|a| *a),
                _ => $r.resolve_cloned(&bp($j)),
            };
            match a {
                Ok(a) => {
                    check!("P14", a.node == $j && a.serial == SER[$j], "resolve hands out the current artifact of the resolved builder");
                    check!("P03", OKM[$me] & (1 << $j) == 0 || a.serial == USEDSER[$me][$j], "a dependency resolved again in the same build is the same artifact");
                    OKM[$me] |= 1 << $j; USEDSER[$me][$j] = a.serial;
                }
                Err(x) => {
                    if $e & TOL == 0 { return Err(x) }
                    if MEND { ENV[$j] = FLIP[$j]; }
                }
            }
            if again == 0 { break }
            again -= 1;
        }
    }
} }
static mut OKM: [u8; 4] = [0; 4];

impl Builder<ACan, BCan> for Node {
    type Artifact = Art;
    type DynState = ();
    type Err = u8;
    fn build(&self, r: &mut Resolver<ACan, BCan, ()>) -> Result<Art, u8> {
        unsafe {
            let me = self.0 as usize;
            ATT[me] += 1;
            KN |= 1 << me;
            DS |= 1 << me;
            OKM[me] = 0;
            let b = 1u8 << me;
            each_node!(J, EOK[J] &= !b);
            let e = ENV[me];
            if DESC {
                #[cfg(feature = "n4")]
                dep!(r, me, 2, e);
                dep!(r, me, 1, e);
                dep!(r, me, 0, e);
            } else {
                dep!(r, me, 0, e);
                dep!(r, me, 1, e);
                #[cfg(feature = "n4")]
                dep!(r, me, 2, e);
            }
            #[cfg(feature = "bomb")]
            if BOMB == self.0 { BOMB = 0xfd; crate::hist::explode() }
            if e & FAIL != 0 { return Err(0x10 | me as u8) }
            SER[me] += 1;
            let m = OKM[me];
            USED[me] = m;
            UB |= b;
            LB |= b;
            Ok(Art { node: self.0, serial: SER[me], gen: GEN[me], val: 0 })
        }
    }
    fn init_dyn_state(&self) { unsafe { INI[self.0 as usize] += 1 } }
}

// ---- reference model -----------------------------------------------------

/// Transitive dependents of `m` along `e`, including `m`.
pub fn closure(m: u8, e: &[u8; 4]) -> u8 {
    let mut m = m;
    each_node!(J, if m >> J & 1 != 0 { m |= e[J]; });
    m
}
/// The artifacts in `m` themselves go, with everything built from them.
pub fn model_invalidate(m: u8) {
    unsafe {
        let must = closure(m, &EOK);
        let may = closure(m, &EANY) | must;
        UB &= !must;
        LB &= !may;
        each_node!(J, { EOK[J] &= !must; EANY[J] &= !must; });
    }
}
/// Everything built from `m`, but not `m`.
pub fn model_invalidate_dependents(m: u8) {
    unsafe {
        let mut d = 0; let mut y = 0;
        each_node!(J, if m >> J & 1 != 0 { d |= EOK[J]; y |= EANY[J]; });
        let must = closure(d, &EOK);
        let may = closure(y, &EANY) | must;
        UB &= !must;
        LB &= !may;
        each_node!(J, { EOK[J] &= !must; EANY[J] &= !must; });
    }
}
/// Error code a recomputation of node `k` from nothing ends with; 0 if it
/// succeeds. All builders alive, `DESC` honoured.
pub fn expect(k: usize) -> u8 {
    unsafe {
        let mut code = [0u8; 4];
        each_node!(K, {
            let e = ENV[K];
            let mut x = 0u8;
            if e & TOL == 0 {
                if DESC { each_node!(J, if J < K && e >> J & 1 != 0 && code[J] != 0 { x = code[J]; }); }
                else { each_node!(J, if J < K && e >> J & 1 != 0 && x == 0 { x = code[J]; }); }
            }
            if x == 0 && e & FAIL != 0 { x = 0x10 | K as u8; }
            code[K] = x;
        });
        code[k]
    }
}

/// What `Debug` shows of builders and artifacts.
fn debug_text(_f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    #[cfg(all(feature = "doc", not(kani)))]
    unsafe { if crate::text::DEBUG_TEXT.0 != 0 { return std::fmt::Write::write_char(_f, crate::text::DEBUG_TEXT.0 as char); } }
    Ok(())
}
/// Back to the initial ghost state (native replays run a scenario many times).
pub fn reset() {
    crate::ready::reset();
    crate::blue::reset();
    unsafe {
        ENV = [0; 4]; ALIVE = 0xf; GEN = [0; 4]; ATT = [0; 4]; SER = [0; 4]; USED = [0; 4]; USEDSER = [[0; 4]; 4];
        EXT = 0xf; HOLD = [0; 4]; KIND = [0; 4]; DESC = false; MORE = 0; MEND = false; FLIP = [0; 4]; UB = 0; LB = 0; EOK = [0; 4]; EANY = [0; 4]; KN = 0; DS = 0; INI = [0; 4]; OKM = [0; 4];
        #[cfg(feature = "bomb")]
        { BOMB = 0xfe; }
        #[cfg(feature = "count")]
        { STRONG = 0; WEAK = [0; 4]; ARTS = [0; 4]; }
        #[cfg(feature = "doc")]
        { crate::doc::reset(); crate::text::reset(); }
    }
}

/// Recomputes which builders are alive.
pub fn model_alive() {
    unsafe {
        let mut a = EXT;
        #[cfg(feature = "n4")]
        { if a & 8 != 0 { a |= HOLD[3] & 7; } }
        if a & 4 != 0 { a |= HOLD[2] & 3; }
        if a & 2 != 0 { a |= HOLD[1] & 1; }
        ALIVE = a;
    }
}
/// Known builders that a garbage collection has to keep: the live ones, and
/// whatever a kept one may depend on.
pub fn model_keep() -> u8 {
    unsafe {
        let mut k = ALIVE & KN;
        #[cfg(feature = "n4")]
        { if k & 8 != 0 { each_node!(J, if EANY[J] & 8 != 0 { k |= 1 << J; }); } }
        if k & 4 != 0 { if EANY[0] & 4 != 0 { k |= 1; } if EANY[1] & 4 != 0 { k |= 2; } }
        if k & 2 != 0 && EANY[0] & 2 != 0 { k |= 1; }
        k
    }
}
/// The builders in `m` and all their data are gone.
pub fn model_forget(m: u8) {
    unsafe {
        UB &= !m; LB &= !m; KN &= !m; DS &= !m;
        each_node!(J, { EOK[J] &= !m; EANY[J] &= !m; if m >> J & 1 != 0 { EOK[J] = 0; EANY[J] = 0; } });
    }
}
