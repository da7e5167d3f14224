//! The ready-made caches of `daab::rc`, `daab::arc` and `daab::boxed`: two
//! builders, `T` needs `M` and `L`, and `M` may need `L`.
//!
//! Builders and artifacts hold no pointers: the solver's memory model loses
//! track of pointers kept in heap memory. The blueprints are in statics.
#![allow(static_mut_refs)]
use crate::hist::*;
use crate::rt::*;
#[allow(unused_imports)]
use daab::blueprint::*;
use daab::*;

pub static mut RUNS: [u8; 2] = [0; 2];
/// What the next build of `M` does: bit 0 resolves `L`, bit 1 fails. A constant
/// of the scenario: with real `Rc`s a symbolic one takes the solver too long.
pub static mut WILL: u8 = 0;
pub fn reset() { unsafe { RUNS = [0; 2]; WILL = 0; rc::LB = None; arc::LB = None; #[cfg(feature = "mutbox")] { boxed::LB = None; } } }

macro_rules! quiet { ($($t:ty)*) => { $( impl std::fmt::Debug for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } )* } }
macro_rules! ready { ($name:ident, $m:ident, $bin:path, $db:ident, $of:expr) => {
pub mod $name {
    use super::*;
    use $bin as Bin;
    use daab::$m as d;
    quiet! { L M LA MA }
    pub struct L(pub u8);
    pub struct M(pub u8);
    pub struct LA(pub u8);
    pub struct MA { pub l: u8, pub run: u8, pub state: u8 }
    type DB = $db!($m);
    pub static mut LB: Option<d::Blueprint<L>> = None;
    /// Where the artifact of `L` was, when last resolved.
    pub static mut AT: *const LA = std::ptr::null();
    impl d::SimpleBuilder for L {
        type Artifact = LA;
        fn build(&self, _: &mut d::Resolver) -> LA { unsafe { RUNS[0] += 1; LA(RUNS[0]) } }
    }
    impl d::Builder for M {
        type Artifact = MA;
        type DynState = u8;
        type Err = u8;
        fn build(&self, r: &mut d::Resolver<u8>) -> Result<Bin<MA>, u8> {
            unsafe {
                RUNS[1] += 1;
                let mut v = 0;
                if WILL & 1 != 0 { if let Some(b) = &LB { if let Ok(l) = r.resolve(b) { v = l.0; AT = &*l; } } }
                if WILL & 2 != 0 { return Err(RUNS[1]) }
                Ok(Bin::new(MA { l: v, run: RUNS[1], state: *r.my_state() }))
            }
        }
        fn init_dyn_state(&self) -> u8 { 7 }
    }
    fn at(b: &Bin<MA>) -> *const MA { &**b }
    /// One removal; the target is `L`, or `M` by either of its blueprints.
    fn remove<const A: u8, const N: u8>(c: &mut d::CacheOwned, l: &d::Blueprint<L>, m: &d::Blueprint<M>, md: &DB, v: u8) {
        macro_rules! on { ($b:expr) => { if A == INVALIDATE { c.invalidate($b) } else { c.purge($b) } } }
        if A == DYN_MUT { if N == 2 { *c.dyn_state_mut(md) = v; } else { *c.dyn_state_mut(m) = v; } }
        else if N == 0 { on!(l) } else if N == 1 { on!(m) } else { on!(md) }
    }
    pub fn first<const A: u8, const G: u8, const N: u8, const W: u8>() {
        let l: d::Blueprint<L> = d::Blueprint::new(L(0));
        let m: d::Blueprint<M> = d::Blueprint::new(M(1));
        let md: DB = $of(m.clone());
        unsafe { LB = Some(l.clone()); }
        let mut c = d::CacheOwned::new();
        check!("P19", !c.is_builder_known(&l) && !c.is_builder_known(&m) && !c.is_builder_known(&md), "a new cache knows nothing");
        check!("P19", l.id() == l.clone().id() && m.id() == md.id() && md.id() == md.clone().id(), "a builder keeps its identity");
        check!("P19", l == l.clone() && md == md.clone(), "blueprints of one builder are equal");
        check!("P19", l.id() != m.id(), "builders differ in identity");
        let w = W;
        unsafe { WILL = W; }
        let a = if G == 0 { c.get(&m) } else { c.get(&md) };
        check!("P19", a.is_ok() == (w & 2 == 0), "the failure of a build reaches the user");
        check!("P19", a.is_ok() || a.as_ref().err() == Some(&1), "the error is the builder's");
        let x = c.lookup(&m);
        let y = c.lookup(&md);
        check!("P19", x.is_some() == a.is_ok() && y.is_some() == a.is_ok(), "exactly a successful build is cached");
        if let (Ok(a), Some(x), Some(y)) = (&a, &x, &y) {
            check!("P19", at(a) == at(x) && at(a) == at(y), "a cached artifact is shared, not copied");
            check!("P19", a.run == 1 && a.state == 7 && a.l == (w & 1), "the artifact is what the builder built");
        }
        drop((x, y));
        {
            let z = c.lookup(&l);
            check!("P19", z.is_some() == (w & 1 != 0), "exactly what was resolved is built");
            if let Some(z) = &z { check!("P19", unsafe { AT } == &**z as *const LA, "a dependency is shared, not copied"); }
        }
        let v = inp(0);
        remove::<A, N>(&mut c, &l, &m, &md, v);
        let gone = A == DYN_MUT || N != 0 || w & 1 != 0;
        let x = c.lookup(&m);
        check!("P19", x.is_some() == (a.is_ok() && !gone), "a removal removes an artifact and its dependents");
        let z = c.lookup(&l);
        check!("P19", z.is_some() == (w & 1 != 0 && (N != 0 || A == DYN_MUT)), "a removal removes no dependency");
        if let Ok(a) = &a {
            check!("P19", a.run == 1 && a.state == 7 && a.l == (w & 1), "an artifact in use outlives its removal");
            check!("P19", Bin::strong_count(a) == if x.is_some() { 3 } else { 1 }, "the cache lets go of what is removed");
        }
        std::mem::forget((x, z));
        unsafe { WILL = 1; }
        let s = if A == DYN_MUT { v } else { 7 };
        let b = c.get(&md);
        check!("P19", b.is_ok(), "a failure is not remembered");
        if let Ok(b) = &b {
            let again = a.is_err() || gone;
            check!("P19", b.run == if again { 2 } else { 1 }, "an artifact is built again exactly if it was removed");
            check!("P19", !again || b.state == s, "a build sees the state");
        }
        witness!(v == 3, "the end");
        std::mem::forget((l, m, md, c, a, b));
    }
} } }
macro_rules! dynamic { ($m:ident) => { d::DynamicBlueprint<MA, u8, u8> } }
// `dyn Builder` is neither `Send` nor `Sync`: there is no such blueprint in an `Arc`.
macro_rules! concrete { ($m:ident) => { d::Blueprint<M> } }
ready!(rc, rc, std::rc::Rc, dynamic, DB::from_bp);
ready!(arc, arc, std::sync::Arc, concrete, std::convert::identity);

#[cfg(feature = "mutbox")]
pub mod boxed {
    use super::*;
    use daab::boxed as d;
    quiet! { L M MA }
    pub struct L(pub u8);
    pub struct M(pub u8);
    #[derive(Clone, Debug)]
    pub struct LA(pub u8);
    #[derive(Clone)]
    pub struct MA { pub l: u8, pub run: u8, pub state: u8 }
    type DB = d::DynamicBlueprint<MA, u8, u8>;
    pub static mut LB: Option<d::Blueprint<L>> = None;
    impl d::SimpleBuilder for L {
        type Artifact = LA;
        fn build(&self, _: &mut d::Resolver) -> LA { unsafe { RUNS[0] += 1; LA(RUNS[0]) } }
    }
    impl d::Builder for M {
        type Artifact = MA;
        type DynState = u8;
        type Err = u8;
        fn build(&self, r: &mut d::Resolver<u8>) -> Result<Box<MA>, u8> {
            unsafe {
                RUNS[1] += 1;
                let mut v = 0;
                if WILL & 1 != 0 { if let Some(b) = &LB { if let Ok(l) = r.resolve_ref(b) { v = l.0; } } }
                if WILL & 2 != 0 { return Err(RUNS[1]) }
                if WILL & 4 != 0 { if let Some(b) = &LB { if let Ok(l) = r.resolve_cloned(b) { v = l.0; } } }
                Ok(Box::new(MA { l: v, run: RUNS[1], state: *r.my_state() }))
            }
        }
        fn init_dyn_state(&self) -> u8 { 7 }
    }
    fn ok(a: &MA, run: u8, l: bool, state: u8) -> bool { a.run == run && a.l == l as u8 && a.state == state }
    /// `A` works on `N`: 0 is `L`, 1 and 2 are `M` by either blueprint; `G` as in `rc`.
    pub fn first<const A: u8, const G: u8, const N: u8, const W: u8>() {
        let l: d::Blueprint<L> = d::Blueprint::new(L(0));
        let m: d::Blueprint<M> = d::Blueprint::new(M(1));
        let md: DB = DB::from_bp(m.clone());
        unsafe { LB = Some(l.clone()); WILL = W; }
        let mut c = d::CacheOwned::new();
        check!("P19", !c.is_builder_known(&l) && !c.is_builder_known(&m) && !c.is_builder_known(&md), "a new cache knows nothing");
        check!("P19", m.id() == md.id() && md.id() == md.clone().id() && l.id() != m.id(), "builders have an identity");
        let (fails, dep) = (W & 2 != 0, W & 5 != 0);
        let v = inp(0);
        let mut at: *const MA = std::ptr::null();
        match if G == 0 { c.get_ref(&m) } else { c.get_ref(&md) } {
            Ok(a) => { at = a; check!("P19", !fails && ok(a, 1, dep, 7), "the artifact is what the builder built"); }
            Err(e) => { check!("P19", fails && e == 1, "the error is the builder's"); }
        }
        let x = if G == 0 { c.lookup_ref(&md) } else { c.lookup_ref(&m) };
        check!("P19", x.is_some() == !fails, "exactly a successful build is cached");
        if let Some(x) = x { check!("P19", x as *const MA == at && ok(x, 1, dep, 7), "a lookup returns the cached artifact itself"); }
        let z = c.lookup_ref(&l);
        check!("P19", z.is_some() == (W & 1 != 0 || W & 4 != 0 && !fails), "exactly what was resolved is built");
        if let Some(z) = z { check!("P19", z.0 == 1, "the artifact is what the builder built"); }
        let mut changed = false;
        macro_rules! on { ($f:ident) => { if N == 0 { c.$f(&l) } else if N == 1 { c.$f(&m) } else { c.$f(&md) } } }
        match A {
            INVALIDATE => on!(invalidate),
            PURGE => on!(purge),
            DYN_MUT => if N == 2 { *c.dyn_state_mut(&md) = v } else { *c.dyn_state_mut(&m) = v },
            LOOKUP_MUT => {
                if N == 0 { if let Some(a) = c.lookup_mut(&l) { a.0 = v; } }
                else {
                    let a = if N == 1 { c.lookup_mut(&m) } else { c.lookup_mut(&md) };
                    check!("P19", a.is_some() == !fails, "a mutable lookup finds what is cached");
                    if let Some(a) = a { check!("P19", a as *const MA == at, "a mutable lookup returns the cached artifact itself"); a.state = v; changed = true; }
                }
            }
            _ => {
                if N == 0 { if let Ok(a) = c.get_mut(&l) { a.0 = v; } }
                else if let Ok(a) = if N == 1 { c.get_mut(&m) } else { c.get_mut(&md) } { a.state = v; changed = true; }
            }
        }
        let gone = fails || match A { DYN_MUT => true, _ if N == 0 => dep, LOOKUP_MUT | GET_MUT => false, _ => true };
        {
            let x = c.lookup_ref(&m);
            check!("P19", x.is_some() == !gone, "a removal removes an artifact and its dependents");
            if let Some(x) = x { check!("P19", ok(x, 1, dep, if changed { v } else { 7 }), "a kept artifact is as it was left"); }
        }
        unsafe { WILL = 1; }
        let state = if A == DYN_MUT { v } else { 7 };
        let b = c.get_cloned(&md);
        check!("P19", b.is_ok(), "a failure is not remembered");
        if let Ok(b) = &b {
            if gone { check!("P19", b.run == unsafe { RUNS[1] } && b.run > 1 && b.state == state, "an artifact is built again exactly if it was removed"); }
            else { check!("P19", ok(b, 1, dep, if changed { v } else { 7 }), "an artifact is built again exactly if it was removed"); }
        }
        check!("P19", match (c.lookup_cloned(&m), &b) { (Some(x), Ok(b)) => x.run == b.run && x.l == b.l && x.state == b.state, _ => false }, "a clone equals the cached artifact");
        check!("P19", c.lookup_ref(&l).is_some(), "a rebuilt artifact has its dependencies");
        witness!(v == 3, "the end");
        std::mem::forget((l, m, md, c, b));
    }
}
