//! Blueprints of every kind, of one builder and of different ones, and the
//! handles a doctor gets.
#![allow(static_mut_refs)]
use crate::rt::*;
#[allow(unused_imports)]
use daab::blueprint::*;
use daab::canning::*;
use daab::*;
use std::any::Any;
use std::hash::{Hash, Hasher};

macro_rules! quiet { ($($t:ty)*) => { $( impl std::fmt::Debug for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } )* } }
quiet! { V Z A }

/// How many builders came into being, and are gone. Odd to begin with: see `rt`.
pub static mut GONE: [u8; 3] = [3, 5, 9];
pub fn reset() { unsafe { GONE = [3, 5, 9]; } }
fn gone(i: usize) -> u8 { unsafe { GONE[i] - [3, 5, 9][i] } }

/// A builder with a field, and one without.
pub struct V(pub u8);
pub struct Z;
pub struct A(pub u8);
impl Drop for V { fn drop(&mut self) { unsafe { GONE[(self.0 & 1) as usize] += 1; } } }
impl Drop for Z { fn drop(&mut self) { unsafe { GONE[2] += 1; } } }

macro_rules! builder { ($t:ty, $m:ident, $bin:path, $e:expr) => {
    impl daab::$m::Builder for $t {
        type Artifact = A;
        type DynState = u8;
        type Err = u8;
        fn build(&self, _: &mut daab::$m::Resolver<u8>) -> Result<$bin, u8> { let f: fn(&$t) -> u8 = $e; Ok(<$bin>::new(A(f(self)))) }
        fn init_dyn_state(&self) -> u8 { 0 }
    }
} }
builder!(V, rc, std::rc::Rc<A>, |v| v.0);
builder!(V, arc, std::sync::Arc<A>, |v| v.0);
builder!(Z, rc, std::rc::Rc<A>, |_| 77);
builder!(Z, arc, std::sync::Arc<A>, |_| 77);

/// Keeps all it is fed, in order.
struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u64(&mut self, x: u64) { self.0 = self.0.rotate_left(7) ^ x; }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
}
fn h<T: Hash>(t: &T) -> u64 { let mut m = Mix(1); t.hash(&mut m); m.0 }

/// `$a` and `$b`, of one type, are blueprints of one builder.
macro_rules! same { ($a:expr, $b:expr) => {
    check!("P23", $a == $b && !($a != $b), "blueprints of one builder are equal");
    check!("P23", h(&$a) == h(&$b), "equal blueprints hash alike");
    one!($a, $b);
} }
macro_rules! one { ($a:expr, $b:expr) => {
    check!("P23", $a.id() == $b.id(), "a builder has one identity");
    check!("P23", Promise::id(&$a) == $a.id() && Promise::id(&$b) == $b.id(), "a blueprint has one identity");
    check!("P23", h(&$a.id()) == h(&$b.id()), "equal identities hash alike");
} }
/// `$a` and `$b`, of one type, are blueprints of different builders.
macro_rules! other { ($a:expr, $b:expr) => {
    check!("P23", $a != $b && !($a == $b), "blueprints of different builders differ");
    two!($a, $b);
} }
macro_rules! two { ($a:expr, $b:expr) => { check!("P23", $a.id() != $b.id(), "builders differ in identity"); } }

macro_rules! plain { ($name:ident, $m:ident, $mk:expr, $n:expr) => {
    /// Two builders; copies of the blueprint of one end in any order.
    pub fn $name() {
        let p = { let f = $mk; f(0) };
        let q = daab::$m::Blueprint::from({ let f = $mk; f(1) });
        let p = daab::$m::Blueprint::new(p);
        let c = p.clone();
        let d = c.clone();
        same!(p, c);
        same!(p, d);
        same!(c, d);
        other!(p, q);
        other!(d, q);
        let (i, iq) = (p.id(), q.id());
        let (n, nq): (usize, usize) = $n;
        let g = gone(n);
        let o = inp(0);
        if o & 1 != 0 { drop(p); check!("P23", c.id() == i && c == d, "a blueprint does not depend on others"); drop(c); }
        else { drop(c); check!("P23", p.id() == i && p == d, "a blueprint does not depend on others"); drop(p); }
        check!("P23", gone(n) == g && d.id() == i, "a blueprint keeps its builder");
        if o & 2 != 0 {
            drop(d);
            check!("P23", gone(n) == g + 1, "a builder ends with its last blueprint");
            check!("P23", q.id() == iq, "a builder keeps its identity");
            drop(q);
            check!("P23", gone(nq) == if n == nq { g + 2 } else { 1 }, "a builder ends with its last blueprint");
        }
        witness!(o & 3 == 3, "everything ends");
    }
} }
plain!(rc_v, rc, |x: u8| V(x + (inp(1 + x as usize) & 0xfe)), (0, 1));
plain!(rc_z, rc, |_: u8| Z, (2, 2));
plain!(arc_v, arc, |x: u8| V(x + (inp(1 + x as usize) & 0xfe)), (0, 1));
plain!(arc_z, arc, |_: u8| Z, (2, 2));

macro_rules! dynamic { ($name:ident, $t:expr, $t2:expr, $n:expr) => {
    /// Dynamic blueprints of a builder, and of another of the same type.
    pub fn $name() {
        type D = daab::rc::DynamicBlueprint<A, u8, u8>;
        let n: usize = $n;
        let g = gone(n);
        let p = daab::rc::Blueprint::new($t);
        let a: D = D::from_bp(p.clone());
        let b: D = p.clone().into();
        let c = a.clone();
        let q: D = D::new($t2);
        one!(p, a);
        one!(p, b);
        same!(a, b);
        same!(a, c);
        other!(a, q);
        two!(p, q);
        let i = p.id();
        let o = inp(0);
        drop(p);
        if o & 1 != 0 { drop(a); drop(b); check!("P23", gone(n) == g && c.id() == i, "a blueprint keeps its builder"); drop(c); }
        else { drop(c); drop(b); check!("P23", gone(n) == g && a.id() == i, "a blueprint keeps its builder"); drop(a); }
        check!("P23", gone(n) == g + 1, "a builder ends with its last blueprint");
        drop(q);
        check!("P23", gone(n) == g + 2, "a builder ends with its last blueprint");
        witness!(o & 1 == 1, "everything ends");
    }
} }
dynamic!(dyn_v, V(inp(1) & 0xfe), V(inp(2) & 0xfe), 0);
dynamic!(dyn_z, Z, Z, 2);

#[cfg(feature = "unsized")]
pub mod uns {
    use super::*;
    use daab::rc::BlueprintUnsized as U;
    type D = daab::rc::DynamicBlueprint<A, u8, u8>;
    type Dyn = dyn daab::Builder<daab::rc::CanType, daab::rc::CanType, Artifact = A, DynState = u8, Err = u8>;
    macro_rules! all { ($name:ident, $ty:ty, $t:expr, $t2:expr, $n:expr) => {
        /// Every way to an unsized blueprint leads to the same builder.
        pub fn $name<const W: u8>() {
            let n: usize = $n;
            let g = gone(n);
            let p = daab::rc::Blueprint::new($t);
            let i = p.id();
            let s: U<$ty> = p.clone().into();
            one!(p, s);
            let u: U<Dyn> = match W {
                0 => p.clone().into_unsized(),
                1 => s.clone().into_unsized(),
                2 => U::from_sized(s.clone()),
                3 => U::from_sized_bp(p.clone()),
                4 => p.clone().into(),
                5 => s.clone().into(),
                _ => D::from_bp(p.clone()).into_unsized(),
            };
            same!(u, u.clone());
            one!(p, u);
            one!(s, u);
            let v: U<Dyn> = match W { 0 => U::new_unsized($t2), 1 => U::new($t2).into_unsized(), _ => { let v: U<$ty> = $t2.into(); v.into_unsized() } };
            other!(u, v);
            two!(p, v);
            let o = inp(0);
            drop(s);
            if o & 1 != 0 { drop(u); check!("P23", gone(n) == g && p.id() == i, "a blueprint keeps its builder"); drop(p); }
            else { drop(p); check!("P23", gone(n) == g && u.id() == i, "a blueprint keeps its builder"); drop(u); }
            check!("P23", gone(n) == g + 1, "a builder ends with its last blueprint");
            drop(v);
            check!("P23", gone(n) == g + 2, "a builder ends with its last blueprint");
            witness!(o & 1 == 1, "everything ends");
        }
    } }
    all!(of_v, V, V(inp(1) & 0xfe), V(inp(2) & 0xfe), 0);
    all!(of_z, Z, Z, Z, 2);

    /// An artifact that is itself a blueprint.
    pub fn artifact() {
        type B = BuilderArtifact<daab::rc::CanType>;
        type P<T> = daab::rc::Blueprint<T>;
        let g = gone(0);
        let p = P::new(V(inp(1) & 0xfe));
        let i = p.id();
        let c: B = <B as CanSized<P<V>>>::from_bin(p);
        check!("P23", <B as Can<P<V>>>::bin_as_ptr(&{ let q: Option<P<V>> = <B as CanSized<P<V>>>::downcast_can(c.clone()); match q { Some(q) => q, None => return } }) == c.can_as_ptr() as *const (), "canning a blueprint does not move its builder");
        let w: Option<P<Z>> = <B as CanSized<P<Z>>>::downcast_can(c.clone());
        check!("P23", w.is_none(), "a canned blueprint is not opened as one of another builder type");
        let q: Option<P<V>> = <B as CanSized<P<V>>>::downcast_can(c.clone());
        check!("P23", q.is_some(), "a canned blueprint opens as what was put in");
        if let Some(q) = &q { check!("P23", q.id() == i, "a blueprint out of a can is of the builder put in"); }
        let o = inp(0);
        if o & 1 != 0 { drop(c); check!("P23", gone(0) == g, "a blueprint keeps its builder"); drop(q); }
        else { drop(q); check!("P23", gone(0) == g, "a can keeps its builder"); drop(c); }
        check!("P23", gone(0) == g + 1, "a builder ends with its last blueprint");
        let s = daab::rc::BlueprintUnsized::new(V(2));
        let j = s.id();
        let c: B = <B as CanSized<daab::rc::BlueprintUnsized<V>>>::from_bin(s.clone());
        let q: Option<daab::rc::BlueprintUnsized<V>> = <B as CanSized<daab::rc::BlueprintUnsized<V>>>::downcast_can(c);
        check!("P23", match &q { Some(q) => q.id() == j && *q == s, None => false }, "a canned blueprint opens as what was put in");
        witness!(o & 1 == 1, "the end");
    }
}

/// Handles made in another part of the program.
#[cfg(feature = "diag")]
pub mod elsewhere {
    use super::*;
    use daab::diagnostics::*;
    macro_rules! by_hand { ($m:ident, $can:ty, $bin:path) => {
        #[inline(never)]
        pub fn $m(c: &$can) -> ArtifactHandle<$can> {
            use $bin as Bin;
            let b: Bin<A> = match <$can as CanSized<A>>::downcast_can(c.clone()) { Some(b) => b, None => unreachable!() };
            ArtifactHandle { value: b, type_name: "", dbg_text: String::new() }
        }
    } }
    by_hand!(rc, std::rc::Rc<dyn Any>, std::rc::Rc);
    by_hand!(arc, std::sync::Arc<dyn Any + Send + Sync>, std::sync::Arc);
}

#[cfg(feature = "diag")]
pub mod handles {
    use super::*;
    use daab::diagnostics::*;
    macro_rules! of { ($name:ident, $m:ident, $bin:path, $can:ty, $bcan:ty) => {
        pub fn $name() {
            use $bin as Bin;
            type AC = $can;
            let p = daab::$m::Blueprint::new(V(inp(1) & 0xfe));
            let q = daab::$m::Blueprint::new(V(inp(2) & 0xfe));
            let z = daab::$m::Blueprint::new(Z);
            type H = BuilderHandle<$bcan>;
            let (a, b, c, d) = (H::new(&p), H::new(&p.clone()), H::new(&q), H::new(&z));
            check!("P24", a.id() == p.id() && a.id == p.id() && c.id() == q.id() && d.id() == z.id(), "a builder handle has its builder's identity");
            check!("P24", a == b && a == a.clone(), "handles of one builder are equal");
            check!("P24", a != c && c != d && a != d, "handles of different builders differ");
            check!("P24", h(&a) == h(&b) && h(&a) == h(&a.clone()), "equal builder handles hash alike");
            let mut t = a.clone();
            t.dbg_text = String::from("t");
            t.type_name = "t";
            check!("P24", a == t && h(&a) == h(&t), "handles are not told apart by their texts");
            of!(@dynamic $m p, a, d);
            let g = gone(0);
            drop(p);
            drop(b);
            drop(t);
            check!("P24", gone(0) == g, "a handle keeps its builder");
            let y = inp(3);
            type E = ArtifactHandle<AC>;
            let bin = Bin::new(A(y));
            let at = &*bin as *const A as *const ();
            let e: E = E::new::<A>(bin);
            let f: E = E::new::<A>(Bin::new(A(inp(4))));
            check!("P24", e.value.can_as_ptr() as *const () == at, "an artifact handle holds the artifact itself");
            check!("P24", e != f, "handles of different artifacts differ");
            of!(@clone $m e, f);
            let can = e.into_inner();
            check!("P24", can.can_as_ptr() as *const () == at, "a handle gives back its artifact");
            let r: Option<&A> = can.downcast_can_ref();
            check!("P24", match r { Some(r) => r.0 == y, None => false }, "a handle gives back its artifact");
            drop(a);
            check!("P24", gone(0) == g + 1, "a handle lets go of its builder");
            witness!(y == 3, "the end");
        }
    };
    (@dynamic arc $p:ident, $a:ident, $d:ident) => {};
    (@dynamic $m:ident $p:ident, $a:ident, $d:ident) => {{
        // `V` is a builder for `rc` only, its blueprint is the same for `boxed`.
        let y: daab::rc::DynamicBlueprint<A, u8, u8> = $p.clone().into();
        let y = H::new(&y);
        check!("P24", $a == y && $d != y && h(&$a) == h(&y), "handles of one builder are equal");
    }};
    (@clone boxed $e:ident, $f:ident) => {};
    (@clone $m:ident $e:ident, $f:ident) => {
        let k = $e.clone();
        check!("P24", $e == k && k != $f, "handles of one artifact are equal");
        // The compiler may give `Any` for `A` more than one vtable.
        let k = super::elsewhere::$m(&$e.value);
        check!("P24", $e == k && k != $f, "handles of one artifact are equal");
        check!("P24", h(&$e) == h(&k), "equal artifact handles hash alike");
    };
    }
    of!(rc, rc, std::rc::Rc, std::rc::Rc<dyn Any>, std::rc::Rc<dyn Any>);
    of!(arc, arc, std::sync::Arc, std::sync::Arc<dyn Any + Send + Sync>, std::sync::Arc<dyn Any + Send + Sync>);
    of!(boxed, boxed, std::boxed::Box, Box<dyn Any>, std::rc::Rc<dyn Any>);
}
