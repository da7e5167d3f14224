//! The cans and blueprints that come with daab: `Rc`, `Arc` and `Box`.
use crate::rt::*;
use daab::canning::*;
use daab::*;
use std::any::Any;
use std::rc::Rc;
use std::sync::Arc;

macro_rules! quiet { ($($t:ty)*) => { $( impl std::fmt::Debug for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } )* } }
quiet! { V Z W U }
/// What goes into the cans: plain, of size zero, over-aligned.
#[derive(Clone, Copy, PartialEq, Eq)] pub struct V(pub u8, pub u32);
#[derive(Clone, Copy, PartialEq, Eq)] pub struct Z;
#[derive(Clone, Copy, PartialEq, Eq)] #[repr(align(16))] pub struct W(pub u8);
#[derive(Clone, Copy, PartialEq, Eq)] pub struct U(pub u8);

pub trait Make: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static { fn make(a: u8) -> Self; }
impl Make for V { fn make(a: u8) -> V { V(a, a as u32 * 3) } }
impl Make for Z { fn make(_: u8) -> Z { Z } }
impl Make for W { fn make(a: u8) -> W { W(a) } }

macro_rules! round { ($name:ident, $can:ty, $bin:ident, $strong:tt, $mutable:tt) => {
    pub fn $name<T: Make>() {
        type C = $can;
        let t = T::make(inp(0));
        let bin = <C as CanSized<T>>::into_bin(t);
        let at = <C as Can<T>>::bin_as_ptr(&bin);
        check!("P18", *bin == t, "a bin holds the value put in");
        check!("P18", at == &*bin as *const T as *const (), "a bin's pointer is its value's address");
        #[allow(unused_mut)]
        let mut can: C = <C as CanSized<T>>::from_bin(bin);
        check!("P18", can.can_as_ptr() as *const () == at, "canning does not move the value");
        {
            let r: Option<&T> = can.downcast_can_ref();
            check!("P18", r.is_some() && r.map(|x| x as *const T as *const ()) == Some(at) && r == Some(&t), "a can gives access to its value");
            let w: Option<&U> = can.downcast_can_ref();
            check!("P18", w.is_none(), "a can is not mistaken for another type");
        }
        round!(@mutable $mutable can, T);
        round!(@strong $strong can, T, t, at);
        if inp(1) & 1 != 0 {
            let w: Option<<C as Can<U>>::Bin> = <C as CanSized<U>>::downcast_can(can);
            check!("P18", w.is_none(), "a can is not opened as another type");
        } else {
            let b: Option<<C as Can<T>>::Bin> = <C as CanSized<T>>::downcast_can(can);
            check!("P18", b.is_some(), "a can opens as what was put in");
            if let Some(b) = b { check!("P18", <C as Can<T>>::bin_as_ptr(&b) == at, "opening a can gives the bin put in"); }
        }
        let i: C = <C as CanSized<T>>::from_inner(t);
        let r: Option<&T> = i.downcast_can_ref();
        check!("P18", r == Some(&t), "a can made of a value holds it");
        witness!(inp(1) & 1 == 0, "a can is opened");
    }
};
(@mutable yes $c:ident, $T:ident) => {
    let x = $T::make(inp(2));
    { let w: Option<&mut U> = $c.downcast_can_mut(); check!("P18", w.is_none(), "a can is not mutated as another type"); }
    let m: Option<&mut $T> = $c.downcast_can_mut();
    check!("P18", m.is_some(), "a box gives mutable access");
    if let Some(m) = m { *m = x; }
    { let r: Option<&$T> = $c.downcast_can_ref(); check!("P18", r == Some(&x), "a mutation is seen"); }
};
(@mutable no $c:ident, $T:ident) => {};
(@strong no $c:ident, $T:ident, $t:ident, $at:ident) => {};
(@strong yes $c:ident, $T:ident, $t:ident, $at:ident) => {
    let w = $c.downgrade();
    let u = CanStrong::upgrade_from_weak(&w);
    check!("P18", u.is_some(), "a weak can upgrades while there is a strong one");
    if let Some(u) = u {
        let u: C = u;
        check!("P18", u.can_as_ptr() as *const () == $at, "upgrading leads back to the same value");
        let a = inp(3);
        if a & 1 != 0 { drop($c); check!("P18", <C as CanStrong>::upgrade_from_weak(&w).is_some(), "any strong can keeps the value"); $c = u; }
        else { drop(u); }
        if a & 2 != 0 {
            drop($c);
            check!("P18", <C as CanStrong>::upgrade_from_weak(&w).is_none(), "a weak can does not upgrade without a strong one");
            return;
        }
    }
};
}
round!(rc_can, Rc<dyn Any>, Rc, yes, no);
round!(arc_can, Arc<dyn Any + Send + Sync>, Arc, yes, no);
round!(box_can, Box<dyn Any>, Box, no, yes);
