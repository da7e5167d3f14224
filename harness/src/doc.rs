//! A doctor that counts the events it is told about.
#![allow(static_mut_refs)]
use crate::world::*;
use daab::diagnostics::*;
use daab::*;

/// Events that were due, and those that were reported.
pub static mut RES_EXP: [[u8; 4]; 4] = [[0; 4]; 4];
pub static mut RES: [[u8; 4]; 4] = [[0; 4]; 4];
pub static mut BLD: [u8; 4] = [0; 4];
pub static mut INV_EXP: [u8; 4] = [0; 4];
pub static mut INV: [u8; 4] = [0; 4];
pub static mut CLR_EXP: u8 = 0;
pub static mut CLR: u8 = 0;
pub fn reset() {
    unsafe { RES_EXP = [[0; 4]; 4]; RES = [[0; 4]; 4]; BLD = [0; 4]; INV_EXP = [0; 4]; INV = [0; 4]; CLR_EXP = 0; CLR = 0; }
}

pub struct Rec;
fn is(b: &BuilderHandle<BCan>, i: usize) -> bool { b.id() == bp(i as u8).id() }
impl Doctor<ACan, BCan> for Rec {
    fn resolve(&mut self, b: &BuilderHandle<BCan>, u: &BuilderHandle<BCan>) {
        unsafe { each_node!(J, if is(b, J) { each_node!(I, if is(u, I) { RES[J][I] += 1; }) }) }
    }
    fn build(&mut self, b: &BuilderHandle<BCan>, a: &ArtifactHandle<ACan>) {
        unsafe {
            each_node!(J, if is(b, J) {
                BLD[J] += 1;
                check!("P16", a.value.0.node == J as u8 && a.value.0.serial == SER[J], "a build is reported with the artifact built");
            })
        }
    }
    fn clear(&mut self) { unsafe { CLR += 1; } }
    fn invalidate(&mut self, b: &BuilderHandle<BCan>) { unsafe { each_node!(J, if is(b, J) { INV[J] += 1; }) } }
}
pub fn expect_invalidate(b: u8) { unsafe { each_node!(J, if b >> J & 1 != 0 { INV_EXP[J] += 1; }) } }
/// Everything that happened was reported, once, and nothing else.
pub fn settle() {
    unsafe {
        each_node!(J, {
            check!("P16", BLD[J] == SER[J], "every successful build is reported, once");
            check!("P16", INV[J] == INV_EXP[J], "every requested invalidation is reported, once, and no other");
            each_node!(I, if I < J { check!("P16", RES[J][I] == RES_EXP[J][I], "every resolve is reported, once"); } else { check!("P16", RES[J][I] == 0, "every resolve is reported for the right builders"); });
        });
        check!("P16", CLR == CLR_EXP, "every clearing of everything is reported, once, and no other");
    }
}
