//! Inputs, checks and vacuity witnesses; symbolic under Kani, concrete in a
//! native replay.

/// Number of input bytes a scenario may use.
pub const NI: usize = 64;

#[cfg(kani)]
mod imp {
    /// Every symbolic input is stored here, at a constant index, so that the
    /// value the solver chose can be read off a counterexample trace.
    pub static mut INP: [u8; super::NI] = [0; super::NI];
    #[inline(always)]
    pub fn inp(k: usize) -> u8 {
        let v: u8 = kani::any();
        unsafe { INP[k] = v; INP[k] }
    }
    #[inline(always)]
    pub fn assume(c: bool) { kani::assume(c) }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static INPUTS: RefCell<Vec<u8>> = RefCell::new(Vec::new());
        pub static FAILS: RefCell<Vec<(&'static str, &'static str)>> = RefCell::new(Vec::new());
    }
    /// Thrown when the inputs are not a case of the scenario.
    pub struct Assumption;
    pub fn inp(k: usize) -> u8 { INPUTS.with(|i| i.borrow().get(k).copied().unwrap_or(0)) }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Assumption) } }
}
pub use imp::*;
