//! Histories: `get`, then symbolic operations, then `get` again, each step
//! checked against the reference model.
use crate::rt::*;
use crate::world::*;
#[allow(unused_imports)]
use daab::blueprint::*;
#[allow(unused_imports)]
use daab::cache::*;
use daab::*;

#[cfg(not(feature = "diag"))]
pub type C = Cache<ACan, BCan>;
#[cfg(all(feature = "diag", not(feature = "doc")))]
pub type C = CacheOwned<ACan, BCan>;
#[cfg(feature = "doc")]
pub type C = Cache<ACan, BCan, crate::doc::Rec>;
#[cfg(not(feature = "doc"))]
pub fn new_cache() -> C { C::new() }
#[cfg(feature = "doc")]
pub fn new_cache() -> C { C::new_with_doctor(crate::doc::Rec) }
#[cfg(not(feature = "doc"))]
macro_rules! due { ($($x:tt)*) => {} }
#[cfg(feature = "doc")]
macro_rules! due { ($($x:tt)*) => { $($x)*; } }

pub const INVALIDATE: u8 = 0;
pub const PURGE: u8 = 1;
pub const DYN_MUT: u8 = 2;
pub const CLEAR_ART: u8 = 3;
pub const CLEAR_ALL: u8 = 4;
pub const GC: u8 = 5;
pub const DYN: u8 = 6;
pub const LOOKUP: u8 = 7;
pub const NOP: u8 = 8;
pub const LOOKUP_MUT: u8 = 9;
pub const GET_MUT: u8 = 10;

/// Phase `p`: the nodes in `m` get a new, arbitrary behaviour.
pub fn env(p: usize, m: u8) {
    unsafe { each_node!(J, if m >> J & 1 != 0 { ENV[J] = inp(8 * p + J); }) }
}
/// An arbitrary node.
pub fn node(k: usize) -> u8 {
    let i = inp(k);
    assume((i as usize) < N);
    i
}
pub fn pop(m: u8) -> usize { ((m & 1) + (m >> 1 & 1) + (m >> 2 & 1) + (m >> 3 & 1)) as usize }
pub fn onehot(i: u8) -> u8 { (i == 0) as u8 | ((i == 1) as u8) << 1 | ((i == 2) as u8) << 2 | ((i == 3) as u8) << 3 }
pub fn model_clear() { unsafe { UB = 0; LB = 0; EOK = [0; 4]; EANY = [0; 4]; } }
pub const TOP: u8 = N as u8 - 1;
pub const ALL: u8 = (1 << N) - 1;

pub fn start() -> C {
    env(0, 0xf);
    new_cache()
}

/// Checks the outcome of a `get` of `K` against the model.
pub fn judge<const K: u8>(r: Result<Art, u8>, lb: u8, att: [u8; 4], ser: [u8; 4]) {
    unsafe {
        each_node!(J, {
            check!("P25", (lb >> J & 1 == 0 || ATT[J] == att[J]) && SER[J] - ser[J] <= 1, "what is cached is not built again after a panicking build");
            check!("P01", lb >> J & 1 == 0 || ATT[J] == att[J], "a valid cached artifact is not built again");
            check!("P01", SER[J] - ser[J] <= 1, "each builder builds at most once per get");
        });
        let x = expect(K as usize);
        match r {
            Ok(a) => {
                check!("P25", a.node == K && a.serial == SER[K as usize] && UB >> K & 1 != 0 && x == 0, "a request after a panicking build is answered with the current artifact");
                check!("P01", a.node == K && a.serial == SER[K as usize], "get returns the latest artifact of the builder asked for");
                check!("P14", a.node == K && a.serial == SER[K as usize], "every accessor returns the latest artifact of the builder asked for");
                check!("P02", UB >> K & 1 != 0, "get never returns an invalidated artifact");
                check!("P07", x == 0, "get fails if recomputing would");
            }
            Err(e) => {
                check!("P25", x != 0 && e == x && UB >> K & 1 == 0, "a request after a panicking build fails only as recomputing would");
                check!("P07", x != 0, "get succeeds if recomputing would");
                check!("P07", e == x, "get fails with the error of the builder that failed");
                check!("P07", UB >> K & 1 == 0, "a cached artifact is handed out, not an error");
            }
        }
    }
}
pub fn get<const K: u8>(c: &mut C) {
    let (lb, att, ser) = unsafe { (LB, ATT, SER) };
    let r = c.get(&bp(K));
    judge::<K>(r, lb, att, ser);
}
pub fn get_ref<const K: u8>(c: &mut C) {
    let (lb, att, ser) = unsafe { (LB, ATT, SER) };
    let r = c.get_ref(&bp(K)).map(|a| *a);
    judge::<K>(r, lb, att, ser);
}
pub fn get_cloned<const K: u8>(c: &mut C) {
    let (lb, att, ser) = unsafe { (LB, ATT, SER) };
    let r = c.get_cloned(&bp(K));
    judge::<K>(r, lb, att, ser);
}

/// One operation of kind `O` on an arbitrary node; inputs of phase `p`.
pub fn op<const O: u8>(c: &mut C, p: usize) {
    unsafe {
        match O {
            INVALIDATE => { let i = node(8 * p + 4); let b = onehot(i); c.invalidate(&bp(i)); due!(crate::doc::expect_invalidate(b)); model_invalidate(b); env(p, b); }
            PURGE => { let i = node(8 * p + 4); let b = onehot(i); c.purge(&bp(i)); due!(crate::doc::expect_invalidate(b)); model_invalidate(b); KN &= !b; DS &= !b; env(p, b); }
            DYN_MUT => { let i = node(8 * p + 4); let b = onehot(i); c.dyn_state_mut(&bp(i)); due!(crate::doc::expect_invalidate(b)); model_invalidate(b); KN |= b; DS |= b; env(p, b); }
            CLEAR_ART => { c.clear_artifacts(); model_clear(); env(p, 0xf); }
            CLEAR_ALL => { c.clear_all(); due!(crate::doc::CLR_EXP += 1); model_clear(); KN = 0; DS = 0; env(p, 0xf); }
            GC => { c.garbage_collection(); }
            DYN => { let i = node(8 * p + 4); let b = onehot(i); c.dyn_state(&bp(i)); KN |= b; DS |= b; }
            LOOKUP => {
                let i = node(8 * p + 4);
                let b = bp(i);
                let (x, y, z) = (c.lookup(&b), c.lookup_ref(&b).copied(), c.lookup_cloned(&b));
                check!("P14", x == y && y == z, "all lookups agree");
                check!("P13", UB & onehot(i) != 0 || x.is_none(), "a lookup builds nothing");
                let _ = c.get_dyn_state(&b);
                let _ = c.is_builder_known(&b);
                let _ = c.number_of_known_builders();
            }
            #[cfg(feature = "mutbox")]
            LOOKUP_MUT => {
                let i = node(8 * p + 4);
                let b = onehot(i);
                let l = c.lookup_mut(&bp(i)).map(|a| *a);
                check!("P04", l.is_some() || LB & b == 0, "lookup_mut finds what is cached");
                check!("P04", l.is_none() || UB & b != 0, "lookup_mut returns no invalidated artifact");
                model_invalidate_dependents(b);
            }
            #[cfg(feature = "mutbox")]
            GET_MUT => {
                let i = node(8 * p + 4);
                let b = onehot(i);
                // The dependents go first; then the artifact is built unless
                // it is there.
                let (lb, ub) = (LB, UB);
                let att = ATT;
                model_invalidate_dependents(b);
                let r = c.get_mut(&bp(i)).map(|a| *a);
                let x = if i == 0 { expect(0) } else if i == 1 { expect(1) } else if i == 2 { expect(2) } else { expect(TOP as usize) };
                each_node!(J, check!("P04", onehot(i) != 1 << J || lb >> J & 1 == 0 || ATT[J] == att[J], "a cached artifact is not built again for get_mut"));
                match r {
                    Ok(a) => {
                        each_node!(J, check!("P04", onehot(i) != 1 << J || (a.node == i && a.serial == SER[J]), "get_mut returns the current artifact of the builder asked for"));
                        check!("P04", x == 0 || ub & b != 0, "get_mut fails if recomputing would");
                    }
                    Err(e) => check!("P04", x == e && lb & b == 0, "get_mut fails only as recomputing would"),
                }
            }
            _ => {}
        }
    }
}

/// Compares everything observable with the model.
pub fn settle(c: &C) {
    due!(crate::doc::settle());
    unsafe {
        let mut have = 0u8;
        let mut known = 0u8;
        each_node!(J, {
            const B: u8 = 1 << J;
            let l = c.lookup(&bp(J as u8));
            if let Some(a) = l {
                have |= B;
                check!("P01", a.node == J as u8 && a.serial == SER[J], "lookup returns the latest artifact of the builder asked for");
            }
            check!("P02", l.is_none() || UB & B != 0, "an artifact is gone once it or anything it was built from is invalidated");
            check!("P03", l.is_some() || LB & B == 0, "an artifact stays cached while nothing it was built from is invalidated");
            check!("P04", l.is_none() || UB & B != 0, "everything built from a mutably accessed artifact is gone");
            check!("P04", l.is_some() || LB & B == 0, "mutable access removes nothing else");
            check!("P07", l.is_some() || LB & B == 0, "what was built successfully stays cached, whatever fails");
            check!("P07", l.is_none() || UB & B != 0, "a failed build leaves no artifact");
            check!("P13", l.is_some() || LB & B == 0, "reading removes nothing");
            check!("P13", l.is_none() || UB & B != 0, "reading builds nothing");
            check!("P15", (l.is_some() || LB & B == 0) && (l.is_none() || UB & B != 0), "clearing removes all artifacts, and only what it has to");
            check!("P14", (l.is_some() || LB & B == 0) && (l.is_none() || UB & B != 0), "whichever accessor is used, the dependency is tracked and the artifact cached");
            check!("P25", (l.is_some() || LB & B == 0) && (l.is_none() || UB & B != 0), "a panicked build leaves no artifact, and all others as they were");
            check!("P17", (l.is_some() || LB & B == 0) && (l.is_none() || UB & B != 0), "the same artifacts are cached with diagnostics");
            let k = c.is_builder_known(&bp(J as u8));
            let d = c.get_dyn_state(&bp(J as u8)).is_some();
            if k { known |= B; }
            check!("P12", k == (KN & B != 0), "a builder is known exactly from its first use until it is purged");
            check!("P12", k || (l.is_none() && !d), "an unknown builder has neither artifact nor dynamic state");
            check!("P13", k == (KN & B != 0) && d == (DS & B != 0), "reading makes no builder known and creates no dynamic state");
            check!("P15", k == (KN & B != 0) && d == (DS & B != 0), "clear_all forgets builders and dynamic states, clear_artifacts keeps them");
            check!("P03", d == (DS & B != 0), "dynamic states are not affected by invalidation");
            check!("P25", k == (KN & B != 0) && d == (DS & B != 0), "a panicked build removes no builder and no dynamic state");
            check!("P17", k == (KN & B != 0) && d == (DS & B != 0), "the same builders are known with diagnostics");
        });
        each_node!(J, if have >> J & 1 != 0 {
            check!("P25", USED[J] & !have == 0, "after a panicked build, too, whatever a cached artifact was built from is still cached");
            check!("P02", USED[J] & !have == 0, "whatever a cached artifact was built from is still cached");
            each_node!(I, if I < J && USED[J] >> I & 1 != 0 {
                check!("P25", USEDSER[J][I] == SER[I], "after a panicked build, too, a cached artifact was built from the current artifacts");
                check!("P02", USEDSER[J][I] == SER[I], "a cached artifact was built from the current artifacts of its dependencies");
            });
        });
        check!("P12", c.number_of_known_builders() == pop(known), "number_of_known_builders counts the known builders");
        #[cfg(feature = "count")]
        {
            check!("P21", STRONG == 0, "the cache keeps no builder alive");
            each_node!(J, {
                check!("P21", (WEAK[J] != 0) == (known >> J & 1 != 0), "a weak reference to a builder is kept exactly while it is known");
                check!("P21", ARTS[J] == (have >> J & 1), "removed artifacts are dropped at once");
            });
        }
    }
}
macro_rules! seen { ($c:expr) => { witness!(unsafe { $c }, "the interesting case occurs") } }

/// get; op; get.
pub fn h1<const A: u8>() {
    let mut c = start();
    get::<TOP>(&mut c);
    seen!(USED[2] == 3 && USED[1] == 1);
    op::<A>(&mut c, 1);
    settle(&c);
    get::<TOP>(&mut c);
    settle(&c);
    seen!(UB == ALL && USED[2] == 3 && USED[1] == 1);
}
/// As `h1`, resolving dependencies in descending order.
pub fn h1d<const A: u8>() {
    unsafe { DESC = true; }
    h1::<A>()
}
/// As `h1`, resolving with the accessor of kind `K`.
pub fn h1k<const A: u8, const K: u8>() {
    unsafe { KIND = [K; 4]; }
    h1::<A>()
}
/// As `h1`, each build resolving its dependencies twice.
pub fn h1t<const A: u8>() {
    unsafe { MORE = 1; }
    h1::<A>()
}
/// As `h1t`, where a dependency that failed may behave differently when
/// resolved again.
pub fn h1m<const A: u8>() {
    unsafe { MORE = 1; MEND = true; each_node!(J, FLIP[J] = inp(40 + J)); }
    let mut c = start();
    let _ = c.get(&bp(TOP));
    seen!(USED[2] == 3 && ATT[0] == 2 && SER[0] == 1);
    op::<A>(&mut c, 1);
    settle(&c);
    let _ = c.get(&bp(TOP));
    settle(&c);
    seen!(UB == ALL && ATT[0] == 3 && SER[2] == 2);
}
/// get; op; get another; op; check.
pub fn h2<const A: u8, const G: u8, const B: u8>() {
    let mut c = start();
    get::<TOP>(&mut c);
    op::<A>(&mut c, 1);
    get_any::<G>(&mut c);
    op::<B>(&mut c, 2);
    settle(&c);
    seen!(SER[1] == 2);
}
pub fn get_any<const G: u8>(c: &mut C) { if G == 0 { get::<0>(c) } else if G == 1 { get::<1>(c) } else { get::<2>(c) } }
/// op on the empty cache; get; op; get; op; check.
pub fn h3<const A: u8, const B: u8, const D: u8>() {
    let mut c = start();
    get::<1>(&mut c);
    op::<A>(&mut c, 1);
    get::<TOP>(&mut c);
    op::<B>(&mut c, 2);
    get::<TOP>(&mut c);
    op::<D>(&mut c, 3);
    settle(&c);
    seen!(SER[1] == 3);
}
/// An operation on builders the cache has never seen.
pub fn h0<const A: u8, const B: u8>() {
    let mut c = start();
    op::<A>(&mut c, 1);
    settle(&c);
    op::<B>(&mut c, 2);
    settle(&c);
    seen!(UB == 0);
}
/// Accessors: whichever is used, the same artifact.
pub fn acc<const A: u8>() {
    let mut c = start();
    get_ref::<1>(&mut c);
    get_cloned::<TOP>(&mut c);
    op::<A>(&mut c, 1);
    op::<LOOKUP>(&mut c, 2);
    get_cloned::<1>(&mut c);
    op::<LOOKUP>(&mut c, 3);
    get_ref::<TOP>(&mut c);
    get::<TOP>(&mut c);
    get_cloned::<TOP>(&mut c);
    seen!(UB == ALL && USED[2] == 3 && SER[1] == 2);
}
/// Failing builds, then the cause of failure is removed.
pub fn fail1() {
    let mut c = start();
    get::<TOP>(&mut c);
    seen!(SER[0] == 1 && SER[1] == 0 && ATT[1] == 1);
    settle(&c);
    get::<1>(&mut c);
    seen!(SER[0] == 1 && SER[1] == 0 && ATT[1] == 2);
    op::<DYN_MUT>(&mut c, 1);
    get::<TOP>(&mut c);
    settle(&c);
    seen!(ATT[2] == 2 && SER[2] == 1 && SER[1] == 1);
}

// ---- garbage collection ----------------------------------------------------

/// `garbage_collection`, then what must and must not be left.
pub fn gc(c: &mut C) {
    unsafe {
        let keep = model_keep();
        let lb = LB;
        c.garbage_collection();
        each_node!(J, {
            const B: u8 = 1 << J;
            let k = c.is_builder_known(&bp(J as u8));
            let d = c.get_dyn_state(&bp(J as u8)).is_some();
            let l = c.lookup(&bp(J as u8));
            check!("P25", ALIVE & B == 0 || (k == (KN & B != 0) && d == (DS & B != 0) && (l.is_some() || lb & B == 0)), "collecting after a panicked build keeps what can still be used");
            check!("P25", keep & B != 0 || (!k && !d && l.is_none()), "collecting after a panicked build forgets what is unreachable");
            if ALIVE & B != 0 {
                check!("P09", k == (KN & B != 0), "a builder that can still be used stays known");
                check!("P09", d == (DS & B != 0), "a builder that can still be used keeps its dynamic state");
                check!("P09", l.is_some() || lb & B == 0, "a builder that can still be used keeps its artifact");
                check!("P09", l.is_none() || l.map(|a| a.serial) == Some(SER[J]), "artifacts are left as they are");
            }
            if keep & B == 0 {
                check!("P10", !k, "an unreachable builder is forgotten");
                check!("P10", !d, "the dynamic state of an unreachable builder is removed");
                check!("P10", l.is_none(), "the artifact of an unreachable builder is removed");
            }
        });
        model_forget(KN & !keep);
    }
}
/// The user lets go of some builders.
pub fn release(p: usize) {
    unsafe { EXT &= inp(8 * p + 5); model_alive(); }
}
pub fn hold(p: usize) {
    unsafe { each_node!(J, HOLD[J] = inp(8 * p + J) & ((1 << J) - 1)); }
}
/// get; drop references; gc; and the survivors still work.
pub fn gc1<const G: u8>() {
    let mut c = start();
    hold(1);
    get_any::<G>(&mut c);
    release(2);
    gc(&mut c);
    settle(&c);
    seen!(KN == 0);
    seen!(KN == 1 && ALIVE == 1);
    seen!(KN & 1 != 0 && ALIVE == 2);
}
/// The user lets go of one builder, which nothing else holds.
pub fn release1(p: usize) {
    unsafe { EXT &= !onehot(node(8 * p + 5)); model_alive(); }
}
/// get; op; drop one; gc.
pub fn gc2<const A: u8>() {
    let mut c = start();
    get::<TOP>(&mut c);
    op::<A>(&mut c, 2);
    release1(3);
    gc(&mut c);
    settle(&c);
    seen!(KN & 1 == 0 && USED[2] == 3 && USED[1] == 1);
}
/// get; drop one; gc; get of a survivor; drop another; gc.
pub fn gc3() {
    let mut c = start();
    get::<1>(&mut c);
    release1(2);
    gc(&mut c);
    unsafe { assume(ALIVE & 4 != 0); }
    get_alive::<2>(&mut c);
    release1(3);
    gc(&mut c);
    settle(&c);
    seen!(KN == 4 && SER[2] == 1);
}
/// get; drop the builder; gc; get of another; drop any; gc.
pub fn gc5() {
    let mut c = start();
    get::<1>(&mut c);
    unsafe { EXT = 0b101; model_alive(); }
    gc(&mut c);
    get_alive::<2>(&mut c);
    release1(3);
    gc(&mut c);
    settle(&c);
    seen!(KN == 4 && SER[2] == 1 && SER[1] == 1);
}
/// get of a chain or diamond; everything is dropped; gc.
pub fn gc4() {
    let mut c = start();
    get::<TOP>(&mut c);
    unsafe { EXT = 0; model_alive(); }
    gc(&mut c);
    settle(&c);
    seen!(USED[2] == 3 && USED[1] == 1);
}
/// A get whose outcome is not predicted (some builders are gone).
pub fn get_alive<const K: u8>(c: &mut C) { let _ = c.get(&bp(K)); }

/// A new builder at an address the cache holds no reference to any more.
#[cfg(feature = "count")]
pub fn reuse<const A: u8>() {
    let mut c = start();
    get::<TOP>(&mut c);
    if A != GC { op::<A>(&mut c, 1); release(2); } else { release1(2); c.garbage_collection(); }
    unsafe {
        // Some builder is gone, and the cache does not pin its memory.
        let i = node(3 * 8);
        let b = onehot(i);
        assume(ALIVE & b == 0);
        let w = if i == 0 { WEAK[0] } else if i == 1 { WEAK[1] } else { WEAK[2] };
        assume(w == 0);
        // What is allocated next at its address is a different builder.
        ALIVE |= b; EXT |= b;
        if i == 0 { GEN[0] = 1 } else if i == 1 { GEN[1] = 1 } else { GEN[2] = 1 }
        let n = bp(i);
        check!("P11", !c.is_builder_known(&n), "a new builder is not mistaken for a known one");
        check!("P11", c.get_dyn_state(&n).is_none(), "a new builder does not inherit a dynamic state");
        check!("P11", c.lookup(&n).is_none(), "a new builder does not inherit an artifact");
        let ini = INI;
        let r = disp!(i, b, c.get(&b));
        check!("P11", i != 0 || INI[0] == ini[0] + 1, "the dynamic state is initialised afresh");
        check!("P11", i != 1 || INI[1] == ini[1] + 1, "the dynamic state is initialised afresh");
        check!("P11", i != 2 || INI[2] == ini[2] + 1, "the dynamic state is initialised afresh");
        if let Ok(a) = r { check!("P11", a.node == i && a.gen == 1, "the artifact is the new builder's"); }
        witness!(r.is_ok(), "an address is reused");
    }
}

// ---- panicking builds --------------------------------------------------------

/// A panic ends the execution in the encoding. What a caller does after
/// catching it is therefore run at the point of the panic, on the cache as it
/// is there; daab keeps nothing that unwinding would change. A replay panics,
/// unwinds and catches.
#[cfg(feature = "bomb")]
mod bomb {
    use super::*;
    #[cfg(kani)]
    static mut CACHE: *mut C = 8 as *mut C;
    #[cfg(kani)]
    static mut AFTER: u8 = 0xfc;
    #[cfg(kani)]
    pub fn explode() -> ! {
        unsafe {
            let c = &mut *CACHE;
            match AFTER {
                INVALIDATE => after::<INVALIDATE>(c),
                PURGE => after::<PURGE>(c),
                DYN_MUT => after::<DYN_MUT>(c),
                GC => after::<GC>(c),
                _ => after::<NOP>(c),
            }
            assume(false);
            loop {}
        }
    }
    #[cfg(kani)]
    fn get_caught<const A: u8>(c: &mut C) {
        unsafe { CACHE = c; AFTER = A; }
        let _ = c.get(&bp(TOP));
    }
    #[cfg(not(kani))]
    struct Boom;
    #[cfg(not(kani))]
    pub fn explode() -> ! { std::panic::panic_any(Boom) }
    #[cfg(not(kani))]
    fn get_caught<const A: u8>(c: &mut C) {
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = c.get(&bp(TOP)); })) {
            if !e.is::<Boom>() { std::panic::resume_unwind(e) }
            after::<A>(c)
        }
    }
    /// After the panic: what was in the making may behave differently.
    fn after<const A: u8>(c: &mut C) {
        unsafe { env(2, !UB); }
        settle(c);
        if A == GC {
            release(3);
            gc(c);
        } else {
            op::<A>(c, 3);
            settle(c);
            get::<TOP>(c);
        }
        settle(c);
        // One goal, which the scenario at hand reaches with its own `A`.
        seen!(if A == GC { KN == 0 } else { UB == ALL && USED[2] == 3 && USED[1] == 1 });
    }
    /// get, in which builder `K` panics; op; get.
    pub fn p1<const A: u8, const K: u8>() {
        let mut c = start();
        unsafe { BOMB = K; }
        get_caught::<A>(&mut c);
    }
    /// get; invalidate; get, in which builder `K` panics; op; get.
    pub fn p2<const A: u8, const K: u8>() {
        let mut c = start();
        get::<TOP>(&mut c);
        op::<INVALIDATE>(&mut c, 1);
        unsafe { BOMB = K; }
        get_caught::<A>(&mut c);
    }
}
#[cfg(feature = "bomb")]
pub use bomb::*;
