//! The builders of `daab::utils`, wrapped around builders of the world: nodes
//! 0 and 1 as there, the utility builder in place of node 2.
#![allow(static_mut_refs)]
use crate::hist::*;
use crate::rt::*;
use crate::world::*;
use daab::blueprint::*;
#[allow(unused_imports)]
use daab::cache::*;
use daab::canning::*;
use daab::utils::*;
use daab::*;

/// Bin of a utility builder.
pub struct WBin<W: 'static>(pub &'static W);
impl<W> Clone for WBin<W> { fn clone(&self) -> Self { WBin(self.0) } }
impl<W> std::fmt::Debug for WBin<W> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<W> AsRef<W> for WBin<W> { fn as_ref(&self) -> &W { self.0 } }
macro_rules! cans { ($( [$($g:tt)*] $t:ty; )*) => { $(
    impl<$($g)*> Can<$t> for BCan { type Bin = WBin<$t>; fn bin_as_ptr(_: &WBin<$t>) -> *const () { 6 as *const () } }
    impl<$($g)*> CanSized<$t> for BCan {
        fn into_bin(t: $t) -> WBin<$t> { WBin(Box::leak(Box::new(t))) }
        fn from_bin(_: WBin<$t>) -> Self { BCan::hold(2) }
        fn downcast_can(self) -> Option<WBin<$t>> { None }
    }
)* } }
pub type Ip = Blueprint<INode, BCan>;
cans! {
    [] ForwardingBuilder<Bp>;
    [] ClonedBuilder<Bp>;
    [] RedeemingBuilder<Bp, Art>;
    [] FeigningBuilder<Ip, u8>;
    [] ConstBuilder<ACan, BCan, Art, Art>;
    [] ConfigurableBuilder<ACan, BCan, Art>;
    [F: 'static] FunctionalBuilder<ACan, BCan, F, Art, u8>;
}

/// Node 1 again, but never failing: it makes do without node 0.
pub struct INode;
impl std::fmt::Debug for INode { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
#[derive(Clone)]
pub struct IBin;
impl std::fmt::Debug for IBin { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
static INODE: INode = INode;
impl AsRef<INode> for IBin { fn as_ref(&self) -> &INode { &INODE } }
impl Can<INode> for BCan { type Bin = IBin; fn bin_as_ptr(_: &IBin) -> *const () { 5 as *const () } }
impl CanSized<INode> for BCan {
    fn into_bin(_: INode) -> IBin { IBin }
    fn from_bin(_: IBin) -> Self { BCan::hold(1) }
    fn downcast_can(self) -> Option<IBin> { Some(IBin) }
}
impl Builder<ACan, BCan> for INode {
    type Artifact = Art;
    type DynState = ();
    type Err = Never;
    fn build(&self, r: &mut Resolver<ACan, BCan, ()>) -> Result<Art, Never> {
        unsafe {
            if ENV[1] & 1 != 0 { let _ = r.resolve(&bp(0)); }
            ATT[1] += 1;
            SER[1] += 1;
            Ok(Art { node: 1, serial: SER[1], gen: 0, val: 0 })
        }
    }
    fn init_dyn_state(&self) {}
}

fn some_art(k: usize) -> Art { Art { node: 7, serial: inp(k), gen: inp(k + 1), val: inp(k + 2) } }

/// One removal at node 0, 1 or the utility builder; gives the target.
fn uop<const A: u8, W, I>(c: &mut C, p: usize, w: &W, i1: &I) -> u8
where W: Promise<BCan = BCan>, I: Promise<BCan = BCan>, BCan: Can<W::Builder> + Can<I::Builder>, W::Builder: Builder<ACan, BCan>, I::Builder: Builder<ACan, BCan> {
    let t = node(8 * p + 4);
    match A {
        INVALIDATE => { if t == 0 { c.invalidate(&bp(0)) } else if t == 1 { c.invalidate(i1) } else { c.invalidate(w) } }
        _ => { if t == 0 { c.purge(&bp(0)) } else if t == 1 { c.purge(i1) } else { c.purge(w) } }
    }
    if t < 2 { env(p, onehot(t)); }
    t
}

/// Builders that pass on what one other builder builds.
macro_rules! passing { ($name:ident, $t:ty, $inner:expr, $code:expr) => {
    pub fn $name<const A: u8, const B: u8>() {
        let mut c = start();
        let i1 = $inner;
        let w: Blueprint<$t, BCan> = Blueprint::new(<$t>::new($inner));
        macro_rules! look { () => { (c.lookup(&i1), c.lookup(&w)) } }
        macro_rules! request { () => {{
            let (_, b) = look!();
            let att = unsafe { ATT[1] };
            let r: Result<Art, u8> = c.get(&w);
            let (i, x) = look!();
            check!("P20", r.is_err() || r == Ok(i.unwrap_or(Art { node: 9, serial: 0, gen: 0, val: 0 })), "a passing builder's artifact is the wrapped builder's");
            check!("P20", (r.is_ok() && $code == 0) || (r.is_err() && r == Err($code)), "a passing builder fails exactly as the wrapped builder does");
            check!("P20", x == r.ok(), "the artifact of a passing builder is cached");
            check!("P20", b.is_none() || unsafe { ATT[1] } == att, "a request of a cached passing builder builds nothing");
        }} }
        macro_rules! remove { ($o:ident, $p:literal) => {{
            let (i, x) = look!();
            let t = uop::<$o, _, _>(&mut c, $p, &w, &i1);
            let (i2, x2) = look!();
            check!("P20", x2.is_none() || x2 == i2, "a passing builder's artifact is gone once the wrapped builder's is");
            check!("P20", t != 2 || i2 == i, "removing a passing builder's artifact leaves the wrapped builder's");
            check!("P20", t == 2 || x.is_none() || i2.is_none() || x2 == x, "a passing builder's artifact stays with the wrapped builder's");
            check!("P20", t != 2 || x2.is_none(), "a removed artifact is gone");
        }} }
        request!();
        remove!(A, 1);
        request!();
        remove!(B, 2);
        request!();
        witness!(unsafe { SER[1] == 3 && SER[0] == 3 }, "everything is built three times");
    }
} }
passing!(forwarding, ForwardingBuilder<Bp>, bp(1), expect(1));
passing!(cloning, ClonedBuilder<Bp>, bp(1), expect(1));
passing!(feigning, FeigningBuilder<Ip, u8>, Ip::new(INode), 0);

/// `RedeemingBuilder`: the last good artifact, or the default.
pub fn redeeming<const A: u8, const B: u8>() {
    let mut c = start();
    let default = if inp(40) & 1 != 0 { Some(some_art(41)) } else { None };
    let w: Blueprint<RedeemingBuilder<Bp, Art>, BCan> = Blueprint::new(RedeemingBuilder::new(bp(1), default));
    let mut last = default;
    // `false` if the cached artifact stems from an earlier success.
    let mut fresh = false;
    macro_rules! request { () => {{
        let b = c.lookup(&w);
        let x = expect(1);
        // Documented to panic otherwise.
        assume(b.is_some() || x == 0 || last.is_some());
        let r = match c.get(&w) { Ok(a) => Some(a), Err(_) => None };
        if b.is_some() {
            check!("P20", r == b, "a cached redeeming builder is not built again");
        } else if x == 0 {
            check!("P20", r.is_some() && r == c.lookup(&bp(1)), "a redeeming builder builds what the wrapped builder builds");
            last = r;
            fresh = true;
        } else {
            check!("P20", r.is_some() && r == last, "a redeeming builder falls back to the last artifact or the default");
            fresh = false;
        }
        check!("P20", c.lookup(&w) == r, "the artifact of a redeeming builder is cached");
        check!("P20", c.get_dyn_state(&w).copied() == Some(last), "a redeeming builder remembers the last artifact");
    }} }
    macro_rules! remove { ($o:ident, $p:literal) => {{
        let (i, x) = (c.lookup(&bp(1)), c.lookup(&w));
        let t = uop::<$o, _, _>(&mut c, $p, &w, &bp(1));
        let (i2, x2) = (c.lookup(&bp(1)), c.lookup(&w));
        if t == 2 {
            check!("P20", x2.is_none() && i2 == i, "removing a redeeming builder's artifact removes that one only");
            if $o == PURGE { last = default; }
        } else {
            check!("P20", !fresh || x.is_none() || x2.is_none() || x2 == i2, "a redeeming builder's artifact is gone once what it was built from is");
            check!("P20", !fresh || x.is_none() || i2.is_none() || x2 == x, "a redeeming builder's artifact stays with the wrapped builder's");
        }
    }} }
    request!();
    remove!(A, 1);
    request!();
    remove!(B, 2);
    request!();
    witness!(!fresh && unsafe { SER[1] == 2 }, "a fallback after two successes");
    witness!(!fresh && default.is_some() && last == default, "a fallback to the default");
}

/// `ConstBuilder` and `ConfigurableBuilder`.
pub fn constant() {
    let mut c = start();
    let v = some_art(40);
    let w: Blueprint<ConstBuilder<ACan, BCan, Art, Art>, BCan> = if inp(43) & 1 != 0 { Blueprint::from(v) } else { Blueprint::new(ConstBuilder::new(v)) };
    macro_rules! request { () => {{
        let r = match c.get(&w) { Ok(a) => Some(a), Err(_) => None };
        check!("P20", r == Some(v), "a constant builder builds its constant");
    }} }
    request!();
    let _ = uop::<INVALIDATE, _, _>(&mut c, 1, &w, &bp(1));
    request!();
    let _ = uop::<PURGE, _, _>(&mut c, 2, &w, &bp(1));
    request!();
    witness!(c.lookup(&w) == Some(v), "a constant is cached");
}
pub fn configurable() {
    let mut c = start();
    let v = some_art(40);
    let mut cur = v;
    let w: Blueprint<ConfigurableBuilder<ACan, BCan, Art>, BCan> = if inp(43) & 1 != 0 { Blueprint::from(v) } else { Blueprint::new(ConfigurableBuilder::new(v)) };
    macro_rules! request { () => {{
        let r = match c.get(&w) { Ok(a) => Some(a), Err(_) => None };
        check!("P20", r == Some(cur), "a configurable builder builds what it is set to");
    }} }
    macro_rules! set { ($k:literal) => { if inp($k) & 1 != 0 {
        cur = some_art($k + 1);
        let s = c.dyn_state_mut(&w);
        s.serial = cur.serial; s.gen = cur.gen; s.val = cur.val;
    } } }
    set!(44);
    request!();
    set!(48);
    request!();
    let t = uop::<PURGE, _, _>(&mut c, 1, &w, &bp(1));
    if t == 2 { cur = v; }
    request!();
    set!(52);
    let _ = uop::<INVALIDATE, _, _>(&mut c, 2, &w, &bp(1));
    request!();
    witness!(cur != v && t != 2, "a changed configuration survives");
}
/// `FunctionalBuilder`: the closure is run on the state, once per build.
pub fn functional() {
    let mut c = start();
    let init = inp(40);
    let thr = inp(41);
    let mut cur = init;
    let mut cached: Option<u8> = None;
    let w: Blueprint<FunctionalBuilder<ACan, BCan, _, Art, u8>, BCan> = Blueprint::new(FunctionalBuilder::with_state(init, move |s: &mut u8| {
        *s = s.wrapping_mul(3).wrapping_add(1);
        if *s > thr { return Err(*s) }
        Ok(Art { node: 2, serial: 0, gen: 0, val: *s })
    }));
    macro_rules! request { () => {{
        let r: Result<Art, u8> = c.get(&w);
        if let Some(x) = cached {
            check!("P20", r.is_ok() && r.map(|a| a.val).ok() == Some(x), "a cached functional builder is not run again");
        } else {
            cur = cur.wrapping_mul(3).wrapping_add(1);
            if cur > thr { check!("P20", r == Err(cur), "a functional builder fails as its closure does"); }
            else { check!("P20", r.map(|a| a.val).ok() == Some(cur), "a functional builder builds what its closure gives"); cached = Some(cur); }
        }
        check!("P20", c.get_dyn_state(&w) == Some(&cur), "the closure is run on the state, once");
    }} }
    request!();
    let t = uop::<INVALIDATE, _, _>(&mut c, 1, &w, &bp(1));
    if t == 2 { cached = None; }
    request!();
    let t = uop::<PURGE, _, _>(&mut c, 2, &w, &bp(1));
    if t == 2 { cached = None; cur = init; }
    request!();
    if inp(42) & 1 != 0 { cur = inp(43); *c.dyn_state_mut(&w) = cur; cached = None; }
    request!();
    witness!(cached.is_some() && cur != init, "a closure was run");
}
