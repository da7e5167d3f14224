//! What `write!`, `writeln!` and `format!` produce, as far as the checks look
//! at it: quotes, line breaks, the contents of strings and a marker per number.
//! All other text of a template is one `x`. Only used in configurations marked
//! `fmtmodel`.
use crate::io::Write;

/// A template: text as it is, placeholders as `0x80 | argument`, those for the
/// `Debug` text as `0xC0 | argument`.
pub struct Plan { pub n: usize, pub c: [u8; 32] }

const fn same(a: &[u8], from: usize, to: usize, b: &str) -> bool {
    let b = b.as_bytes();
    if to - from != b.len() { return false; }
    let mut i = 0;
    while i < b.len() { if a[from + i] != b[i] { return false; } i += 1; }
    true
}
pub const fn plan(s: &str, names: &[&str], newline: bool) -> Plan {
    let b = s.as_bytes();
    let mut c = [0u8; 32];
    let (mut i, mut n, mut next) = (0, 0, 0u8);
    while i < b.len() {
        let mut x = b[i];
        if x == b'{' && b[i + 1] != b'{' {
            let from = i + 1;
            i += 1;
            while b[i] != b'}' && b[i] != b':' { i += 1; }
            let to = i;
            let mut debug = 0u8;
            while b[i] != b'}' { if b[i] == b'?' { debug = 0x40; } i += 1; }
            let mut idx = 63;
            if to == from { idx = next; next += 1; }
            else if b[from] >= b'0' && b[from] <= b'9' { idx = b[from] - b'0'; }
            else {
                let mut k = 0;
                while k < names.len() { if same(b, from, to, names[k]) { idx = k as u8; } k += 1; }
            }
            x = 0x80 | debug | idx;
        } else {
            if x == b'{' || x == b'}' { i += 1; }
            if x != b'"' && x != b'\n' { x = b'x'; }
        }
        if x != b'x' || n == 0 || c[n - 1] != b'x' { c[n] = x; n += 1; }
        i += 1;
    }
    if newline { c[n] = b'\n'; n += 1; }
    Plan { n, c }
}

#[derive(Clone, Copy)]
pub enum Arg<'a> { Num(u64), Str(&'a str), Other }
/// Tells numbers and strings from other arguments: `Known` wins where it applies.
pub struct Wrap<'a, T: ?Sized>(pub &'a T);
pub trait Known<'a> { fn arg(&self) -> Arg<'a>; }
pub trait Other<'a> { fn arg(&self) -> Arg<'a> { Arg::Other } }
impl<'a> Known<'a> for Wrap<'a, u64> { fn arg(&self) -> Arg<'a> { Arg::Num(*self.0) } }
impl<'a> Known<'a> for Wrap<'a, usize> { fn arg(&self) -> Arg<'a> { Arg::Num(*self.0 as u64) } }
impl<'a, 'b> Known<'a> for Wrap<'a, &'b u64> { fn arg(&self) -> Arg<'a> { Arg::Num(**self.0) } }
impl<'a> Known<'a> for Wrap<'a, str> { fn arg(&self) -> Arg<'a> { Arg::Str(self.0) } }
impl<'a> Known<'a> for Wrap<'a, String> { fn arg(&self) -> Arg<'a> { Arg::Str(self.0.as_str()) } }
impl<'a, 'b> Known<'a> for Wrap<'a, &'b str> { fn arg(&self) -> Arg<'a> { Arg::Str(*self.0) } }
impl<'a, 'b> Known<'a> for Wrap<'a, &'b String> { fn arg(&self) -> Arg<'a> { Arg::Str(self.0.as_str()) } }
impl<'a, T: ?Sized> Other<'a> for &Wrap<'a, T> {}

pub trait Put { fn put(&mut self, b: u8); }
pub struct To<'a, W: ?Sized>(pub &'a mut W);
impl<'a, W: Write + ?Sized> Put for To<'a, W> { fn put(&mut self, b: u8) { let _ = self.0.write_all(&[b]); } }
const ROOM: usize = 40;
/// The text of a `format!`.
pub struct Buf { n: usize, s: String }
impl Buf {
    pub fn new() -> Buf { Buf { n: 0, s: String::with_capacity(ROOM) } }
    pub fn done(mut self) -> String { unsafe { self.s.as_mut_vec().set_len(self.n); } self.s }
}
impl Put for Buf {
    fn put(&mut self, b: u8) {
        if self.n >= ROOM { panic!("VSTD-LIMIT: long text") }
        unsafe { *self.s.as_mut_ptr().add(self.n) = b; }
        self.n += 1;
    }
}
pub fn emit<P: Put>(o: &mut P, p: &'static Plan, args: &[Arg]) {
    let mut i = 0;
    while i < p.n {
        let c = p.c[i];
        i += 1;
        if c < 0x80 { o.put(c); continue; }
        let (k, debug) = ((c & 0x3f) as usize, c & 0x40 != 0);
        match if k < args.len() { args[k] } else { Arg::Other } {
            Arg::Num(n) => { if n > 15 { panic!("VSTD-LIMIT: large number") } o.put(1); o.put(16 + n as u8); }
            Arg::Str(s) => {
                let s = s.as_bytes();
                if debug { o.put(b'"'); }
                let mut j = 0;
                while j < s.len() {
                    let b = s[j];
                    j += 1;
                    if debug && (b == b'"' || b == b'\\' || b == b'\n') { o.put(b'\\'); if b == b'\n' { o.put(b'n'); continue; } }
                    o.put(b);
                }
                if debug { o.put(b'"'); }
            }
            Arg::Other => { if debug { let b = unsafe { crate::DEBUG_TEXT.0 }; if b != 0 { o.put(b); } } else { o.put(b'x'); } }
        }
    }
}
pub trait WriteExt: Write {
    fn put_plan(&mut self, p: &'static Plan, args: &[Arg]) { emit(&mut To(self), p, args) }
}
impl<W: Write + ?Sized> WriteExt for W {}

#[macro_export]
macro_rules! write {
    ($o:expr, $f:literal $($x:tt)*) => {{
        #[allow(unused_imports)]
        use $crate::fmtmodel::WriteExt as _;
        $crate::model_args!((false) ($f) (() ()) { |p, a| $o.put_plan(p, a) } $($x)*);
        ::std::result::Result::<(), ()>::Ok(())
    }};
}
#[macro_export]
macro_rules! writeln {
    ($o:expr) => { $crate::writeln!($o, "") };
    ($o:expr, $f:literal $($x:tt)*) => {{
        #[allow(unused_imports)]
        use $crate::fmtmodel::WriteExt as _;
        $crate::model_args!((true) ($f) (() ()) { |p, a| $o.put_plan(p, a) } $($x)*);
        ::std::result::Result::<(), ()>::Ok(())
    }};
}
#[macro_export]
macro_rules! format {
    ($f:literal $($x:tt)*) => {{
        let mut o = $crate::fmtmodel::Buf::new();
        $crate::model_args!((false) ($f) (() ()) { |p, a| $crate::fmtmodel::emit(&mut o, p, a) } $($x)*);
        o.done()
    }};
}
/// Collects the arguments' names and values.
#[macro_export]
macro_rules! model_args {
    (($nl:expr) ($f:literal) (($($n:expr,)*) ($($a:expr,)*)) { |$p:ident, $s:ident| $do:expr } $(,)?) => {{
        #[allow(unused_imports)]
        use $crate::fmtmodel::{Known as _, Other as _, Wrap};
        static PLAN: $crate::fmtmodel::Plan = $crate::fmtmodel::plan($f, &[$($n,)*], $nl);
        match (&PLAN, &[$((&Wrap(&$a)).arg(),)*] as &[$crate::fmtmodel::Arg]) { ($p, $s) => $do }
    }};
    ($nl:tt $f:tt (($($n:expr,)*) ($($a:expr,)*)) $do:tt , $name:ident = $v:expr $(, $($x:tt)*)?) => {
        $crate::model_args!($nl $f (($($n,)* stringify!($name),) ($($a,)* $v,)) $do $(, $($x)*)?)
    };
    ($nl:tt $f:tt (($($n:expr,)*) ($($a:expr,)*)) $do:tt , $v:expr $(, $($x:tt)*)?) => {
        $crate::model_args!($nl $f (($($n,)* "",) ($($a,)* $v,)) $do $(, $($x)*)?)
    };
}
