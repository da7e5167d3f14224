//! The textual and the graph doctor.
#![allow(static_mut_refs)]
use crate::rt::*;
use crate::world::*;
use daab::diagnostics::*;
use daab::*;

/// A writer that follows lines and strings, and notes which artifact numbers
/// it is shown.
pub struct Out;
/// All in one place of unusual contents: Kani reads a constant from a static
/// of equal initial contents, changed or not.
pub struct Seen {
    pub lines: u8,
    /// Text after the last line break.
    pub open: bool,
    /// Within a string, after a backslash.
    pub quoted: bool, escaped: bool,
    /// The number artifacts are expected to show.
    pub due: [u8; 2],
    pub shown: u8,
    pub wrong: bool,
    half: Option<u8>,
    number: bool,
    _unusual: u64,
}
const NOTHING: Seen = Seen { lines: 0, open: false, quoted: false, escaped: false, due: [0; 2], shown: 0, wrong: false, half: None, number: false, _unusual: 0x5ee4_5ee4_5ee4_5ee4 };
pub static mut S: Seen = NOTHING;
#[cfg(not(kani))]
static mut LINE: Vec<u8> = Vec::new();
#[cfg(not(kani))]
pub static mut DEBUG_TEXT: (u8, u64) = (0, 0);
#[cfg(kani)]
pub use vstd::DEBUG_TEXT;
pub fn fresh() { unsafe { S.shown = 0; S.wrong = false; S.lines = 0; S.half = None; } }
pub fn reset() { unsafe { S = NOTHING; #[cfg(not(kani))] LINE.clear(); DEBUG_TEXT.0 = 0; } }
fn shown(g: u8, s: u8) { unsafe { S.shown += 1; if [g, s] != S.due { S.wrong = true; } } }
#[cfg(not(kani))]
use std::io;
#[cfg(kani)]
use vstd::io;
impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.write_all(b).map(|_| b.len()) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { let mut i = 0; while i < b.len() { step(b[i]); i += 1; } Ok(()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn step(x: u8) {
    unsafe {
        #[cfg(kani)]
        {
            if S.number {
                S.number = false;
                match S.half { None => S.half = Some(x - 16), Some(g) => { S.half = None; shown(g, x - 16); } }
                return;
            }
            if x == 1 { S.number = true; return; }
        }
        S.open = x != b'\n';
        if x == b'\n' { S.lines += 1; #[cfg(not(kani))] numbers(); }
        #[cfg(not(kani))]
        if x != b'\n' { LINE.push(x); }
        if x == b'"' && !S.escaped { S.quoted = !S.quoted; }
        S.escaped = S.quoted && x == b'\\' && !S.escaped;
    }
}
#[cfg(not(kani))]
unsafe fn numbers() {
    let l = String::from_utf8(std::mem::take(&mut LINE)).unwrap();
    for part in l.split(|c| c == '#' || c == '"').skip(1) {
        let end = part.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(part.len());
        if let Some((g, s)) = part[..end].split_once('.') {
            if let (Ok(g), Ok(s)) = (g.parse(), s.parse()) { shown(g, s); }
        }
    }
}
/// What builders and artifacts look like.
fn debug_text(k: usize) -> u8 { let b = match inp(k) & 3 { 0 => b'a', 1 => b'"', 2 => b'\\', _ => b'\n' }; unsafe { DEBUG_TEXT.0 = b; } b }
const EVENTS: usize = 4;
/// A sequence of arbitrary events.
macro_rules! events { ($d:expr, $lines:expr) => { unsafe {
    let text = debug_text(11);
    let _ = text;
    let b = BuilderHandle::<BCan>::new(&bp(1));
    let u = BuilderHandle::<BCan>::new(&bp(0));
    let a = ArtifactHandle::<ACan>::new(Art { node: 1, serial: 1, gen: 0, val: 0 });
    let (mut gen, mut seq) = (0u8, 0u8);
    for k in 0..EVENTS {
        let e = inp(k) & 3;
        fresh(); S.due = [gen, seq];
        if e == 0 { Doctor::<ACan, BCan>::resolve(&mut $d, &b, &u); }
        else if e == 1 {
            $d.build(&b, &a);
            check!("P22", S.shown > 0 && !S.wrong, "artifacts are numbered consecutively within a generation");
            seq += 1;
        }
        else if e == 2 { Doctor::<ACan, BCan>::clear(&mut $d); gen += 1; seq = 0; }
        else { Doctor::<ACan, BCan>::invalidate(&mut $d, &b); gen += 1; seq = 0; }
        check!("P22", !$lines || S.lines == 1 || text == b'\n', "each event is written as one line");
        check!("P22", !S.open, "each event ends its last line");
        check!("P22", $lines || !S.quoted, "strings in the graph are closed");
    }
    witness!(gen == 1 && seq == 2, "two generations and two artifacts");
} } }
pub fn text1() {
    let mut d = TextualDoc::new(TextualDocOptions { show_builder_values: inp(8) & 1 != 0, show_artifact_values: inp(9) & 1 != 0, show_addresses: inp(10) & 1 != 0, tynm_m_n: None }, Out);
    events!(d, true);
}
pub fn vis1() {
    let mut d = VisgraphDoc::new(VisgraphDocOptions { show_builder_values: inp(8) & 1 != 0, show_artifact_values: inp(9) & 1 != 0 }, Out);
    check!("P22", unsafe { S.lines == 1 && !S.open }, "the graph is opened");
    events!(d, false);
    fresh();
    if inp(10) & 1 != 0 { let _o = d.into_inner(); } else { drop(d); }
    check!("P22", unsafe { S.lines == 1 && !S.open }, "the graph is closed, once");
}
