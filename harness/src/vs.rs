//! Interface to the symbolic executor. Under `--cfg vse` these are external functions that the
//! executor intercepts; natively (replay) they read concrete bytes and record what happened.
#[cfg(vse)]
mod imp {
    extern "C" {
        fn vs_bytes(p: *mut u8, n: usize);
        fn vs_assume(c: bool);
        fn vs_check(c: bool, id: u32);
        fn vs_cover(id: u32);
        fn vs_observe(v: u64);
        fn vs_pick(n: u32) -> u32;
        fn vs_conc(v: u64) -> u64;
        fn vs_param(i: u32) -> u64;
        fn vs_realfmt();
    }
    pub(super) fn fill_(b: &mut [u8]) { unsafe { vs_bytes(b.as_mut_ptr(), b.len()) } }
    pub fn assume(c: bool) { unsafe { vs_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { vs_check(c, id) } }
    pub fn cover(id: u32) { unsafe { vs_cover(id) } }
    pub fn observe(v: u64) { unsafe { vs_observe(v) } }
    pub fn pick(n: u32) -> u32 { unsafe { vs_pick(n) } }
    pub fn conc(v: u64) -> u64 { unsafe { vs_conc(v) } }
    pub fn param(i: u32) -> u64 { unsafe { vs_param(i) } }
    /// formatted strings are made by the real formatting code from here on, not replaced by a stand-in
    pub fn realfmt() { unsafe { vs_realfmt() } }
}
#[cfg(not(vse))]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx { pub params: Vec<u64>, pub input: Vec<u8>, pub pos: usize, pub failed: Vec<u32>, pub covers: Vec<u32>, pub obs: Vec<u64> }
    thread_local!(pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()));
    pub struct Assumed;
    fn next() -> u8 { CTX.with(|c| { let mut c = c.borrow_mut(); let p = c.pos; c.pos += 1; c.input.get(p).copied().unwrap_or(0) }) }
    pub(super) fn fill_(b: &mut [u8]) { for x in b.iter_mut() { *x = next() } }
    pub fn assume(c: bool) { if !c { std::panic::resume_unwind(Box::new(Assumed)) } }
    pub fn check(c: bool, id: u32) { if !c { CTX.with(|x| x.borrow_mut().failed.push(id)) } }
    pub fn cover(id: u32) { CTX.with(|x| x.borrow_mut().covers.push(id)) }
    pub fn observe(v: u64) { CTX.with(|x| x.borrow_mut().obs.push(v)) }
    pub fn pick(n: u32) -> u32 { let v = next() as u32; if v >= n { std::panic::resume_unwind(Box::new(Assumed)) } v }
    pub fn conc(v: u64) -> u64 { v }
    pub fn realfmt() {}
    pub fn param(i: u32) -> u64 { CTX.with(|c| c.borrow().params[i as usize]) }
}
pub use imp::*;
static mut FIXED: u8 = 0;
static mut FEW: bool = false;
static mut STILL: bool = false;
/// from here on (or no longer), nothing is symbolic and nothing is picked
pub fn still(on: bool) { unsafe { STILL = on; FIXED = on as u8 } }
pub fn pick(n: u32) -> u32 { if unsafe { STILL } { 0 } else { imp::pick(n) } }
/// choose among fewer values
pub fn few(on: bool) { unsafe { FEW = on } }
pub fn is_few() -> bool { unsafe { FEW } }
/// from here on (or no longer), fill gives fixed bytes instead of symbolic ones
pub fn fixed(on: bool) { unsafe { FIXED = on as u8; FEW = on } }
pub fn fill(b: &mut [u8]) { unsafe { if FIXED > 0 { for x in b.iter_mut() { *x = FIXED.wrapping_mul(37) & 0x7f; FIXED = (FIXED % 100) + 1 } } else { imp::fill_(b) } } }
pub fn byte() -> u8 { let mut b = [0u8; 1]; fill(&mut b); b[0] }
pub fn u16v() -> u16 { let mut b = [0u8; 2]; fill(&mut b); u16::from_le_bytes(b) }
pub fn u32v() -> u32 { let mut b = [0u8; 4]; fill(&mut b); u32::from_le_bytes(b) }
pub fn u64v() -> u64 { let mut b = [0u8; 8]; fill(&mut b); u64::from_le_bytes(b) }
pub fn n(i: u32) -> usize { param(i) as usize }
