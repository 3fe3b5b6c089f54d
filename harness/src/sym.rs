//! Symbolic-execution intrinsics. Under /verif/symex they are interpreted symbolically; under /verif/replay they
//! read a recorded input vector, so that the same harness runs natively on the real code.
extern "C-unwind" {
    fn sym_u8() -> u8;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_out(tag: u32, v: u64);
    fn sym_conc(v: u64) -> u64;
    fn sym_param(i: u32) -> u64;
    fn sym_fmt_stub(on: bool);
    fn sym_split_loads(on: bool);
}
/// a fresh symbolic byte
pub fn any() -> u8 { unsafe { sym_u8() } }
/// a fresh symbolic byte below n
pub fn below(n: u8) -> u8 { let b = any(); assume(b < n); b }
pub fn any_u16() -> u16 { let l = any(); let h = any(); l as u16 | (h as u16) << 8 }
pub fn any_vec(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(any()); } v }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
/// the property assertion: decided by the solver over all values of the symbolic bytes on this path
pub fn check(c: bool, id: u32) { unsafe { sym_assert(c, id) } }
/// reachability witness: the orchestrator fails the run when a required id is never reached
pub fn cover(id: u32) { unsafe { sym_cover(id) } }
/// observable output, compared with the native run of the same inputs
pub fn out(tag: u32, v: u64) { unsafe { sym_out(tag, v) } }
pub fn out_bytes(tag: u32, v: &[u8]) { out(tag, v.len() as u64); for b in v { out(tag, *b as u64); } }
/// split the path over the values of v
pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
pub fn param(i: u32) -> u64 { unsafe { sym_param(i) } }
/// replace core::fmt::write by an empty body from here on (engine only)
pub fn fmt_stub(on: bool) { unsafe { sym_fmt_stub(on) } }
/// from here on, split the path over the index of a load that depends on several inputs
pub fn split_loads(on: bool) { unsafe { sym_split_loads(on) } }
