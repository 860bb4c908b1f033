//! Interface between harnesses and the symbolic engine.  In the IR build these
//! symbols stay undefined and the engine intercepts them; the replay binary
//! defines them natively and feeds recorded inputs.
mod raw {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_choose(n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_fail(id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_observe(v: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_done() -> !;
        pub fn sym_log(p: *const u8, n: usize);
    }
}
#[inline(always)]
pub fn u8() -> u8 {
    unsafe { raw::sym_u8() }
}
#[inline(always)]
pub fn u16() -> u16 {
    unsafe { raw::sym_u16() }
}
#[inline(always)]
pub fn u32() -> u32 {
    unsafe { raw::sym_u32() }
}
#[inline(always)]
pub fn u64() -> u64 {
    unsafe { raw::sym_u64() }
}
/// nondeterministic choice in 0..n; the engine forks, the result is concrete on each path
#[inline(always)]
pub fn choose(n: usize) -> usize {
    unsafe { raw::sym_choose(n as u32) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
/// ask the solver whether `c` can be false on this path
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { raw::sym_assert(c, id) }
}
#[inline(always)]
pub fn fail(id: u32) -> ! {
    unsafe {
        raw::sym_fail(id);
        raw::sym_done()
    }
}
/// vacuity witness
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { raw::sym_reach(id) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { raw::sym_observe(v) }
}
/// fork over every feasible value of `v`
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { raw::sym_concretize(v) }
}
#[inline(always)]
pub fn done() -> ! {
    unsafe { raw::sym_done() }
}
#[inline(always)]
pub fn log(s: &str) {
    unsafe { raw::sym_log(s.as_ptr(), s.len()) }
}
