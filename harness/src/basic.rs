use crate::sym;
use dice_compiler::compiler::Compiler;
use dice_core::source::{Source, SourceKind};
fn total(n: usize) {
    let mut s = String::new();
    for _ in 0..n {
        let b = sym::u8();
        sym::assume(b < 128);
        unsafe { s.as_mut_vec().push(b) };
    }
    let r = Compiler::compile_source(Source::new(s, SourceKind::Script));
    sym::reach(r.is_ok() as u32);
    sym::observe(r.is_ok() as u64);
}
pub fn t_total2() { total(2) }
pub fn t_total3() { total(3) }
pub fn t_total4() { total(4) }

pub fn t_cost() {
    let n = sym::choose(4);
    let t = ["", "x", "let h = 1 + y if h { y() } else { h }", "class A { fn new(self, k) { self.k = k; } fn m(self) { self.k } } let h = A(1) for i in 0..3 { h.m(); }"][n];
    let r = Compiler::compile_source(Source::new(t.to_string(), SourceKind::Script));
    sym::observe(r.is_ok() as u64);
}
