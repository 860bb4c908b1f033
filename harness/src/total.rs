//! C01: every source text is compiled or rejected.
use crate::{sym, text::*};
use dice_compiler::compiler::Compiler;
use dice_core::source::{Source, SourceKind};

pub fn run(s: String, kind: SourceKind) {
    show(&s);
    let r = Compiler::compile_source(Source::new(s, kind));
    sym::reach(r.is_ok() as u32);
    sym::observe(match &r {
        Ok(_) => 0,
        Err(e) => {
            // an internal error is a crash in disguise
            sym::check(e.error_code() != "E2000", 101);
            e.error_code()[1..].parse::<u64>().unwrap()
        }
    });
}
fn chars(n: usize) {
    let mut s = String::new();
    for _ in 0..n {
        push_char(&mut s, 1);
    }
    run(s, SourceKind::Script)
}
pub fn c01_chars1() {
    chars(1)
}
pub fn c01_chars2() {
    chars(2)
}
pub fn c01_chars3() {
    chars(3)
}
pub fn c01_chars4() {
    chars(4)
}
/// texts of three characters of any UTF-8 length
pub fn c01_utf8() {
    let mut s = String::new();
    for _ in 0..3 {
        push_char(&mut s, 1 + sym::choose(4));
    }
    run(s, SourceKind::Script)
}
fn toks(n: usize, kind: SourceKind) {
    let m = Menu::new(TOKENS);
    let mut s = String::new();
    for _ in 0..n {
        m.hole(&mut s);
        s.push(' ');
    }
    run(s, kind)
}
pub fn c01_toks3() {
    toks(3, SourceKind::Script)
}
pub fn c01_toks3m() {
    toks(3, SourceKind::Module)
}
pub fn c01_toks4() {
    toks(4, SourceKind::Script)
}

/// syntactic surroundings of the symbolic tokens
pub const CONTEXTS: &[(&str, &str)] = &[
    ("fn k() { ", " }"),
    ("fn k() -> v { ", " 7 }"),
    ("class A { ", " }"),
    ("class A { fn m(self) { ", " } }"),
    ("class A: B { fn new(self) { super() ", " } }"),
    ("class A: B { fn new(self, k) { super(k) self.k ", " k } fn m(self) { super.m() } }"),
    ("class A ", " { }"),
    ("op ", "(k) { 7 }"),
    ("op # (k", ") { 7 }"),
    ("class A { op ", "(self, k) { 7 } }"),
    ("fn k(", ") { 7 }"),
    ("fn k(h: v", ") { 7 }"),
    ("fn k() ", " { 7 }"),
    ("fn ", " { 7 }"),
    ("let ", " = 7"),
    ("let mut k = 7 ", " 7"),
    ("let mut k = 7 k ", " 7"),
    ("let { ", " } = k"),
    ("let k = 7 { ", " }"),
    ("let k = ", ""),
    ("import ", " from \"s\""),
    ("import { k, ", " } from \"s\""),
    ("import * ", ""),
    ("export ", " { }"),
    ("export let ", " = 7"),
    ("export { ", " }"),
    ("for ", " { k }"),
    ("for k in 0 ", " 7 { k }"),
    ("for k in v { ", " k }"),
    ("while ", " { k }"),
    ("while k { ", " }"),
    ("loop ", ""),
    ("loop { ", " }"),
    ("loop { k ", " }"),
    ("loop { if k { ", " } break }"),
    ("fn k() { for h in v { ", " } }"),
    ("if k ", " { v }"),
    ("if k { v } ", " { v }"),
    ("if k { v } else { ", " }"),
    ("k ", " v"),
    ("k(", ")"),
    ("k(v ", " v)"),
    ("k[", "]"),
    ("k[v] ", " v"),
    ("k.v ", " v"),
    ("k.", " = v"),
    ("k ", ".v"),
    ("[ ", " ]"),
    ("[ k, ", " v ]"),
    ("# { ", " }"),
    ("# A { ", " }"),
    ("# { k: v ", " k: v }"),
    ("|", "| k"),
    ("|k| ", ""),
    ("k(|v| ", ", 7)"),
    ("( ", " )"),
    ("!", " k"),
    ("-", " k + v"),
    ("k is ", " v"),
    ("k or v ", " { v }"),
    ("k or v { ", " }"),
    ("fn k() { return ", " }"),
    ("fn k() { v!! ", " }"),
    ("k? ", " v"),
    ("fn k() { let v = 7 |h| { v ", " } }"),
    ("fn k() { let mut v = 7 loop { let h = || v ", " } }"),
    ("super", ""),
    ("class A: B { fn m(self) { super", " } }"),
    ("fn k(h) { k(h) ", " h }"),
    ("\"s\" ", " \"s\""),
];
fn ctx(n: usize, kind: SourceKind) {
    let m = Menu::new(TOKENS);
    let c = CONTEXTS[sym::choose(CONTEXTS.len())];
    let mut s = String::from(c.0);
    for _ in 0..n {
        m.hole(&mut s);
        s.push(' ');
    }
    s.push_str(c.1);
    run(s, kind)
}
pub fn c01_ctx1() {
    ctx(1, SourceKind::Script)
}
pub fn c01_ctx2() {
    ctx(2, SourceKind::Module)
}
pub fn c01_ctx3() {
    ctx(3, SourceKind::Script)
}
