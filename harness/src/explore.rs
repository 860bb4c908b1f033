//! Conditions on the outcome of compiling any token sequence in any surrounding
//! construct: C05 errors, C07 well-formed code, C08 balanced code, C21 repeatability.
use crate::{code, sym, text::*, total::CONTEXTS};
use dice_bytecode::{Bytecode, ConstantValue};
use dice_compiler::compiler::Compiler;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};

pub fn ctx(n: usize, kind: SourceKind, f: fn(&Source)) {
    let m = Menu::new(TOKENS);
    let c = CONTEXTS[sym::choose(CONTEXTS.len())];
    let mut s = String::from(c.0);
    for _ in 0..n {
        m.hole(&mut s);
        s.push(' ');
    }
    s.push_str(c.1);
    show(&s);
    f(&Source::new(s, kind))
}
// ------------------------------------------------------------ whole programs with one token changed
/// tokens are separated by single blanks
pub const PROGRAMS: &[(bool, &str)] = &[
    (false, "let mut a = 1 let { b , c } = d a += b . x [ c ] ( 2.5 , \"s\" ) a"),
    (false, "fn f ( p : T , q : U ? ) -> V ? { if p { return q } else if q { f ( q ) !! . x } else { ( ) } } f ( 1 , 2 )"),
    (false, "class B { } class C : B { fn new ( self , a ) { super ( a ) self . a = a } fn m ( self ) { super . m ( ) super [ B ] . n } op + ( self , o ) { - o } fn s ( ) { null } }"),
    (false, "let mut i = 0 while i < 3 && ! g { i += 1 if i == 2 { continue } for j in 0 ..= i { break } } loop { break } for k in g { h ( | | k ) }"),
    (false, "let f = | x , y | { let z = x ?? y | z | z |> g } f ? . a ? [ 1 ] is T ? or e { e }"),
    (false, "let o = # { k : 1 , \"t\" : [ 1 , 2 , ] } o . k = o [ 0 ] = 3 - 2 * ( 4 - 1 )"),
    (false, "fn f ( ) { let mut n = 0 fn g ( ) { n += 1 let h = | | { n } h } while n > 1 { let c = n || g ( ) k ( | | c ) return c } n }"),
    (true, "import * as m , { a , b } from \"x\" export let c = a export fn f ( p ) { b } export class D : m . E { } export c"),
    (true, "import { a } from \"x\" let { b } = a export fn g ( ) -> T { b } op == ( l , r ) { l }"),
];
/// one token of a program is dropped, replaced by any other, or preceded by any other
pub fn edited(from: usize, f: fn(&Source)) {
    let m = Menu::new(TOKENS);
    let (module, p) = PROGRAMS[from + sym::choose(PROGRAMS.len() - from)];
    let words: Vec<&str> = p.split(' ').collect();
    let how = sym::choose(3);
    let at = sym::choose(words.len());
    let mut s = words[..at].join(" ");
    s.push(' ');
    if how > 0 {
        m.hole(&mut s);
        s.push(' ');
    }
    s.push_str(&words[if how == 2 { at } else { at + 1 }..].join(" "));
    show(&s);
    f(&Source::new(s, if module { SourceKind::Module } else { SourceKind::Script }))
}
fn total(s: &Source) {
    match Compiler::compile_source(s.clone()) {
        Ok(_) => sym::reach(1),
        Err(e) => {
            sym::reach(0);
            sym::check(e.error_code() != "E2000", 101);
        }
    }
}
pub fn c01_edit() {
    edited(0, total)
}
pub fn c03_edit() {
    edited(0, crate::tree::account)
}
pub fn c05_edit() {
    edited(0, err)
}
pub fn c07_edit() {
    edited(0, wf)
}
pub fn c08_edit() {
    edited(0, bal)
}
pub fn c21_edit() {
    edited(0, again)
}
fn wf(s: &Source) {
    match Compiler::compile_source(s.clone()) {
        Ok(bc) => {
            sym::reach(1);
            code::check_wellformed(&bc)
        }
        Err(_) => sym::reach(2),
    }
}
fn bal(s: &Source) {
    match Compiler::compile_source(s.clone()) {
        Ok(bc) => {
            sym::reach(1);
            code::check_balanced(&bc)
        }
        Err(_) => sym::reach(2),
    }
}
pub fn c07_ctx1() {
    ctx(1, SourceKind::Module, wf)
}
pub fn c07_ctx2() {
    ctx(2, SourceKind::Script, wf)
}
pub fn c08_ctx1() {
    ctx(1, SourceKind::Script, bal)
}
pub fn c08_ctx2() {
    ctx(2, SourceKind::Module, bal)
}

// ------------------------------------------------------------------- C05
pub fn utf8_boundary(b: &[u8], p: usize) -> bool {
    p == b.len() || p < b.len() && (b[p] < 0x80 || b[p] >= 0xC0)
}
/// the error has a code and a range inside the source
pub fn check_error(e: &Error, s: &Source) {
    let code = e.error_code().as_bytes();
    sym::check(code.len() == 5 && code[0] == b'E' && code[1..].iter().all(|d| *d >= b'0' && *d <= b'9'), 501);
    let (span, src, _) = e.parts();
    let b = s.source().as_bytes();
    match src {
        None => sym::fail(502),
        Some(x) => sym::check(x.source().len() == b.len() && x.source().as_bytes() == b, 503),
    }
    sym::check(span.start <= span.end, 504);
    sym::check(span.end <= b.len(), 505);
    if span.end <= b.len() {
        sym::check(utf8_boundary(b, span.start) && utf8_boundary(b, span.end), 506);
    }
    sym::observe(span.start as u64 * 1000 + span.end as u64);
}
fn err(s: &Source) {
    match Compiler::compile_source(s.clone()) {
        Ok(_) => sym::reach(1),
        Err(e) => {
            sym::reach(2);
            check_error(&e, s)
        }
    }
}
pub fn c05_ctx2() {
    ctx(2, SourceKind::Script, err)
}
pub fn c05_ctx1m() {
    ctx(1, SourceKind::Module, err)
}
/// the text as the language's own text rules would show it
fn strip(s: &str) -> String {
    // the rendering is coloured; drop the escape sequences
    let mut o = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b {
            while i < b.len() && b[i] != b'm' {
                i += 1;
            }
            i += 1;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    unsafe { String::from_utf8_unchecked(o) }
}
fn render(s: &Source) {
    let e = match Compiler::compile_source(s.clone()) {
        Ok(_) => return sym::reach(1),
        Err(e) => e,
    };
    check_error(&e, s);
    let t = strip(&e.to_string());
    show(&t);
    let (span, _, notes) = e.parts();
    let mut lines = t.lines();
    // 1. the message
    let l = lines.next().unwrap_or("");
    let head = format!("error[{}]: ", e.error_code());
    sym::check(l.starts_with(&head) && l.len() > head.len() + 3, 507);
    sym::check(!l.contains("{$") && !l.contains("{ $"), 508);
    // 2. the place
    let src = s.source().as_bytes();
    let (mut line, mut col) = (1, 1);
    for i in 0..span.start {
        if src[i] == b'\n' {
            line += 1;
            col = 1;
        } else if src[i] < 0x80 || src[i] >= 0xC0 {
            col += if src[i] >= 0xF0 { 2 } else { 1 };
        }
    }
    let name = s.path().unwrap_or("<Script>");
    let want = format!("  --> {}:{}:{}", name, line, col);
    // the message may itself span lines
    let mut found = false;
    for l in lines.by_ref() {
        if l == want {
            found = true;
            break;
        }
        sym::check(!l.starts_with("  --> "), 509);
    }
    sym::check(found, 509);
    // 3. the lines
    let mut shown = Vec::new();
    let mut notes_seen = 0;
    for l in lines {
        if l.starts_with("note: ") || l.starts_with("help: ") {
            notes_seen += 1;
            sym::check(l.len() > 8, 510);
        } else if notes_seen == 0 && !l.starts_with("     |") {
            shown.push(l);
        }
    }
    sym::check(notes_seen == notes.len(), 511);
    if span.end > span.start {
        let mut want = Vec::new();
        let (mut at, mut n) = (0, 1);
        for l in s.source().split_inclusive('\n') {
            let end = at + l.len();
            if at < span.end && end > span.start {
                want.push(format!("{:<4} |  {}", n, l.trim_end()));
            }
            at = end;
            n += 1;
        }
        sym::check(want.len() == shown.len(), 512);
        for (a, b) in want.iter().zip(&shown) {
            let words = |x: &str| x.split_whitespace().map(|w| w.to_string()).collect::<Vec<_>>();
            sym::check(words(a) == words(b), 513);
            sym::check(b.contains(a[8..].trim_start()), 513);
        }
    }
    sym::observe(t.len() as u64);
    sym::reach(2);
}
pub fn c05_render1() {
    // load the message catalogue once, before any fork
    let _ = Error::new(dice_core::error::codes::UNTERMINATED_STRING).to_string();
    ctx(1, SourceKind::Script, render)
}

/// one program per reported condition: text before, the construct at fault, text after, code, module?
pub const REJECTED: &[(&str, &str, &str, u32)] = &[
    ("let k = ", ")", " 7", 1000),
    ("let k = ", "match", " 7", 1004),
    ("let ", "7", " = k", 1000),
    ("fn k(", "7", ") { 7 }", 1000),
    ("k(v", "]", "", 1000),
    ("if k { v } else ", "7", "", 1000),
    ("let k = ", "\"a\\q\"", " 7", 1001),
    ("let k = ", "\"abc", "", 1002),
    ("k ", "\\abc", "", 1009),
    ("let k = ", "99999999999999999999", " v", 1007),
    ("@", "", "", 1003),
    ("class A { ", "fn new(self) -> A { 7 }", " }", 2200),
    ("class A { ", "fn new() { 7 }", " }", 2201),
    ("class A { ", "op +(k, v) { 7 }", " }", 2202),
    ("class A: B ", "{ fn new(self) { self.k = 7 } }", "", 2203),
    ("class A { fn new(self) { ", "return 7", " } }", 2204),
    ("let k = ", "super.m", "() 7", 2205),
    ("fn k() { ", "super()", " }", 2205),
    ("class A { ", "fn m(self: A) { 7 }", " }", 2206),
    ("", "fn k(v, v) { 7 }", "", 2207),
    ("k(", "|v, v| 7", ")", 2207),
    ("class A { } ", "class A { }", " 7", 2300),
    ("fn k() { 7 } ", "fn k() { 7 }", " 7", 2301),
    ("", "k = 8", "", 2401),
    ("let k = ", "v", "() fn v() { 7 }", 2402),
    ("let k = 7 ", "k = 8", "", 2403),
    ("let k = 7 ", "k += 8", "", 2403),
    ("fn k() { 7 } ", "k = 8", "", 2403),
    ("let k = 7 fn v() { ", "k = 8", " }", 2403),
    ("", "return 7", "", 2500),
    ("if k { ", "break", " }", 2501),
    ("fn k() { ", "continue", " }", 2502),
    ("let k = ", "v!!", " 7", 2503),
    ("", "export let k = 7", "", 2504),
    ("fn k() { ", "export v", " }", 2504),
    ("", "import from \"s\"", " 7", 2505),
];
fn rejected(render_too: bool) {
    if render_too {
        let _ = Error::new(dice_core::error::codes::UNTERMINATED_STRING).to_string();
    }
    let (a, x, b, want) = REJECTED[sym::choose(REJECTED.len())];
    let kind = if sym::choose(2) == 0 { SourceKind::Script } else { SourceKind::Module };
    let mut s = String::new();
    // anything may stand in a comment before it; then a line break, or none inside a string
    match sym::choose(3) {
        0 => {
            s.push_str("//");
            let at = s.len();
            push_char(&mut s, 1 + sym::choose(4));
            // a line break would end the comment; an escape character is taken for colouring
            sym::assume(s.as_bytes()[at] != 0x1b);
            s.push('\n');
        }
        1 => {
            s.push_str("\"");
            let w = 1 + sym::choose(4);
            let at = s.len();
            push_char(&mut s, w);
            if w == 1 {
                let b = s.as_bytes()[at];
                sym::assume(b != b'"' && b != b'\\' && b != 0x1b);
            }
            s.push_str("\" ");
        }
        _ => (),
    }
    s.push_str(a);
    let lo = s.len();
    s.push_str(x);
    let hi = s.len();
    s.push_str(b);
    show(&s);
    let src = Source::new(s, kind);
    match Compiler::compile_source(src.clone()) {
        Ok(_) => {
            // an export is accepted at the top level of a module
            sym::check(want == 2504 && a.is_empty(), 514);
        }
        Err(e) => {
            let code: u32 = e.error_code()[1..].parse().unwrap();
            if code == want {
                check_error(&e, &src);
                let (span, _, _) = e.parts();
                // the range and the construct at fault overlap (or touch, when either is empty)
                sym::check(span.start <= hi && span.end >= lo && (span.start < hi || hi == lo || span.start == span.end) && (span.end > lo || hi == lo), 515);
                if span.end > lo {
                    sym::reach(want);
                }
            } else {
                sym::fail(516);
            }
        }
    }
    if render_too {
        render(&src);
    }
}
/// the same far into a source, over several lines, in a source with a path
fn far(render_too: bool) {
    if render_too {
        let _ = Error::new(dice_core::error::codes::UNTERMINATED_STRING).to_string();
    }
    let (a, x, b, want) = REJECTED[sym::choose(REJECTED.len())];
    let kind = if sym::choose(2) == 0 { SourceKind::Script } else { SourceKind::Module };
    let mut s = String::new();
    let n = [0, 1, 8, 9, 98, 99, 998, 999, 9998, 9999][sym::choose(10)];
    let long = sym::choose(3);
    if n < 900 && long == 2 {
        // a line that is itself long, with wide characters
        for _ in 0..n {
            s.push_str("\"\u{1f600}é\" ");
        }
    } else {
        sym::assume(long != 2);
        for _ in 0..n {
            s.push('\n');
        }
    }
    let gap = |t: &str| if long == 1 { t.replace(' ', if t.len() % 2 == 0 { "\n \n" } else { " \n\t" }) } else { t.to_string() };
    s.push_str(&gap(a));
    let lo = s.len();
    s.push_str(&if want == 1004 || want == 1001 { x.to_string() } else { gap(x) });
    let hi = s.len();
    s.push_str(&gap(b));
    if long == 1 {
        s.push_str("\n\n");
    }
    if s.len() < 300 {
        show(&s);
    }
    let src = if sym::choose(2) == 1 { Source::with_path(s, "dir/é.dm", kind) } else { Source::new(s, kind) };
    match Compiler::compile_source(src.clone()) {
        Ok(_) => sym::check(want == 2504 && a.is_empty(), 514),
        Err(e) => {
            let code: u32 = e.error_code()[1..].parse().unwrap();
            if code != want {
                sym::fail(516)
            }
            check_error(&e, &src);
            let (span, _, _) = e.parts();
            sym::check(span.start <= hi && span.end >= lo && (span.start < hi || hi == lo || span.start == span.end) && (span.end > lo || hi == lo), 515);
            sym::reach(2);
        }
    }
    if render_too {
        render(&src);
    }
}
pub fn c05_far() {
    far(true)
}
pub fn c05_place() {
    rejected(false)
}
pub fn c05_render_codes() {
    rejected(true)
}
pub fn c05_render2() {
    let _ = Error::new(dice_core::error::codes::UNTERMINATED_STRING).to_string();
    ctx(2, SourceKind::Script, render)
}

// ------------------------------------------------------------------- C21
fn same_bytes(a: &[u8], b: &[u8], id: u32) {
    if a.len() != b.len() {
        sym::fail(id)
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    sym::check(ok, id)
}
fn same_code(a: &Bytecode, b: &Bytecode) {
    if a.slot_count() != b.slot_count() || a.upvalue_count() != b.upvalue_count() || a.constants().len() != b.constants().len() {
        sym::fail(2102)
    }
    same_bytes(code::bytes(a).as_slice(), code::bytes(b).as_slice(), 2103);
    for i in 0..a.constants().len() {
        match (&a.constants()[i], &b.constants()[i]) {
            (ConstantValue::Int(x), ConstantValue::Int(y)) => sym::check(x == y, 2104),
            (ConstantValue::Float(x), ConstantValue::Float(y)) => sym::check(x.to_bits() == y.to_bits(), 2104),
            (ConstantValue::String(x), ConstantValue::String(y)) => same_bytes(x.as_bytes(), y.as_bytes(), 2104),
            (ConstantValue::Symbol(x), ConstantValue::Symbol(y)) => same_bytes(x.as_bytes(), y.as_bytes(), 2104),
            (ConstantValue::Function(x), ConstantValue::Function(y)) => {
                // every anonymous function has a unique generated name
                let fresh = "__anonymous_fn_";
                if !(x.name.starts_with(fresh) && y.name.starts_with(fresh)) {
                    same_bytes(x.name.as_bytes(), y.name.as_bytes(), 2105);
                }
                same_code(&x.bytecode, &y.bytecode);
            }
            _ => sym::fail(2104),
        }
    }
}
/// compile twice; every hash map of the second compilation has another seed
pub fn again(s: &Source) {
    let a = Compiler::compile_source(s.clone());
    // other programs in between must not matter
    let _ = Compiler::compile_source(Source::new("import * as k, {y} from \"n\" fn g(k) { |x| { let l = k l g 1.5 \"t\" } } class c { fn new(self, k) { self.x = k } }".to_string(), SourceKind::Module));
    let _ = Compiler::compile_source(Source::new("let k = 1 { k!! ".to_string(), SourceKind::Script));
    let b = Compiler::compile_source(s.clone());
    match (a, b) {
        (Ok(a), Ok(b)) => {
            sym::reach(1);
            same_code(&a, &b)
        }
        (Err(a), Err(b)) => {
            sym::reach(2);
            same_bytes(a.error_code().as_bytes(), b.error_code().as_bytes(), 2106);
            let (x, y) = (a.parts(), b.parts());
            sym::check(x.0.start == y.0.start && x.0.end == y.0.end, 2107);
            if x.1.is_some() != y.1.is_some() || x.2.len() != y.2.len() {
                sym::fail(2108)
            }
            let (x, y) = (format!("{}", a), format!("{}", b));
            same_bytes(x.as_bytes(), y.as_bytes(), 2108);
        }
        _ => sym::fail(2101),
    }
}
pub fn c21_ctx1() {
    ctx(1, SourceKind::Module, again)
}
pub fn c21_ctx2() {
    ctx(2, SourceKind::Script, again)
}
