//! Source texts with symbolic parts.
use crate::sym;

/// A table of alternatives.  A hole filled from it occupies a fixed number of
/// columns; which alternative stands there is a solver variable.
pub struct Menu {
    pub alts: Vec<String>,
    cols: Vec<[u8; 256]>,
}
impl Menu {
    pub fn new(alts: &[&str]) -> Menu {
        let w = alts.iter().map(|a| a.len()).max().unwrap();
        let mut cols = vec![[b' '; 256]; w];
        for (i, a) in alts.iter().enumerate() {
            for (c, b) in a.bytes().enumerate() {
                cols[c][i] = b;
            }
        }
        Menu { alts: alts.iter().map(|s| s.to_string()).collect(), cols }
    }
    /// a symbolic selector of one of the alternatives
    pub fn sel(&self) -> u8 {
        let s = sym::u8();
        sym::assume((s as usize) < self.alts.len());
        s
    }
    pub fn width(&self) -> usize {
        self.cols.len()
    }
    /// write the alternative `s` (symbolic) in its columns
    pub fn put(&self, out: &mut String, s: u8) {
        for c in &self.cols {
            unsafe { out.as_mut_vec().push(c[s as usize]) };
        }
    }
    pub fn hole(&self, out: &mut String) -> u8 {
        let s = self.sel();
        self.put(out, s);
        s
    }
}

/// log the source on failure/sample for humans; concretising only in the native run
pub fn show(s: &str) {
    sym::log(s);
}

/// one symbolic character of the given UTF-8 length
pub fn push_char(out: &mut String, len: usize) {
    let v = unsafe { out.as_mut_vec() };
    match len {
        1 => {
            let b = sym::u8();
            sym::assume(b < 128);
            v.push(b);
        }
        2 => {
            let b = sym::u8();
            sym::assume(b >= 0xC2 && b <= 0xDF);
            v.push(b);
            cont(v, 0x80, 0xBF);
        }
        3 => {
            let b = sym::u8();
            sym::assume(b >= 0xE0 && b <= 0xEF);
            v.push(b);
            let c = sym::u8();
            sym::assume(c >= 0x80 && c <= 0xBF);
            sym::assume(!(b == 0xE0 && c < 0xA0) && !(b == 0xED && c > 0x9F));
            v.push(c);
            cont(v, 0x80, 0xBF);
        }
        _ => {
            let b = sym::u8();
            sym::assume(b >= 0xF0 && b <= 0xF4);
            v.push(b);
            let c = sym::u8();
            sym::assume(c >= 0x80 && c <= 0xBF);
            sym::assume(!(b == 0xF0 && c < 0x90) && !(b == 0xF4 && c > 0x8F));
            v.push(c);
            cont(v, 0x80, 0xBF);
            cont(v, 0x80, 0xBF);
        }
    }
}
fn cont(v: &mut Vec<u8>, lo: u8, hi: u8) {
    let c = sym::u8();
    sym::assume(c >= lo && c <= hi);
    v.push(c);
}

/// every kind of token of the language, one spelling each (several identifiers)
pub const TOKENS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "=>", "->", ":", ",", ".", "??", "?", "%", "-", "+", "*", "/", "!", "!!", "!=", "==", ">", ">=", "<", "<=", "=", "..", "..=", "&&", "|", "||", "|>", "#", "*=", "/=", "+=", "-=", "if", "else",
    "while", "do", "loop", "for", "in", "break", "continue", "return", "fn", "op", "let", "mut", "const", "class", "super", "is", "match", "enum", "trait", "type", "import", "export", "as", "from", "try", "when", "or", "async",
    "await", "yield", "default", "switch", "true", "false", "null", "7", "7.5", "\"s\"", "k", "v", "self", "new", "Any", "\\", "\\+", "@", "\"", "//",
];
