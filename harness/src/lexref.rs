//! C02: the token sequence of a source, against a longest-match reference.
use crate::{sym, text::*};
use dice_core::source::{Source, SourceKind};
use dice_syntax::lexer::{Token, TokenKind};

pub enum RefTok {
    Tok(TokenKind, usize, usize),
    /// an error with this code
    Err(u32, usize, usize),
}

const KEYWORDS: &[(&str, TokenKind)] = &[
    ("or", TokenKind::ErrorCoalesce),
    ("false", TokenKind::False),
    ("true", TokenKind::True),
    ("null", TokenKind::Null),
    ("if", TokenKind::If),
    ("else", TokenKind::Else),
    ("while", TokenKind::While),
    ("loop", TokenKind::Loop),
    ("for", TokenKind::For),
    ("break", TokenKind::Break),
    ("continue", TokenKind::Continue),
    ("return", TokenKind::Return),
    ("fn", TokenKind::Function),
    ("let", TokenKind::Let),
    ("mut", TokenKind::Mut),
    ("in", TokenKind::In),
    ("op", TokenKind::Operator),
    ("class", TokenKind::Class),
    ("is", TokenKind::Is),
    ("import", TokenKind::Import),
    ("as", TokenKind::As),
    ("from", TokenKind::From),
    ("export", TokenKind::Export),
    ("super", TokenKind::Super),
    ("await", TokenKind::Reserved),
    ("async", TokenKind::Reserved),
    ("yield", TokenKind::Reserved),
    ("do", TokenKind::Reserved),
    ("const", TokenKind::Reserved),
    ("match", TokenKind::Reserved),
    ("enum", TokenKind::Reserved),
    ("trait", TokenKind::Reserved),
    ("type", TokenKind::Reserved),
    ("try", TokenKind::Reserved),
    ("when", TokenKind::Reserved),
    ("default", TokenKind::Reserved),
    ("switch", TokenKind::Reserved),
];
/// longer spellings before their prefixes
const PUNCT: &[(&str, TokenKind)] = &[
    ("..=", TokenKind::RangeInclusive),
    ("..", TokenKind::RangeExclusive),
    (".", TokenKind::Dot),
    ("->", TokenKind::Arrow),
    ("-=", TokenKind::SubAssign),
    ("-", TokenKind::Minus),
    ("=>", TokenKind::WideArrow),
    ("==", TokenKind::Equal),
    ("=", TokenKind::Assign),
    ("??", TokenKind::Coalesce),
    ("?", TokenKind::QuestionMark),
    ("!!", TokenKind::ErrorPropagate),
    ("!=", TokenKind::NotEqual),
    ("!", TokenKind::Not),
    ("+=", TokenKind::AddAssign),
    ("+", TokenKind::Plus),
    ("*=", TokenKind::MulAssign),
    ("*", TokenKind::Star),
    ("/=", TokenKind::DivAssign),
    ("/", TokenKind::Slash),
    ("%", TokenKind::Remainder),
    (">=", TokenKind::GreaterEqual),
    (">", TokenKind::Greater),
    ("<=", TokenKind::LessEqual),
    ("<", TokenKind::Less),
    ("&&", TokenKind::LazyAnd),
    ("|>", TokenKind::Pipeline),
    ("|", TokenKind::Pipe),
    ("#", TokenKind::Object),
    ("(", TokenKind::LeftParen),
    (")", TokenKind::RightParen),
    ("{", TokenKind::LeftCurly),
    ("}", TokenKind::RightCurly),
    ("[", TokenKind::LeftSquare),
    ("]", TokenKind::RightSquare),
    (":", TokenKind::Colon),
    (",", TokenKind::Comma),
];
fn alpha(b: u8) -> bool {
    (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || b == b'_'
}
fn digit(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
fn starts(s: &[u8], at: usize, w: &str) -> bool {
    let w = w.as_bytes();
    at + w.len() <= s.len() && (0..w.len()).all(|i| s[at + i] == w[i])
}
fn char_len(b: u8) -> usize {
    if b < 0x80 {
        1
    } else if b < 0xE0 {
        2
    } else if b < 0xF0 {
        3
    } else {
        4
    }
}

/// the next token at or after `p`, and where it ends
pub fn next(s: &[u8], mut p: usize) -> Option<RefTok> {
    let n = s.len();
    loop {
        if p >= n {
            return None;
        }
        let b = s[p];
        if b == b' ' || b == b'\t' || b == b'\r' || b == b'\n' || b == 0x0c {
            p += 1;
        } else if b == b'/' && p + 1 < n && s[p + 1] == b'/' {
            while p < n && s[p] != b'\r' && s[p] != b'\n' {
                p += 1;
            }
        } else {
            break;
        }
    }
    let b = s[p];
    if alpha(b) {
        let mut q = p + 1;
        while q < n && (alpha(s[q]) || digit(s[q])) {
            q += 1;
        }
        for (w, k) in KEYWORDS {
            if w.len() == q - p && starts(s, p, w) {
                return Some(RefTok::Tok(k.clone(), p, q));
            }
        }
        return Some(RefTok::Tok(TokenKind::Identifier, p, q));
    }
    if digit(b) {
        let mut q = p + 1;
        while q < n && digit(s[q]) {
            q += 1;
        }
        if q + 1 < n && s[q] == b'.' && digit(s[q + 1]) {
            q += 2;
            while q < n && digit(s[q]) {
                q += 1;
            }
            return Some(RefTok::Tok(TokenKind::Float, p, q));
        }
        return Some(RefTok::Tok(TokenKind::Integer, p, q));
    }
    if b == b'"' {
        let mut q = p + 1;
        loop {
            if q >= n {
                return Some(RefTok::Err(1002, p, p + 1));
            }
            if s[q] == b'\\' {
                if q + 1 >= n {
                    return Some(RefTok::Err(1002, p, p + 1));
                }
                let e = s[q + 1];
                if !(e == b'"' || e == b'\\' || e == b'n' || e == b'r' || e == b't') {
                    return Some(RefTok::Err(1001, p, p + 1));
                }
                q += 2;
            } else if s[q] == b'"' {
                return Some(RefTok::Tok(TokenKind::String, p, q + 1));
            } else {
                q += 1;
            }
        }
    }
    if b == b'\\' {
        let mut q = p + 1;
        while q < n {
            if s[q] == b'\\' {
                return Some(RefTok::Tok(TokenKind::BackslashArg, p, q + 1));
            }
            q += 1;
        }
        return Some(RefTok::Err(1009, p, p + 1));
    }
    for (w, k) in PUNCT {
        if starts(s, p, w) {
            return Some(RefTok::Tok(k.clone(), p, p + w.len()));
        }
    }
    Some(RefTok::Tok(TokenKind::Error, p, p + char_len(b)))
}

/// lex with the implementation and compare, up to the first error
pub fn compare(text: String) {
    show(&text);
    let src = Source::new(text, SourceKind::Script);
    let bytes = src.source().as_bytes();
    let mut it = Token::tokenize(&src);
    let mut p = 0;
    let mut n = 0u64;
    loop {
        let got = it.next();
        let want = next(bytes, p);
        match (got, want) {
            (None, None) => break,
            (None, Some(_)) => sym::fail(201),
            (Some(_), None) => sym::fail(202),
            (Some(Ok(t)), Some(RefTok::Tok(k, a, b))) => {
                sym::check(t.kind == k, 203);
                sym::check(t.span.start == a && t.span.end == b, 204);
                sym::check(t.slice.as_ptr() as usize == bytes.as_ptr() as usize + a && t.slice.len() == b - a, 205);
                sym::observe(b as u64);
                p = b;
                n += 1;
                sym::reach(t.kind.clone() as u32 & 0xff);
            }
            (Some(Err(e)), Some(RefTok::Err(code, a, b))) => {
                sym::check(e.error_code()[1..].parse::<u32>() == Ok(code), 206);
                let (span, source, _) = e.parts();
                sym::check(span.start <= a && span.end >= b && span.end <= bytes.len(), 207);
                sym::check(source.is_some(), 208);
                sym::observe(code as u64);
                sym::reach(1000 + code);
                break;
            }
            (Some(Ok(_)), Some(RefTok::Err(..))) => sym::fail(209),
            (Some(Err(_)), Some(RefTok::Tok(..))) => sym::fail(210),
        }
    }
    sym::observe(n);
}

fn chars(n: usize) {
    let mut s = String::new();
    for _ in 0..n {
        push_char(&mut s, 1);
    }
    compare(s)
}
pub fn c02_chars3() {
    chars(3)
}
pub fn c02_chars4() {
    chars(4)
}
pub fn c02_utf8() {
    let mut s = String::new();
    for _ in 0..3 {
        push_char(&mut s, 1 + sym::choose(4));
    }
    compare(s)
}
fn class(out: &mut String, alphabet: &str) {
    let a: Vec<String> = alphabet.chars().map(|c| c.to_string()).collect();
    let r: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    Menu::new(&r).hole(out);
}
/// a word: an optional letter, a keyword (or reserved word), an optional letter or digit
pub fn c02_words() {
    let w: Vec<&str> = KEYWORDS.iter().map(|(w, _)| *w).chain(["k", "_", "Z9", "self", "orr", "fo", "a_b"].iter().cloned()).collect();
    let k = sym::choose(w.len());
    let mut s = String::new();
    if sym::choose(2) == 1 {
        push_char(&mut s, 1);
    }
    s.push_str(w[k]);
    push_char(&mut s, 1);
    if sym::choose(2) == 1 {
        push_char(&mut s, 1);
    }
    compare(s)
}
/// a keyword with one of its letters replaced by any character
pub fn c02_typo() {
    let k = sym::choose(KEYWORDS.len());
    let w = KEYWORDS[k].0;
    let i = sym::choose(w.len());
    let mut s = String::new();
    s.push_str(&w[..i]);
    push_char(&mut s, 1);
    s.push_str(&w[i + 1..]);
    compare(s)
}
/// numbers, dots and letters
pub fn c02_numbers() {
    let mut s = String::new();
    for _ in 0..6 {
        class(&mut s, "0359.xe_- ");
    }
    compare(s)
}
/// operators glued together
pub fn c02_punct() {
    let mut s = String::new();
    for _ in 0..4 {
        class(&mut s, "=!<>&|?.+-*/%#:,()[]{}\\7k");
    }
    compare(s)
}
/// inside and after a string literal
pub fn c02_strings() {
    let mut s = String::from("k\"");
    for _ in 0..3 {
        let n = [1, 1, 2, 3][sym::choose(2) + 0];
        push_char(&mut s, n);
    }
    if sym::choose(2) == 1 {
        push_char(&mut s, 2 + sym::choose(3));
    }
    s.push_str("\"7");
    compare(s)
}
/// backslash arguments and comments
pub fn c02_comments() {
    comments(3)
}
pub fn c02_comments2() {
    comments(2)
}
fn comments(n: usize) {
    let pre = ["//", "k//", "7 //", "/", "\\", "k\\"][sym::choose(6)];
    let mut s = String::from(pre);
    for _ in 0..n {
        push_char(&mut s, 1);
    }
    if sym::choose(2) == 1 {
        push_char(&mut s, 2 + sym::choose(3));
    }
    s.push_str(["", "\n7", "\r\"k\"", "\\ k"][sym::choose(4)]);
    compare(s)
}
/// two tokens with nothing between them
pub fn c02_pairs() {
    let m = Menu::new(TOKENS);
    let a = sym::choose(TOKENS.len());
    let mut s = String::from(TOKENS[a]);
    m.hole(&mut s);
    compare(s)
}
/// long tokens with an arbitrary character somewhere
pub fn c02_long() {
    let n = [8, 15, 16, 17, 31, 32, 33, 64, 128, 255, 256, 257][sym::choose(12)];
    let (pre, unit) = [("", "a"), ("", "7"), ("\"", "k"), ("//", " k"), ("", " "), ("\\", "k"), ("0.", "7"), ("_", "9"), ("\"", "é"), ("", "+"), ("", "\n")][sym::choose(11)];
    let pos = [0, n / 2, n - 1, n][sym::choose(4)];
    let mut s = String::from(pre);
    for i in 0..n {
        if i == pos {
            push_char(&mut s, 1);
        }
        s.push_str(unit);
    }
    if pos == n {
        push_char(&mut s, 1);
    }
    s.push_str(" k");
    compare(s)
}
