//! C06 literals, C15/C16 positions, C17 instruction codec and disassembler.
use crate::{code, explore::utf8_boundary, sym, text::*};
use dice_bytecode::{Bytecode, BytecodeCursor, ConstantValue, FunctionBytecode, Instruction};
use dice_compiler::compiler::Compiler;
use dice_core::source::{LineIndex, Source, SourceKind};
use dice_core::span::Span;

// ---------------------------------------------------------------- C15, C16
/// `n` characters of any UTF-8 length; returns the text and the start of each character
fn any_text(n: usize, widths: &[usize]) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut at = vec![];
    for _ in 0..n {
        at.push(s.len());
        push_char(&mut s, widths[sym::choose(widths.len())]);
    }
    at.push(s.len());
    (s, at)
}
fn position(n: usize, widths: &[usize]) {
    let (s, at) = any_text(n, widths);
    show(&s);
    let li = LineIndex::new(&s);
    // any character boundary
    let k = sym::u8() as usize;
    sym::assume(k < at.len());
    let mut off = 0;
    for (i, a) in at.iter().enumerate() {
        if i == k {
            off = *a;
        }
    }
    let got = li.position_of(off);
    let (mut line, mut col) = (0usize, 0usize);
    let b = s.as_bytes();
    for i in 0..n {
        if i < k {
            let w = at[i + 1] - at[i];
            if w == 1 && b[at[i]] == b'\n' {
                line += 1;
                col = 0;
            } else {
                col += if w == 4 { 2 } else { 1 };
            }
        }
    }
    sym::check(got.line == line, 1501);
    sym::check(got.column_utf16 == col, 1502);
    sym::observe(got.line as u64);
    sym::observe(got.column_utf16 as u64);
    sym::reach(1 + line as u32);
    sym::reach(20 + col as u32);
}
pub fn c15_pos4() {
    position(4, &[1, 2, 3, 4])
}
pub fn c15_pos5() {
    position(5, &[1, 2, 3, 4])
}
pub fn c15_pos6() {
    position(6, &[1, 2, 3, 4])
}
/// longer texts of one- and four-byte characters
pub fn c15_pos8() {
    position(8, &[1, 4])
}
/// many lines: every line break pattern of ASCII text
pub fn c15_ascii() {
    position(10, &[1])
}

fn range_lines(n: usize, widths: &[usize]) {
    let (s, at) = any_text(n, widths);
    show(&s);
    let li = LineIndex::new(&s);
    let len = s.len();
    let b = s.as_bytes();
    let (a, z) = (sym::u8() as usize, sym::u8() as usize);
    sym::assume(a <= z && z <= len);
    let a = sym::conc(a as u64) as usize;
    let z = sym::conc(z as u64) as usize;
    let got: Vec<Span> = li.lines(Span::new(a..z)).collect();
    // whole lines, from the line of the first byte to the line of the last byte
    let last = if a == z { a } else { z - 1 };
    let mut lo = a;
    while lo > 0 && b[lo - 1] != b'\n' {
        lo -= 1;
    }
    let mut hi = last;
    while hi < len && b[hi] != b'\n' {
        hi += 1;
    }
    if hi < len {
        hi += 1;
    }
    if a == z {
        // an empty range: at most its own line
        sym::check(got.len() <= 1, 1601);
        for g in &got {
            sym::check(g.start == lo && g.end == hi, 1602);
        }
        sym::reach(2);
    } else {
        let mut p = lo;
        for g in &got {
            sym::check(g.start == p && g.end > g.start && g.end <= hi, 1603);
            for i in g.start..g.end {
                if i < len {
                    let nl = b[i] == b'\n';
                    sym::check(nl == (i + 1 == g.end) || (!nl && g.end == len), 1604);
                }
            }
            p = g.end;
        }
        sym::check(p == hi, 1605);
        sym::reach(10 + got.len() as u32);
    }
    sym::observe(got.len() as u64);
}
pub fn c16_lines4() {
    range_lines(4, &[1, 3])
}
pub fn c16_lines6() {
    range_lines(6, &[1])
}
pub fn c16_lines8() {
    range_lines(8, &[1])
}
pub fn c16_utf4() {
    range_lines(4, &[1, 2, 3, 4])
}

// ---------------------------------------------------------------- C17
pub fn c17_codec() {
    let b = sym::u8();
    sym::assume(b <= code::LAST);
    let i = Instruction::from(b);
    let back: u8 = i.into();
    sym::check(back == b, 1701);
    sym::check(i as u8 == b, 1702);
    sym::observe(back as u64);
}
/// a cursor over 6 arbitrary bytes, 4 arbitrary steps
pub fn c17_cursor() {
    const N: usize = 6;
    let mut d = [0u8; N];
    for x in d.iter_mut() {
        *x = sym::u8();
    }
    let mut c = BytecodeCursor::new(&d);
    let mut p = 0usize;
    let mut last = 0usize;
    for _ in 0..4 {
        match sym::choose(5) {
            0 => {
                if p + 1 > N {
                    sym::done();
                }
                sym::check(c.read_u8() == d[p], 1703);
                p += 1;
            }
            1 => {
                if p + 2 > N {
                    sym::done();
                }
                let want = ((d[p] as u16) << 8 | d[p + 1] as u16) as i16;
                sym::check(c.read_offset() == want, 1704);
                p += 2;
            }
            2 => {
                if p < N {
                    sym::assume(d[p] <= code::LAST);
                }
                match c.read_instruction() {
                    None => sym::check(p == N, 1705),
                    Some(i) => {
                        sym::check(p < N, 1706);
                        sym::check(i as u8 == d[p], 1707);
                        last = p;
                        p += 1;
                    }
                }
            }
            3 => {
                let t = sym::u8() as usize;
                sym::assume(t <= N);
                c.set_position(t as u64);
                p = sym::conc(t as u64) as usize;
            }
            _ => {
                let o = sym::u16() as i16;
                let t = p as i64 + o as i64;
                sym::assume(t >= 0 && t <= N as i64);
                c.offset_position(o);
                p = sym::conc(t as u64) as usize;
            }
        }
        sym::check(c.position() == p as u64, 1708);
        sym::check(c.remaining() == (N - p) as u64, 1709);
        sym::check(c.last_instruction_offset() == last as u64, 1710);
        sym::reach(1);
    }
    sym::observe(p as u64);
}
const NAMES: &[&str] = &[
    "PUSH_NULL", "PUSH_UNIT", "PUSH_FALSE", "PUSH_TRUE", "PUSH_I0", "PUSH_I1", "PUSH_F0", "PUSH_F1", "PUSH_CONST", "POP", "DUP", "SWAP", "CREATE_ARRAY", "CREATE_OBJECT", "CREATE_CLOSURE", "INHERIT_CLASS", "LOAD_MODULE",
    "LOAD_GLOBAL", "STORE_GLOBAL", "LOAD_LOCAL", "STORE_LOCAL", "ASSIGN_LOCAL", "LOAD_FIELD", "STORE_FIELD", "ASSIGN_FIELD", "LOAD_INDEX", "STORE_INDEX", "ASSIGN_INDEX", "LOAD_UPVALUE", "STORE_UPVALUE", "ASSIGN_UPVALUE",
    "CLOSE_UPVALUE", "LOAD_FIELD_TO_LOCAL", "LOAD_METHOD", "STORE_METHOD", "NEG", "NOT", "MUL", "DIV", "REM", "ADD", "SUB", "GT", "GTE", "LT", "LTE", "EQ", "NEQ", "IS", "RANGE_INCLUSIVE", "RANGE_EXCLUSIVE", "JUMP",
    "JUMP_IF_FALSE", "JUMP_IF_TRUE", "CALL", "CALL_SUPER", "RETURN", "ASSERT_BOOL", "ASSERT_TYPE_FOR_LOCAL", "ASSERT_TYPE_OR_NULL_FOR_LOCAL", "ASSERT_TYPE_AND_RETURN", "ASSERT_TYPE_OR_NULL_AND_RETURN",
];
fn dec(mut n: i64) -> String {
    let neg = n < 0;
    if neg {
        n = -n;
    }
    let mut d = vec![];
    loop {
        d.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    for c in d.iter().rev() {
        s.push(*c as char);
    }
    s
}
fn line(out: &mut String, pos: usize, op: u8, args: &str) {
    out.push_str(&dec(pos as i64));
    out.push_str(" | ");
    for d in [op >> 4, op & 15] {
        out.push((if d < 10 { b'0' + d } else { b'A' + d - 10 }) as char);
    }
    out.push_str(" | ");
    out.push_str(NAMES[op as usize]);
    out.push_str(" | ");
    out.push_str(args);
    out.push('\n');
}
/// `n` instructions with arbitrary opcodes and operands, disassembled
fn disassemble(n: usize) {
    let inner = Bytecode::new(vec![Instruction::PushUnit as u8].into_boxed_slice(), 1, 2, Vec::new().into_boxed_slice());
    let mut data = vec![];
    let mut want = String::from("Code\n--------\n");
    for _ in 0..n {
        let pos = data.len();
        let b = sym::u8();
        sym::assume(b <= code::LAST);
        let b = sym::conc(b as u64) as u8;
        data.push(b);
        let mut byte = |data: &mut Vec<u8>| {
            // one, two and three digit operands, all sign combinations of offsets
            let v = sym::u8();
            if n == 1 {
                sym::assume(v < 3 || v > 253 || v == 10 || v == 99 || v == 100);
            } else {
                sym::assume(v == 7 || v == 200);
            }
            let v = sym::conc(v as u64) as u8;
            data.push(v);
            v
        };
        let mut a = String::new();
        match code::args(Instruction::from(b)) {
            code::Args::None => (),
            code::Args::One => {
                a.push_str("const=");
                a.push_str(&dec(byte(&mut data) as i64));
            }
            code::Args::Two => {
                let x = byte(&mut data);
                let y = byte(&mut data);
                a.push_str("const=");
                a.push_str(&dec(x as i64));
                a.push_str(" slot=");
                a.push_str(&dec(y as i64));
            }
            code::Args::Off => {
                let x = byte(&mut data);
                let y = byte(&mut data);
                a.push_str("offset=");
                a.push_str(&dec(((x as u16) << 8 | y as u16) as i16 as i64));
            }
            code::Args::Closure => {
                data.push(0);
                a.push_str("const=0        |");
                for _ in 0..2 {
                    let k = sym::choose(2) as u8;
                    data.push(k);
                    let i = byte(&mut data);
                    a.push_str(if k == 1 { " (parent_local=" } else { " (upvalue=" });
                    a.push_str(&dec(i as i64));
                    a.push(')');
                }
            }
        }
        line(&mut want, pos, b, &a);
    }
    want.push_str("\nFunction: \"f\"\n--------\nCode\n--------\n");
    line(&mut want, 0, Instruction::PushUnit as u8, "");
    want.push('\n');
    let f = ConstantValue::Function(FunctionBytecode { bytecode: inner, name: "f".to_string(), id: Default::default() });
    let bc = Bytecode::new(data.into_boxed_slice(), 0, 0, vec![f].into_boxed_slice());
    let got = bc.to_string();
    show(&got);
    // compared word by word within each line, whatever the columns' widths
    let trim = |s: &str| s.lines().filter(|l| !l.trim().is_empty()).map(|l| l.split(|c| c == ' ' || c == '|').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>();
    sym::check(trim(&got) == trim(&want), 1711);
    sym::observe(got.len() as u64);
}
pub fn c17_disasm1() {
    disassemble(1)
}
pub fn c17_disasm2() {
    disassemble(2)
}

// ---------------------------------------------------------------- C06
#[derive(Debug, PartialEq, Clone)]
pub enum Lit {
    Int(i64),
    Float(u64),
    Str(Vec<u8>),
    True,
    False,
    Null,
    Unit,
    Sym(Vec<u8>),
}
/// the literal an instruction pushes
pub fn pushed(bc: &Bytecode, o: &code::Op) -> Option<Lit> {
    Some(match o.ins {
        Instruction::PushI0 => Lit::Int(0),
        Instruction::PushI1 => Lit::Int(1),
        Instruction::PushF0 => Lit::Float(0f64.to_bits()),
        Instruction::PushF1 => Lit::Float(1f64.to_bits()),
        Instruction::PushTrue => Lit::True,
        Instruction::PushFalse => Lit::False,
        Instruction::PushNull => Lit::Null,
        Instruction::PushUnit => Lit::Unit,
        Instruction::PushConst => match bc.constants().get(o.a as usize)? {
            ConstantValue::Int(i) => Lit::Int(*i),
            ConstantValue::Float(f) => Lit::Float(f.to_bits()),
            ConstantValue::String(s) => Lit::Str(s.clone().into_bytes()),
            _ => return None,
        },
        Instruction::LoadGlobal => match bc.constants().get(o.a as usize)? {
            ConstantValue::Symbol(s) => Lit::Sym(s.clone().into_bytes()),
            _ => return None,
        },
        _ => return None,
    })
}
fn same(a: &Lit, b: &Lit) -> bool {
    match (a, b) {
        (Lit::Str(x), Lit::Str(y)) | (Lit::Sym(x), Lit::Sym(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let mut e = true;
            for i in 0..x.len() {
                e &= x[i] == y[i];
            }
            e
        }
        (Lit::Int(x), Lit::Int(y)) => x == y,
        (Lit::Float(x), Lit::Float(y)) => x == y,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}
/// the literals a program made only of `[lit, lit, ...]` pushes
fn compiled_literals(text: &str) -> Result<Vec<Lit>, u32> {
    show(text);
    match Compiler::compile_source(Source::new(text.to_string(), SourceKind::Script)) {
        Err(e) => Err(e.error_code()[1..].parse().unwrap()),
        Ok(bc) => {
            let v = match code::decode(&bc) {
                Ok(v) => v,
                Err(e) => sym::fail(e),
            };
            Ok(v.iter().filter_map(|o| pushed(&bc, o)).collect())
        }
    }
}
fn expect(text: &str, want: &[Lit]) {
    match compiled_literals(text) {
        Err(_) => sym::fail(601),
        Ok(got) => {
            sym::check(got.len() == want.len(), 602);
            for (g, w) in got.iter().zip(want) {
                sym::check(same(g, w), 603);
            }
            sym::observe(got.len() as u64);
            sym::reach(1);
        }
    }
}
fn digits(s: &mut String, n: usize) -> u128 {
    let mut v = 0u128;
    for _ in 0..n {
        let d = sym::u8();
        sym::assume(d >= b'0' && d <= b'9');
        unsafe { s.as_mut_vec().push(d) };
        v = v.wrapping_mul(10).wrapping_add((d - b'0') as u128);
    }
    v
}
/// every decimal integer of up to 9 digits
pub fn c06_int() {
    let n = 1 + sym::choose(9);
    let mut s = String::new();
    let v = digits(&mut s, n);
    expect(&s, &[Lit::Int(v as i64)]);
}
/// long integers: a fixed beginning (around 2^31, 2^32, 2^53, 2^63, 2^64) and 3 arbitrary digits
pub fn c06_int_limit() {
    const P: &[u128] = &[9223372036854775, 922337203685477, 18446744073709551, 9007199254740, 4294967, 2147483, 99999999999999999, 1000000000000000, 0];
    let k = sym::choose(P.len());
    let mut s = String::new();
    // leading zeros do not matter
    if sym::choose(2) == 1 {
        s.push_str("000000000000000000000");
    }
    if P[k] != 0 {
        s.push_str(&(P[k] as u64).to_string());
    }
    // 922337203685477 5807 needs four
    let n = if P[k] == 922337203685477 { 4 } else { 3 };
    let t = digits(&mut s, n);
    let v = P[k].wrapping_mul(if n == 4 { 10000 } else { 1000 }).wrapping_add(t);
    match compiled_literals(&s) {
        Err(c) => {
            sym::check(c == 1007, 604);
            sym::check(v > i64::MAX as u128, 606);
            sym::reach(2);
            sym::observe(c as u64);
        }
        Ok(got) => {
            sym::check(v <= i64::MAX as u128, 605);
            sym::check(got.len() == 1 && same(&got[0], &Lit::Int(v as i64)), 603);
            sym::reach(1);
            sym::observe(1);
        }
    }
}
/// floats with few digits: the value is the correctly rounded quotient of two exact integers
pub fn c06_float() {
    let (a, b) = [(1, 1), (2, 1), (1, 2)][sym::choose(3)];
    let mut s = String::new();
    let mut v = 0u64;
    for i in 0..a + b {
        if i == a {
            s.push('.');
        }
        let d = sym::u8();
        sym::assume(d >= b'0' && d <= b'9');
        let d = sym::conc(d as u64) as u8;
        s.push(d as char);
        v = v * 10 + (d - b'0') as u64;
    }
    let f = v as f64 / [1.0, 10.0, 100.0, 1000.0][b];
    expect(&s, &[Lit::Float(f.to_bits())]);
}
/// floats that need exact rounding
pub fn c06_float_hard() {
    const H: &[(&str, u64)] = &[
        ("0.1", 0x3fb999999999999a),
        ("0.3", 0x3fd3333333333333),
        ("1.0", 0x3ff0000000000000),
        ("0.0", 0),
        ("00001.5", 0x3ff8000000000000),
        ("9007199254740993.0", 0x4340000000000000),
        ("9007199254740995.0", 0x4340000000000002),
        ("123456789012345678.25", 0x437b69b4ba630f35),
        ("0.30000000000000004", 0x3fd3333333333334),
        ("3.141592653589793238462643", 0x400921fb54442d18),
        ("0.000000000000000000000000000001", 0x39b4484bfeebc2a0),
        ("100000000000000000000000.0", 0x44b52d02c7e14af6),
        ("18446744073709551616.0", 0x43f0000000000000),
    ];
    let k = sym::choose(H.len());
    expect(H[k].0, &[Lit::Float(H[k].1)]);
}
/// a float next to a value that may be treated specially, up to four steps away
fn near(s: &mut String, bases: &[f64]) -> Lit {
    let b = bases[sym::choose(bases.len())].to_bits();
    let d = sym::choose(9) as u64;
    sym::assume(b + d >= 4);
    let bits = b + d - 4;
    let t = format!("{}", f64::from_bits(bits));
    s.push_str(&t);
    if !t.contains('.') {
        s.push_str(".0");
    }
    Lit::Float(bits)
}
pub fn c06_float_near() {
    let mut s = String::new();
    let l = near(&mut s, &[0.0, 1.0, 2.0, 0.5, 0.1, 1.5, 10.0, 100.0, 255.0, 256.0, 65536.0, 4294967296.0, 9007199254740992.0, 1e15, 9.223372036854775807e18, 1e-5, 2.220446049250313e-16, 1e-300, 2.2250738585072014e-308, 1e300]);
    expect(&s, &[l]);
}
/// two floats that differ by little or nothing
pub fn c06_float_pair() {
    let b = [&[0.0][..], &[1.0], &[0.1], &[2.5], &[1e15], &[1e-7]][sym::choose(6)];
    let mut s = String::new();
    let x = near(&mut s, b);
    s.push(' ');
    let y = near(&mut s, b);
    expect(&s, &[x, y]);
}
/// string literals with three arbitrary characters: exactly what stands between the quotes
pub fn c06_string() {
    let n = sym::choose(4);
    let mut s = String::from("\"");
    for _ in 0..n {
        let w = 1 + sym::choose(4);
        let at = s.len();
        push_char(&mut s, w);
        if w == 1 {
            let b = s.as_bytes()[at];
            sym::assume(b != b'"' && b != b'\\');
        }
    }
    let body = s.as_bytes()[1..].to_vec();
    s.push('"');
    expect(&s, &[Lit::Str(body)]);
}
fn any_lit(s: &mut String) -> Lit {
    match sym::choose(10) {
        0 => {
            let mut t = String::new();
            let v = digits(&mut t, 1);
            s.push_str(&t);
            Lit::Int(v as i64)
        }
        1 => {
            let mut t = String::new();
            let v = digits(&mut t, 2);
            s.push_str(&t);
            Lit::Int(v as i64)
        }
        2 => {
            let v = sym::choose(4);
            s.push_str(["0.0", "1.0", "2.0", "2.5"][v]);
            Lit::Float([0.0f64, 1.0, 2.0, 2.5][v].to_bits())
        }
        3 => {
            let d = sym::u8();
            sym::assume(d >= b'g' && d <= b'z');
            s.push('"');
            unsafe { s.as_mut_vec().push(d) };
            s.push('"');
            Lit::Str(vec![d])
        }
        4 => {
            s.push_str("\"2\"");
            Lit::Str(b"2".to_vec())
        }
        5 => {
            s.push_str("true");
            Lit::True
        }
        6 => {
            s.push_str("false");
            Lit::False
        }
        7 => {
            s.push_str("null");
            Lit::Null
        }
        8 => {
            s.push_str("()");
            Lit::Unit
        }
        _ => {
            let d = sym::u8();
            sym::assume(d >= b'g' && d <= b'z');
            unsafe { s.as_mut_vec().push(d) };
            Lit::Sym(vec![d])
        }
    }
}
fn several(n: usize) {
    let mut s = String::from("[");
    let mut want = vec![];
    for i in 0..n {
        if i > 0 {
            s.push_str(", ");
        }
        want.push(any_lit(&mut s));
    }
    s.push(']');
    expect(&s, &want)
}
pub fn c06_two() {
    several(2)
}
pub fn c06_three() {
    several(3)
}

// ---------------------------------------------------------------- larger cases
/// a long text of equal lines and any offset in it
pub fn c15_long() {
    let (s, n) = lines_of();
    show(&s);
    let li = LineIndex::new(&s);
    let b = s.as_bytes();
    let k = sym::u16() as usize;
    sym::assume(k <= b.len());
    let k = sym::conc(k as u64) as usize;
    sym::assume(utf8_boundary(b, k));
    let (mut line, mut col) = (0, 0);
    let mut i = 0;
    while i < k {
        let w = utf8_width(b[i]);
        if b[i] == b'\n' {
            line += 1;
            col = 0;
        } else {
            col += if w == 4 { 2 } else { 1 };
        }
        i += w;
    }
    let got = li.position_of(k);
    sym::check(got.line == line, 1501);
    sym::check(got.column_utf16 == col, 1502);
    sym::observe(got.line as u64);
    if line + 2 > n {
        sym::reach(1);
    }
}
fn utf8_width(b: u8) -> usize {
    if b < 0x80 {
        1
    } else if b < 0xE0 {
        2
    } else if b < 0xF0 {
        3
    } else {
        4
    }
}
fn lines_of() -> (String, usize) {
    let unit = ["a\n", "\n", "é\u{10348}b\n", "ab\u{4e2d}\r\n", "\n\u{1f600}\u{1f600}", "é a é a \u{10348} é"][sym::choose(6)];
    let n = [9, 17, 33][sym::choose(3)];
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(unit);
    }
    (s, n)
}
/// a long text and ranges that begin or end anywhere
pub fn c16_long() {
    let unit = ["a\n", "\n", "é\n\u{10348}", "ab\r\n"][sym::choose(4)];
    let n = [9, 17, 40][sym::choose(3)];
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(unit);
    }
    show(&s);
    let b = s.as_bytes();
    let k = sym::u16() as usize;
    sym::assume(k <= b.len());
    let k = sym::conc(k as u64) as usize;
    let w = [0, 1, 2, 3, 5, b.len() / 2, b.len()][sym::choose(7)];
    let e = if sym::choose(2) == 1 { b.len() } else { k + w };
    sym::assume(e <= b.len() && e >= k && utf8_boundary(b, k) && utf8_boundary(b, e));
    lines_are(&s, k, e);
}
fn lines_are(s: &str, k: usize, e: usize) {
    let b = s.as_bytes();
    let got: Vec<Span> = LineIndex::new(s).lines(Span::new(k..e)).collect();
    sym::observe(got.len() as u64);
    if k == e {
        sym::check(got.len() <= 1, 1601);
        for g in &got {
            sym::check(g.start <= k && k <= g.end, 1602);
        }
        return;
    }
    let mut want = vec![];
    let mut at = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' || i + 1 == b.len() {
            if at < e && i + 1 > k {
                want.push((at, i + 1));
            }
            at = i + 1;
        }
    }
    sym::check(got.len() == want.len(), 1605);
    for (g, w) in got.iter().zip(&want) {
        sym::check(g.start == w.0 && g.end == w.1, 1604);
    }
    sym::reach(2);
}
/// two long string literals that differ in one place, in length, or not at all
pub fn c06_strings() {
    let n = [1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 64, 100, 255, 256, 300][sym::choose(19)];
    let mut a: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let mut c = a.clone();
    match sym::choose(5) {
        0 => (),
        1 => {
            c.pop();
        }
        k => {
            let p = [0, n / 2, n - 1][k - 2];
            let x = sym::u8();
            sym::assume(x < 0x80 && x != b'"' && x != b'\\' && x != 0x1b);
            c[p] = x;
        }
    }
    if sym::choose(2) == 1 {
        std::mem::swap(&mut a, &mut c);
    }
    let mut s = vec![b'"'];
    s.extend(&a);
    s.extend(b"\" \"");
    s.extend(&c);
    s.push(b'"');
    let s = unsafe { String::from_utf8_unchecked(s) };
    show(&s);
    expect(&s, &[Lit::Str(a), Lit::Str(c)]);
}
/// an instruction far into the code, closures over several functions, functions in functions
pub fn c17_disasm_far() {
    let lead = [0, 9, 10, 98, 100, 255, 256, 999, 1000][sym::choose(9)];
    let b = sym::u8();
    sym::assume(b <= code::LAST);
    let b = sym::conc(b as u64) as u8;
    let pad = Instruction::Pop as u8;
    let mut data = vec![pad; lead];
    let mut want = String::from("Code\n--------\n");
    for i in 0..lead {
        line(&mut want, i, pad, "");
    }
    let which = sym::choose(2);
    let ups = [0usize, 3];
    let mut a = String::new();
    data.push(b);
    match code::args(Instruction::from(b)) {
        code::Args::None => (),
        code::Args::One => {
            data.push(5);
            a.push_str("const=5");
        }
        code::Args::Two => {
            data.extend(&[5, 6]);
            a.push_str("const=5 slot=6");
        }
        code::Args::Off => {
            data.extend(&[0xff, 0x38]);
            a.push_str("offset=-200");
        }
        code::Args::Closure => {
            // constant 1 or 3
            let c = [1u8, 3][which];
            data.push(c);
            a.push_str(if which == 0 { "const=1 |" } else { "const=3 |" });
            for i in 0..ups[which] {
                data.extend(&[(i % 2) as u8, 10 + i as u8]);
                a.push_str(if i % 2 == 1 { " (parent_local=" } else { " (upvalue=" });
                a.push_str(&dec(10 + i as i64));
                a.push(')');
            }
        }
    }
    line(&mut want, lead, b, &a);
    let end = data.len();
    data.push(pad);
    line(&mut want, end, pad, "");
    want.push('\n');
    let code = |b: u8| vec![b].into_boxed_slice();
    let fun = |name: &str, bytecode| ConstantValue::Function(FunctionBytecode { bytecode, name: name.to_string(), id: Default::default() });
    let push = [Instruction::PushUnit as u8, Instruction::PushNull as u8, Instruction::PushTrue as u8];
    let inner = Bytecode::new(code(push[2]), 0, 0, vec![].into_boxed_slice());
    let f = fun("f", Bytecode::new(code(push[0]), 0, ups[0], vec![fun("h", inner)].into_boxed_slice()));
    let g = fun("g", Bytecode::new(code(push[1]), 0, ups[1], vec![].into_boxed_slice()));
    for (n, p) in [("f", push[0]), ("h", push[2]), ("g", push[1])] {
        want.push_str("Function: \"");
        want.push_str(n);
        want.push_str("\"\n--------\nCode\n--------\n");
        line(&mut want, 0, p, "");
    }
    let bc = Bytecode::new(data.into_boxed_slice(), 0, 0, vec![ConstantValue::Int(7), f, ConstantValue::String("Function".to_string()), g].into_boxed_slice());
    let got = bc.to_string();
    if lead < 20 {
        show(&got);
    }
    let trim = |s: &str| s.lines().filter(|l| !l.trim().is_empty()).map(|l| l.split(|c| c == ' ' || c == '|').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>();
    sym::check(trim(&got) == trim(&want), 1711);
    sym::observe(got.len() as u64);
    sym::reach(1);
}
