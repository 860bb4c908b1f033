//! C14: programs around the limits of the instruction encoding.
use crate::code::{decode, Op};
use crate::{sym, text::*};
use dice_bytecode::{Bytecode, ConstantValue, Instruction};
use dice_compiler::compiler::Compiler;
use dice_core::source::{Source, SourceKind};
use Instruction::*;

const CONSTANTS: u32 = 2101;
const LOCALS: u32 = 2102;
const UPVALUES: u32 = 2100;
const ITEMS: u32 = 2103;
const JUMP: u32 = 2104;
const ARGUMENTS: u32 = 1005;

fn compile(s: &str, module: bool) -> Result<Bytecode, u32> {
    match Compiler::compile_source(Source::new(s.to_string(), if module { SourceKind::Module } else { SourceKind::Script })) {
        Ok(c) => Ok(c),
        Err(e) => Err(e.error_code()[1..].parse().unwrap_or(0)),
    }
}
fn ops(bc: &Bytecode) -> Vec<Op> {
    match decode(bc) {
        Ok(v) => v,
        Err(_) => sym::fail(1407),
    }
}
fn function<'a>(bc: &'a Bytecode, i: u8) -> &'a Bytecode {
    match bc.constants().get(i as usize) {
        Some(ConstantValue::Function(f)) => &f.bytecode,
        _ => sym::fail(1407),
    }
}
/// the code of the function called `name` of this code
fn named<'a>(bc: &'a Bytecode, name: &str) -> &'a Bytecode {
    for c in bc.constants() {
        if let ConstantValue::Function(f) = c {
            if &*f.name == name {
                return &f.bytecode;
            }
        }
    }
    sym::fail(1407)
}
/// three symbolic digits forming a number below `n`, appended to the text
fn digits(s: &mut String, n: usize) -> usize {
    let (a, b, c) = (sym::u8(), sym::u8(), sym::u8());
    sym::assume(a < 10 && b < 10 && c < 10);
    let k = a as usize * 100 + b as usize * 10 + c as usize;
    sym::assume(k < n);
    let v = unsafe { s.as_mut_vec() };
    v.push(b'0' + a);
    v.push(b'0' + b);
    v.push(b'0' + c);
    k
}
/// which side of the limit the program lies on, and that the compiler says so
fn verdict(r: Result<Bytecode, u32>, fits: bool, code: u32) -> Bytecode {
    match r {
        Ok(b) => {
            if !fits {
                sym::fail(1401)
            }
            sym::reach(1);
            b
        }
        Err(e) => {
            if fits {
                sym::fail(1402)
            }
            sym::check(e == code, 1403);
            sym::reach(e);
            sym::done()
        }
    }
}
fn pick(t: &[u8], k: usize) -> u8 {
    match t.get(k) {
        Some(v) => *v,
        None => sym::fail(1404),
    }
}

// ---------------------------------------------------------------- locals
fn stores(v: &[Op]) -> Vec<u8> {
    v.iter().filter(|o| o.is(StoreLocal)).map(|o| o.a).collect()
}
fn distinct(t: &[u8]) {
    let mut seen = [false; 256];
    for i in t {
        if seen[*i as usize] {
            sym::fail(1404)
        }
        seen[*i as usize] = true;
    }
}
/// `n` variables in one scope, the last expression one of them
fn locals(n: usize, kind: usize) {
    let mut s = String::new();
    // slots taken by the function itself and its parameters
    let before = match kind {
        0 => 0,
        1 => 1,
        2 => 3,
        _ => 2,
    };
    match kind {
        0 => (),
        1 => s.push_str("fn f() {"),
        2 => s.push_str("fn f(p, q) {"),
        _ => s.push_str("let f = |p| {"),
    }
    for i in 0..n {
        s.push_str(&format!("let v{:03} = null ", i));
    }
    s.push('v');
    let k = digits(&mut s, n);
    if kind != 0 {
        s.push('}');
    }
    show(&s);
    let bc = verdict(compile(&s, false), n + before <= 256, LOCALS);
    let bc = match kind {
        0 => &bc,
        1 | 2 => named(&bc, "f"),
        _ => function(&bc, ops(&bc)[0].a),
    };
    let v = ops(bc);
    let t = stores(&v);
    if t.len() != n {
        sym::fail(1407)
    }
    distinct(&t);
    for i in &t {
        sym::check(*i as usize >= before && (*i as usize) < bc.slot_count(), 1404);
    }
    let last: Vec<&Op> = v.iter().filter(|o| o.is(LoadLocal)).collect();
    if last.len() != 1 {
        sym::fail(1407)
    }
    sym::check(last[0].a == pick(&t, k), 1404);
}
pub fn c14_locals() {
    let kind = sym::choose(4);
    let n = 251 + sym::choose(8);
    locals(n, kind)
}
/// variables in nested and consecutive blocks: slots are reused only after their block
pub fn c14_blocks() {
    let (a, b) = (100 + sym::choose(2), [100, 154, 155, 156, 157][sym::choose(5)]);
    let mut s = String::new();
    let decl = |s: &mut String, p: char, n: usize| {
        for i in 0..n {
            s.push_str(&format!("let {}{:03} = null ", p, i));
        }
    };
    decl(&mut s, 'a', a);
    s.push_str("{ ");
    decl(&mut s, 'b', b);
    s.push_str("j } { ");
    decl(&mut s, 'c', b);
    // one of the two uses is any
    let first = sym::choose(2) == 0;
    s.push('c');
    let k = if first {
        digits(&mut s, b)
    } else {
        s.push_str("099");
        99
    };
    s.push_str(" } a");
    let l = if first {
        s.push_str("099");
        99
    } else {
        digits(&mut s, a)
    };
    show(&s);
    let bc = verdict(compile(&s, false), a + b <= 256, LOCALS);
    let v = ops(&bc);
    let t = stores(&v);
    if t.len() != a + 2 * b {
        sym::fail(1407)
    }
    distinct(&t[..a + b]);
    distinct(&t[a + b..]);
    for i in &t[a + b..] {
        if t[..a].contains(i) {
            sym::fail(1404)
        }
    }
    let last: Vec<&Op> = v.iter().filter(|o| o.is(LoadLocal)).collect();
    if last.len() != 2 {
        sym::fail(1407)
    }
    sym::check(last[0].a == pick(&t[a + b..], k), 1404);
    sym::check(last[1].a == pick(&t[..a], l), 1404);
}

// ---------------------------------------------------------------- captured variables
/// a function that captures `n` variables of two enclosing functions, the last expression one of them
pub fn c14_upvalues() {
    // 256 variables are representable or not depending on how the count is kept: not judged
    let n = [128, 254, 255, 257][sym::choose(4)];
    let near = [0, 1, 120][sym::choose(3)];
    let far = n - near.min(n);
    let mut s = String::from("fn f() { ");
    let far_max = far.min(200);
    let near_n = n - far_max;
    for i in 0..far_max {
        s.push_str(&format!("let v{:03} = null ", i));
    }
    s.push_str("fn g() { ");
    for i in far_max..n {
        s.push_str(&format!("let v{:03} = null ", i));
    }
    s.push_str("fn h() { ");
    for i in 0..n {
        s.push_str(&format!("v{:03} ", i));
    }
    s.push('v');
    let k = digits(&mut s, n);
    s.push_str(" } } }");
    show(&s);
    let bc = verdict(compile(&s, false), n <= 255, UPVALUES);
    let f = named(&bc, "f");
    let g = named(f, "g");
    let h = named(g, "h");
    let (vf, vg, vh) = (ops(f), ops(g), ops(h));
    let (tf, tg) = (stores(&vf), stores(&vg));
    // the last store of each is the function itself
    if tf.len() != far_max + 1 || tg.len() != near_n + 1 {
        sym::fail(1407)
    }
    let cf: Vec<&Op> = vf.iter().filter(|o| o.is(CreateClosure)).collect();
    let cg: Vec<&Op> = vg.iter().filter(|o| o.is(CreateClosure)).collect();
    if cg.len() != 1 || cf.len() != (far_max > 0) as usize {
        sym::fail(1407)
    }
    let ups = &cg[0].ups;
    if ups.len() != n || h.upvalue_count() != n || g.upvalue_count() != far_max {
        sym::fail(1405)
    }
    let loads: Vec<&Op> = vh.iter().filter(|o| o.is(LoadUpvalue)).collect();
    if loads.len() != n + 1 {
        sym::fail(1407)
    }
    // every reference leads to the variable of that name
    let follow = |u: u8, i: usize| {
        let (local, at) = match ups.get(u as usize) {
            Some(x) => *x,
            None => sym::fail(1405),
        };
        if i >= far_max {
            sym::check(local == 1 && at == tg[i - far_max], 1405);
        } else {
            sym::check(local == 0, 1405);
            match cf[0].ups.get(at as usize) {
                Some((1, slot)) => sym::check(*slot == tf[i], 1405),
                _ => sym::fail(1405),
            }
        }
    };
    for i in 0..n {
        follow(loads[i].a, i);
    }
    // the last one names the same variable as the k-th
    let mut want = loads[0].a;
    for i in 0..n {
        if i == k {
            want = loads[i].a;
        }
    }
    sym::check(loads[n].a == want, 1405);
}

// ---------------------------------------------------------------- parameters and arguments
pub fn c14_params() {
    let n = 253 + sym::choose(5);
    let kind = sym::choose(5);
    // whether the receiver counts is not judged
    sym::assume(n != 255 || kind < 3);
    let mut s = String::new();
    s.push_str(["fn f(", "let f = |", "class C { fn f(", "class C { fn f(self, ", "class C { fn new(self, "][kind]);
    for i in 0..n {
        s.push_str(&format!("p{:03}, ", i));
    }
    s.truncate(s.len() - 2);
    s.push_str(["){ p", "| p", "){ p", "){ p", "){ p"][kind]);
    let k = digits(&mut s, n);
    s.push_str(["}", "", "}}", "}}", "}}"][kind]);
    show(&s);
    let bc = verdict(compile(&s, false), n <= 255, ARGUMENTS);
    let c = match kind {
        0 => named(&bc, "f"),
        1 => function(&bc, ops(&bc)[0].a),
        _ => {
            let mut r = None;
            for c in bc.constants() {
                if let ConstantValue::Function(f) = c {
                    r = Some(&f.bytecode);
                }
            }
            match r {
                Some(x) => x,
                None => sym::fail(1407),
            }
        }
    };
    let v = ops(c);
    let l: Vec<&Op> = v.iter().filter(|o| o.is(LoadLocal)).collect();
    // a constructor also loads the object it returns
    if l.len() != 1 && !(kind == 4 && l.len() == 2) {
        sym::fail(1407)
    }
    sym::check(l[0].a as usize == k + 1, 1406);
    sym::check(c.slot_count() == n + 1, 1406);
}
pub fn c14_arguments() {
    let n = 253 + sym::choose(5);
    let kind = sym::choose(4);
    let mut s = String::from(["f(", "m.f(", "class B {} class C: B { fn new(self) { super(", "class B {} class C: B { fn f(self) { super.f("][kind]);
    for _ in 0..n {
        s.push_str("0, ");
    }
    s.truncate(s.len() - 2);
    s.push_str([")", ")", ") } }", ") } }"][kind]);
    show(&s);
    let bc = verdict(compile(&s, false), n <= 255, ARGUMENTS);
    let mut found = vec![];
    let mut zeros = 0;
    let mut look = |b: &Bytecode| {
        for o in ops(b) {
            match o.ins {
                Call | CallSuper => found.push((o.ins, o.a)),
                PushI0 => zeros += 1,
                _ => (),
            }
        }
    };
    look(&bc);
    for c in bc.constants() {
        if let ConstantValue::Function(f) = c {
            look(&f.bytecode);
        }
    }
    if zeros != n {
        sym::fail(1407)
    }
    // among the calls of the program, one passes them all
    if !found.iter().any(|(_, a)| *a as usize == n) {
        sym::fail(1406)
    }
    if found.iter().any(|(_, a)| *a as usize != n && *a != 0 && *a != 1) {
        sym::fail(1406)
    }
}

// ---------------------------------------------------------------- lists
pub fn c14_items() {
    let n = 253 + sym::choose(5);
    let nested = sym::choose(2) == 1;
    let mut s = String::from(if nested { "[1, [" } else { "[" });
    for _ in 0..n {
        s.push_str("0, ");
    }
    s.truncate(s.len() - 2);
    s.push_str(if nested { "], 1]" } else { "]" });
    show(&s);
    let bc = verdict(compile(&s, false), n <= 255, ITEMS);
    let v = ops(&bc);
    let a: Vec<u8> = v.iter().filter(|o| o.is(CreateArray)).map(|o| o.a).collect();
    let want: Vec<u8> = if nested { vec![n as u8, 3] } else { vec![n as u8] };
    sym::check(a == want, 1406);
    sym::check(v.iter().filter(|o| o.is(PushI0)).count() == n, 1407);
}

// ---------------------------------------------------------------- constants
/// `n` different constants and then one more that may be one of them
pub fn c14_constants() {
    let n = 255 + sym::choose(2);
    let kind = sym::choose(4);
    let mut s = String::new();
    let one = |s: &mut String, i: usize| match kind {
        0 => s.push_str(&format!("1{:03} ", i)),
        1 => s.push_str(&format!("\"s{:03}\" ", i)),
        2 => s.push_str(&format!("g{:03} ", i)),
        _ => s.push_str(&format!("1{:03}.5 ", i)),
    };
    for i in 0..n {
        one(&mut s, i);
    }
    s.push_str(["1", "\"s", "g", "1"][kind]);
    let k = digits(&mut s, 300);
    s.push_str(["", "\"", "", ".5"][kind]);
    show(&s);
    let repeated = k < n;
    let fits = if repeated { n <= 256 } else { n + 1 <= 256 };
    let bc = verdict(compile(&s, false), fits, CONSTANTS);
    let v = ops(&bc);
    let loads: Vec<u8> = v.iter().filter(|o| o.is(PushConst) || o.is(LoadGlobal)).map(|o| o.a).collect();
    if loads.len() != n + 1 {
        sym::fail(1407)
    }
    for (j, c) in loads.iter().enumerate() {
        let i = if j < n { j } else { k };
        let ok = match (kind, bc.constants().get(*c as usize)) {
            (0, Some(ConstantValue::Int(x))) => *x == 1000 + i as i64,
            (1, Some(ConstantValue::String(x))) => number(x, b's') == i,
            (2, Some(ConstantValue::Symbol(x))) => number(&format!("{}", x), b'g') == i,
            (3, Some(ConstantValue::Float(x))) => x.to_bits() == (1000.5 + i as f64).to_bits(),
            _ => false,
        };
        sym::check(ok, 1408);
    }
}
/// the number in a name of one letter and three digits
fn number(s: &str, letter: u8) -> usize {
    let b = s.as_bytes();
    if b.len() != 4 || b[0] != letter {
        return usize::MAX;
    }
    (b[1] - b'0') as usize * 100 + (b[2] - b'0') as usize * 10 + (b[3] - b'0') as usize
}
/// functions, members and names are constants too
pub fn c14_constants2() {
    let n = 250 + sym::choose(8);
    let kind = sym::choose(3);
    let mut s = String::from(["", "m", "#{"][kind]);
    for i in 0..n {
        match kind {
            0 => s.push_str(&format!("k(||{:03}) ", i + 2)),
            1 => s.push_str(&format!(".a{:03}", i)),
            _ => s.push_str(&format!("a{:03}: 0, ", i)),
        }
    }
    if kind == 2 {
        s.truncate(s.len() - 2);
        s.push('}');
    }
    show(&s);
    // the global is a constant as well; an object is made by a call
    let bc = verdict(compile(&s, false), n + [1, 1, 0][kind] <= 256, CONSTANTS);
    let v = ops(&bc);
    let mut i = 0;
    for o in &v {
        match (kind, o.ins) {
            (0, CreateClosure) | (0, PushConst) => {
                let f = function(&bc, o.a);
                match f.constants().get(0) {
                    Some(ConstantValue::Int(x)) => sym::check(*x == i + 2, 1408),
                    _ => sym::fail(1408),
                }
                i += 1;
            }
            (1, LoadField) | (2, StoreField) => {
                match bc.constants().get(o.a as usize) {
                    Some(ConstantValue::Symbol(x)) => sym::check(number(&format!("{}", x), b'a') as i64 == i, 1408),
                    _ => sym::fail(1408),
                }
                i += 1;
            }
            _ => (),
        }
    }
    sym::check(i == n as i64, 1407);
}

// ---------------------------------------------------------------- jumps
const UNIT: &str = "k!!!!!!!!!!!!!!!! ";
const SHAPES: [(&str, &str); 12] = [
    ("fn f() { if q { ", " j } else { i } 1 }"),
    ("fn f() { if q { i } else { ", " j } 1 }"),
    ("fn f() { while q { ", " j } 1 }"),
    ("fn f() { while q { if i { break } ", " } 1 }"),
    ("fn f() { while q { ", " if i { continue } j } 1 }"),
    ("fn f() { while q { if i { continue } ", " j } 1 }"),
    ("fn f() { loop { ", " if i { break } } 1 }"),
    ("fn f() { for x in y { ", " j } 1 }"),
    ("fn f() { q && { ", " j } }"),
    ("fn f() { q || { ", " j } }"),
    ("fn f() { q ?? { ", " j } }"),
    ("fn f() { q or e { ", " e } }"),
];
fn is_jump(o: &Op) -> bool {
    matches!(o.ins, Jump | JumpIfFalse | JumpIfTrue)
}
fn body(shape: usize, m: usize) -> Option<Vec<Op>> {
    let mut s = String::from(SHAPES[shape].0);
    for _ in 0..m {
        s.push_str(UNIT);
    }
    s.push_str(SHAPES[shape].1);
    match compile(&s, false) {
        Ok(b) => Some(ops(named(&b, "f"))),
        Err(_) => sym::fail(1402),
    }
}
/// A construct whose body is as long as a jump can be, give or take a few
/// bytes, is rejected or is the short one with a longer body in its middle.
fn jumps(shapes: &[usize]) {
    let shape = shapes[sym::choose(shapes.len())];
    let (a, b) = match (body(shape, 1), body(shape, 2)) {
        (Some(a), Some(b)) => (a, b),
        _ => sym::fail(1407),
    };
    let unit = b.len() - a.len();
    let bytes = (b[b.len() - 1].end - a[a.len() - 1].end) as i64;
    // where the filler starts: the first instruction that mentions `k`
    let pre = (0..a.len() - 2).find(|i| a[*i].is(LoadGlobal) && a[i + 1].is(Dup) && a[i + 2].is(LoadField));
    let pre = match pre {
        Some(p) => p,
        None => sym::fail(1407),
    };
    let post = a.len() - pre - unit;
    // offsets that grow with the body
    let grow: Vec<(i64, i64)> = (0..a.len()).filter(|i| *i < pre || *i >= pre + unit).map(|i| if i < pre { (a[i].off as i64, b[i].off as i64) } else { (a[i].off as i64, b[i + unit].off as i64) }).collect();
    // as many units as fit, then a few bytes more
    let far = grow.iter().map(|(x, y)| if y == x { 0 } else { x.abs() }).max().unwrap();
    let mut m = (32767 - far) / bytes;
    if 32767 - far - m * bytes < 8 {
        m -= 1;
    }
    // bytes that bring the longest jump to six less than the limit
    let mut rest = 32767 - far - m * bytes - 6;
    let known = rest;
    let menu = Menu::new(&["", "null", "k", "null null", "null k", "k k", "k null null", "k k null", "k k k", "null k k null", "k k k null", "k k k k"]);
    let extra = [0usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    let more = m as usize + 1;
    let mut s = String::from(SHAPES[shape].0);
    for _ in 0..more {
        s.push_str(UNIT);
    }
    if rest % 2 == 1 {
        s.push_str("k ");
        rest -= 3;
    }
    while rest > 0 {
        s.push_str("null ");
        rest -= 2;
    }
    let sel = menu.hole(&mut s);
    s.push_str(SHAPES[shape].1);
    sym::log(SHAPES[shape].0);
    sym::log(&s[s.len() - 60..]);
    let r = compile(&s, false);
    let sel = sym::conc(sel as u64) as usize;
    let pad = extra[sel];
    let grown = m * bytes + known + pad as i64;
    let fits = grow.iter().all(|(x, y)| {
        let o = if y > x { x + grown } else if y < x { x - grown } else { *x };
        o >= -32768 && o <= 32767
    });
    let bc = verdict(r, fits, JUMP);
    let v = ops(named(&bc, "f"));
    let fill = v.len() - pre - post;
    // before and after the filler: the same instructions, leading to the same places
    let map = |i: usize, base: usize, middle: usize| -> i64 {
        if i < pre + 1 {
            i as i64
        } else if i >= base - post {
            1_000_000 - (base - i) as i64
        } else {
            let _ = middle;
            500_000
        }
    };
    let dest = |v: &[Op], i: usize| -> i64 {
        match crate::code::target(v, &v[i]) {
            Some(t) => map(t, v.len(), 0),
            None => sym::fail(1409),
        }
    };
    for i in 0..pre + post {
        let (x, y) = if i < pre { (i, i) } else { (i + unit, i + fill) };
        sym::check(a[x].is(v[y].ins) && a[x].a == v[y].a && a[x].b == v[y].b, 1410);
        if is_jump(&a[x]) {
            sym::check(dest(&a, x) == dest(&v, y), 1409);
        } else {
            sym::check(a[x].off == v[y].off, 1410);
        }
    }
    // the filler is its unit repeated
    for i in 0..unit * more.min(fill / unit) {
        let (x, y) = (pre + i % unit, pre + i);
        sym::check(a[x].is(v[y].ins) && a[x].a == v[y].a && a[x].off == v[y].off, 1410);
    }
}
pub fn c14_jumps() {
    jumps(&[0, 2, 3, 5, 6, 7])
}
pub fn c14_jumps2() {
    jumps(&[1, 4, 8, 9, 10, 11])
}
