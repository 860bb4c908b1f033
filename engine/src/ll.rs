//! Parser for the textual LLVM IR emitted by rustc (whole program, fat LTO).

use crate::exec::{intr_for, FUNC_BASE, GLOBAL_BASE};
use crate::expr::{Arena, BinOp};
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),     // bare word
    N(String),     // number (possibly float)
    L(String),     // %local
    G(String),     // @global
    S(Vec<u8>),    // c"..."
    Q(String),     // "..."
    A(String),     // #attr
    M,             // !metadata
    P(char),
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
            continue;
        }
        if s[i] == b'\\' && i + 2 < s.len() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).ok().and_then(|x| u8::from_str_radix(x, 16).ok());
            if let Some(b) = h {
                o.push(b);
                i += 3;
                continue;
            }
        }
        o.push(s[i]);
        i += 1;
    }
    o
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'%' || c == b'@' || c == b'#' {
            let mut j = i + 1;
            let name;
            if j < b.len() && b[j] == b'"' {
                let st = j + 1;
                j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                name = s[st..j].to_string();
                j += 1;
            } else {
                let st = j;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                name = s[st..j].to_string();
            }
            i = j;
            out.push(match c {
                b'%' => Tok::L(name),
                b'@' => Tok::G(name),
                _ => Tok::A(name),
            });
            continue;
        }
        if c == b'!' {
            let mut j = i + 1;
            while j < b.len() && is_id(b[j]) {
                j += 1;
            }
            i = j;
            out.push(Tok::M);
            continue;
        }
        if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            let is_c = c == b'c';
            let st = if is_c { i + 2 } else { i + 1 };
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            if is_c {
                out.push(Tok::S(unescape(&b[st..j])));
            } else {
                out.push(Tok::Q(s[st..j].to_string()));
            }
            i = j + 1;
            continue;
        }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e' || b[j - 1] == b'E'))) {
                j += 1;
            }
            out.push(Tok::N(s[i..j].to_string()));
            i = j;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let mut j = i + 1;
            while j < b.len() && is_id(b[j]) {
                j += 1;
            }
            out.push(Tok::W(s[i..j].to_string()));
            i = j;
            continue;
        }
        out.push(Tok::P(c as char));
        i += 1;
    }
    out
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    cx: &'a mut Cx,
    regs: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
}

struct Cx {
    ar: *mut Arena,
    gaddr: HashMap<String, u64>,
    fidx: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&Tok> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eof")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c, self.peek()))
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn try_ty(&mut self) -> R<Option<Ty>> {
        let t = match self.peek() {
            None => return Ok(None),
            Some(t) => t.clone(),
        };
        Ok(Some(match t {
            Tok::W(w) => {
                let r = match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" => Ty::Meta,
                    _ => {
                        if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                            Ty::Int(w[1..].parse().unwrap())
                        } else {
                            return Ok(None);
                        }
                    }
                };
                self.i += 1;
                if r == Ty::Ptr && self.is_w("addrspace") {
                    self.i += 1;
                    self.skip_parens()?;
                }
                r
            }
            Tok::P('{') => {
                self.i += 1;
                let mut f = vec![];
                while !self.eat('}') {
                    f.push(self.ty()?);
                    self.eat(',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('[') => {
                self.i += 1;
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array type".into());
                }
                let e = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n as usize, Rc::new(e))
            }
            Tok::P('<') => {
                self.i += 1;
                if self.is_p('{') {
                    self.i += 1;
                    let mut f = vec![];
                    while !self.eat('}') {
                        f.push(self.ty()?);
                        self.eat(',');
                    }
                    self.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("vector type".into());
                    }
                    let e = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n as usize, Rc::new(e))
                }
            }
            _ => return Ok(None),
        }))
    }
    fn ty(&mut self) -> R<Ty> {
        self.try_ty()?.ok_or_else(|| format!("type expected at {:?}", self.peek()))
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::N(s) => s.parse::<i128>().map_err(|e| format!("{} {}", s, e)),
            t => Err(format!("number expected, got {:?}", t)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn konst(&mut self, v: u128, w: u32) -> Val {
        mkconst(self.cx.ar, v, w)
    }
    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) => self.konst(0, *w),
            Ty::Ptr | Ty::F32 | Ty::F64 => Val::C(0),
            Ty::Void | Ty::Meta => Val::C(0),
            _ => {
                let e: Vec<Val> = t.elems().iter().map(|x| self.zero(x)).collect();
                Val::Agg(Rc::new(e))
            }
        }
    }
    fn constval(&mut self, t: &Ty) -> R<Val> {
        match self.op(t)? {
            Op::K(v) => Ok(v),
            Op::R(_) => Err("constant expected".into()),
        }
    }
    fn op(&mut self, t: &Ty) -> R<Op> {
        let tok = self.next()?;
        let v = match tok {
            Tok::L(n) => return Ok(Op::R(self.reg(&n))),
            Tok::G(n) => match self.cx.gaddr.get(&n) {
                Some(a) => Val::C(*a),
                None => return Err(format!("unknown global {}", n)),
            },
            Tok::N(s) => match t {
                Ty::Int(w) => {
                    let v: i128 = s.parse().map_err(|_| format!("bad int {}", s))?;
                    self.konst(v as u128, *w)
                }
                Ty::F64 => Val::C(parse_f(&s)?.to_bits()),
                Ty::F32 => Val::C((parse_f(&s)? as f32).to_bits() as u64),
                _ => return Err(format!("number for {:?}", t)),
            },
            Tok::W(ref w) if w.starts_with("f0x") => {
                let b = u64::from_str_radix(&w[3..], 16).map_err(|e| e.to_string())?;
                Val::C(b)
            }
            Tok::W(w) => match w.as_str() {
                "true" => Val::C(1),
                "false" | "null" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => self.zero(t),
                "splat" => {
                    self.expect('(')?;
                    let et = self.ty()?;
                    let v = self.constval(&et)?;
                    self.expect(')')?;
                    match t {
                        Ty::Vec(n, _) => Val::Agg(Rc::new(vec![v; *n])),
                        _ => return Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::W(_))) {
                        self.i += 1;
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(Tok::W(x)) if x == "inrange") {
                            self.skip_parens()?;
                        }
                    }
                    self.expect('(')?;
                    let et = self.ty()?;
                    self.expect(',')?;
                    let bt = self.ty()?;
                    let base = self.constval(&bt)?;
                    let mut off = 0i64;
                    let mut cur = et.clone();
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty()?;
                        let iv = self.constval(&it)?;
                        let k = match iv {
                            Val::C(x) => crate::expr::sx(x as u128, it.bits()) as i64,
                            _ => return Err("gep const idx".into()),
                        };
                        if first {
                            off += k * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.offset(k as usize) as i64;
                            cur = cur.elems()[if matches!(cur, Ty::Struct(..)) { k as usize } else { 0 }].clone();
                        }
                    }
                    self.expect(')')?;
                    match base {
                        Val::C(b) => Val::C(b.wrapping_add(off as u64)),
                        _ => return Err("gep base".into()),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                    self.expect('(')?;
                    let ft = self.ty()?;
                    let v = self.constval(&ft)?;
                    if !self.eat_w("to") {
                        return Err("to".into());
                    }
                    let tt = self.ty()?;
                    self.expect(')')?;
                    if let (Val::C(x), true) = (&v, tt.is_scalar()) {
                        self.konst(*x as u128, tt.bits())
                    } else {
                        v
                    }
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), Some(Tok::W(_))) {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let ft = self.ty()?;
                    let a = self.constval(&ft)?;
                    self.expect(',')?;
                    let ft2 = self.ty()?;
                    let b = self.constval(&ft2)?;
                    self.expect(')')?;
                    match (a, b) {
                        (Val::C(x), Val::C(y)) => {
                            let r = match w.as_str() {
                                "add" => x.wrapping_add(y),
                                "sub" => x.wrapping_sub(y),
                                _ => x ^ y,
                            };
                            self.konst(r as u128, ft.bits())
                        }
                        _ => return Err("const add".into()),
                    }
                }
                _ => return Err(format!("operand word {}", w)),
            },
            Tok::P(sg) if sg == '+' || sg == '-' => {
                let w = match self.next()? {
                    Tok::W(w) => w,
                    t => return Err(format!("float special {:?}", t)),
                };
                let f: f64 = match w.as_str() {
                    "qnan" | "nan" => f64::NAN,
                    "inf" => f64::INFINITY,
                    _ => return Err(format!("float special {}", w)),
                };
                let f = if sg == '-' { -f } else { f.abs() };
                if *t == Ty::F32 {
                    Val::C((f as f32).to_bits() as u64)
                } else {
                    Val::C(f.to_bits())
                }
            }
            Tok::S(b) => Val::Agg(Rc::new(b.into_iter().map(|x| Val::C(x as u64)).collect())),
            Tok::P('{') => self.agg('}')?,
            Tok::P('[') => self.agg(']')?,
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let v = self.agg('}')?;
                    self.expect('>')?;
                    v
                } else {
                    self.agg('>')?
                }
            }
            t => return Err(format!("operand {:?}", t)),
        };
        Ok(Op::K(v))
    }
    fn agg(&mut self, close: char) -> R<Val> {
        let mut f = vec![];
        while !self.eat(close) {
            let t = self.ty()?;
            f.push(self.constval(&t)?);
            self.eat(',');
        }
        Ok(Val::Agg(Rc::new(f)))
    }
    fn skip_words(&mut self) {
        while let Some(Tok::W(_)) = self.peek() {
            let save = self.i;
            if let Ok(Some(_)) = self.try_ty() {
                self.i = save;
                return;
            }
            self.i = save + 1;
        }
    }
    /// parameter/return attributes
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "none" | "asm" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "xor"
                    ) {
                        return Ok(());
                    }
                    let save = self.i;
                    if let Ok(Some(_)) = self.try_ty() {
                        self.i = save;
                        return Ok(());
                    }
                    self.i = save + 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if w == "align" || w == "cc" || w == "alignstack" {
                        self.i += 1;
                    }
                }
                Some(Tok::Q(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_w("label") {
            return Err("label expected".into());
        }
        match self.next()? {
            Tok::L(n) => self.labels.get(&n).copied().ok_or_else(|| format!("unknown label {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }

    fn inst(&mut self, blk: &mut Block) -> R<()> {
        let mut d = None;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (self.peek().cloned(), self.peek_at(1).cloned()) {
            d = Some(self.reg(&n));
            self.i += 2;
        }
        let mut w = match self.next()? {
            Tok::W(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        if matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = match self.next()? {
                Tok::W(w) => w,
                t => return Err(format!("opcode {:?}", t)),
            };
        }
        let dd = d.unwrap_or(u32::MAX);
        let bop = match w.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(op) = bop {
            self.skip_words();
            let t = self.ty()?;
            let a = self.op(&t)?;
            self.expect(',')?;
            let b = self.op(&t)?;
            blk.insts.push(match &t {
                Ty::Vec(_, e) => Inst::VBin { op, ew: e.bits(), d: dd, a, b },
                _ => Inst::Bin { op, w: t.bits(), d: dd, a, b },
            });
            return Ok(());
        }
        let cast = match w.as_str() {
            "zext" => Some(Cast::Zext),
            "sext" => Some(Cast::Sext),
            "trunc" => Some(Cast::Trunc),
            "bitcast" => Some(Cast::Bitcast),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(Cast::PtrInt),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            _ => None,
        };
        if let Some(k) = cast {
            self.skip_words();
            let from = self.ty()?;
            let a = self.op(&from)?;
            if !self.eat_w("to") {
                return Err("cast to".into());
            }
            let to = self.ty()?;
            blk.insts.push(Inst::Cast { k, from, to, d: dd, a });
            return Ok(());
        }
        match w.as_str() {
            "icmp" => {
                let mut p = None;
                while let Some(Tok::W(x)) = self.peek().cloned() {
                    let pp = match x.as_str() {
                        "eq" => Some(Pred::Eq),
                        "ne" => Some(Pred::Ne),
                        "ugt" => Some(Pred::Ugt),
                        "uge" => Some(Pred::Uge),
                        "ult" => Some(Pred::Ult),
                        "ule" => Some(Pred::Ule),
                        "sgt" => Some(Pred::Sgt),
                        "sge" => Some(Pred::Sge),
                        "slt" => Some(Pred::Slt),
                        "sle" => Some(Pred::Sle),
                        _ => None,
                    };
                    self.i += 1;
                    if pp.is_some() {
                        p = pp;
                        break;
                    }
                }
                let p = p.ok_or("pred")?;
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.expect(',')?;
                let b = self.op(&t)?;
                blk.insts.push(match &t {
                    Ty::Vec(_, e) => Inst::VIcmp { p, ew: e.bits(), d: dd, a, b },
                    _ => Inst::Icmp { p, w: t.bits(), d: dd, a, b },
                });
            }
            "fcmp" => {
                let mut p = String::new();
                while let Some(Tok::W(x)) = self.peek().cloned() {
                    let save = self.i;
                    if let Ok(Some(_)) = self.try_ty() {
                        self.i = save;
                        break;
                    }
                    self.i = save + 1;
                    p = x;
                }
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.expect(',')?;
                let b = self.op(&t)?;
                blk.insts.push(if t.is_scalar() { Inst::Fcmp { p, f32_: t == Ty::F32, d: dd, a, b } } else { Inst::Bad("vector fcmp".into()) });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_words();
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.expect(',')?;
                let b = self.op(&t)?;
                let op = match w.as_str() {
                    "fadd" => '+',
                    "fsub" => '-',
                    "fmul" => '*',
                    "fdiv" => '/',
                    _ => '%',
                };
                blk.insts.push(if t.is_scalar() { Inst::FBin { op, f32_: t == Ty::F32, d: dd, a, b } } else { Inst::Bad("vector float".into()) });
            }
            "fneg" => {
                self.skip_words();
                let t = self.ty()?;
                let a = self.op(&t)?;
                blk.insts.push(Inst::FNeg { f32_: t == Ty::F32, d: dd, a });
            }
            "freeze" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                blk.insts.push(Inst::Mov { d: dd, a });
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = None;
                if self.is_p(',') && !matches!(self.peek_at(1), Some(Tok::W(x)) if x == "align") && !matches!(self.peek_at(1), Some(Tok::M)) {
                    self.i += 1;
                    let it = self.ty()?;
                    n = Some(self.op(&it)?);
                }
                blk.insts.push(Inst::Alloca { size: t.size(), d: dd, n });
            }
            "load" => {
                self.skip_words();
                let t = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                blk.insts.push(Inst::Load { ty: t, d: dd, p });
            }
            "store" => {
                self.skip_words();
                let t = self.ty()?;
                let v = self.op(&t)?;
                self.expect(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                blk.insts.push(Inst::Store { ty: t, v, p });
            }
            "getelementptr" => {
                self.skip_words();
                let et = self.ty()?;
                self.expect(',')?;
                let bt = self.ty()?;
                let base = self.op(&bt)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while self.is_p(',') && !matches!(self.peek_at(1), Some(Tok::M)) {
                    self.i += 1;
                    let it = self.ty()?;
                    let iv = self.op(&it)?;
                    if !first && matches!(cur, Ty::Struct(..)) {
                        let k = match iv {
                            Op::K(Val::C(x)) => x as usize,
                            _ => return Err("struct idx".into()),
                        };
                        off += cur.offset(k) as i64;
                        cur = cur.elems()[k].clone();
                        continue;
                    }
                    let sz = if first {
                        cur.size()
                    } else {
                        let e = match &cur {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                            _ => return Err("gep".into()),
                        };
                        cur = e;
                        cur.size()
                    };
                    first = false;
                    match iv {
                        Op::K(Val::C(x)) => off += crate::expr::sx(x as u128, it.bits()) as i64 * sz as i64,
                        o => idx.push((sz, it.bits(), o)),
                    }
                }
                if bt != Ty::Ptr {
                    blk.insts.push(Inst::Bad("vector gep".into()));
                } else {
                    blk.insts.push(Inst::Gep { d: dd, base, off, idx });
                }
            }
            "select" => {
                self.skip_words();
                let ct = self.ty()?;
                let c = self.op(&ct)?;
                self.expect(',')?;
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.expect(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2)?;
                blk.insts.push(Inst::Select { ty: t, vec_cond: matches!(ct, Ty::Vec(..)), d: dd, c, a, b });
            }
            "extractvalue" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                let mut path = vec![];
                while self.is_p(',') && matches!(self.peek_at(1), Some(Tok::N(_))) {
                    self.i += 1;
                    path.push(self.num()? as usize);
                }
                blk.insts.push(Inst::Extract { d: dd, a, path });
            }
            "insertvalue" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.expect(',')?;
                let vt = self.ty()?;
                let v = self.op(&vt)?;
                let mut path = vec![];
                while self.is_p(',') && matches!(self.peek_at(1), Some(Tok::N(_))) {
                    self.i += 1;
                    path.push(self.num()? as usize);
                }
                blk.insts.push(Inst::Insert { d: dd, a, v, path, ty: t });
            }
            "extractelement" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.expect(',')?;
                let it = self.ty()?;
                let i = self.op(&it)?;
                blk.insts.push(Inst::ExtractEl { d: dd, a, i });
            }
            "insertelement" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.expect(',')?;
                let vt = self.ty()?;
                let v = self.op(&vt)?;
                self.expect(',')?;
                let it = self.ty()?;
                let i = self.op(&it)?;
                blk.insts.push(Inst::InsertEl { d: dd, a, v, i });
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.expect(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2)?;
                self.expect(',')?;
                let mt = self.ty()?;
                let m = self.op(&mt)?;
                let mask = match m {
                    Op::K(Val::Agg(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => *c as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("mask".into()),
                };
                let n = match t {
                    Ty::Vec(n, _) => n,
                    _ => return Err("shuffle".into()),
                };
                blk.insts.push(Inst::Shuffle { d: dd, a, b, n, mask });
            }
            "phi" => {
                self.skip_words();
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expect('[')?;
                    let v = self.op(&t)?;
                    self.expect(',')?;
                    let l = match self.next()? {
                        Tok::L(n) => *self.labels.get(&n).ok_or_else(|| format!("phi label {}", n))?,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    self.expect(']')?;
                    inc.push((l, v));
                    if self.is_p(',') && matches!(self.peek_at(1), Some(Tok::P('['))) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                blk.phis.push(Phi { d: dd, inc });
            }
            "br" => {
                if self.is_w("label") {
                    let l = self.label()?;
                    blk.insts.push(Inst::Br(l));
                } else {
                    let t = self.ty()?;
                    let c = self.op(&t)?;
                    self.expect(',')?;
                    let a = self.label()?;
                    self.expect(',')?;
                    let b = self.label()?;
                    blk.insts.push(Inst::CondBr(c, a, b));
                }
            }
            "switch" => {
                let t = self.ty()?;
                let v = self.op(&t)?;
                self.expect(',')?;
                let def = self.label()?;
                self.expect('[')?;
                let mut cases = vec![];
                while !self.eat(']') {
                    let ct = self.ty()?;
                    let k = match self.next()? {
                        Tok::N(s) => s.parse::<i128>().map_err(|e| e.to_string())?,
                        Tok::W(s) if s == "true" => 1,
                        Tok::W(s) if s == "false" => 0,
                        t => return Err(format!("case {:?}", t)),
                    };
                    self.expect(',')?;
                    let l = self.label()?;
                    cases.push(((k as u128) & crate::expr::mask(ct.bits()), l));
                }
                blk.insts.push(Inst::Switch { w: t.bits(), v, def, cases });
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    blk.insts.push(Inst::Ret(None));
                } else {
                    let v = self.op(&t)?;
                    blk.insts.push(Inst::Ret(Some(v)));
                }
            }
            "unreachable" => blk.insts.push(Inst::Unreachable),
            "fence" => {}
            "landingpad" | "resume" => blk.insts.push(Inst::Bad(w)),
            "cmpxchg" => {
                self.skip_words();
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                self.expect(',')?;
                let t = self.ty()?;
                let c = self.op(&t)?;
                self.expect(',')?;
                let t2 = self.ty()?;
                let n = self.op(&t2)?;
                blk.insts.push(Inst::CmpXchg { ty: t, d: dd, p, c, n });
            }
            "atomicrmw" => {
                if self.is_w("volatile") {
                    self.i += 1;
                }
                let op = match self.next()? {
                    Tok::W(w) => w,
                    _ => return Err("rmw".into()),
                };
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                self.expect(',')?;
                let t = self.ty()?;
                let v = self.op(&t)?;
                blk.insts.push(Inst::Rmw { op, ty: t, d: dd, p, v });
            }
            "call" | "invoke" => {
                self.skip_attrs()?;
                let ret = self.ty()?;
                if self.is_p('(') {
                    self.skip_parens()?;
                }
                let callee;
                if self.eat_w("asm") {
                    while matches!(self.peek(), Some(Tok::W(_))) {
                        self.i += 1;
                    }
                    let s = match self.next()? {
                        Tok::Q(s) => s,
                        t => return Err(format!("asm {:?}", t)),
                    };
                    self.expect(',')?;
                    self.next()?;
                    callee = Callee::Asm(s);
                } else if let Some(Tok::G(n)) = self.peek().cloned() {
                    self.i += 1;
                    match self.cx.fidx.get(&n) {
                        Some(f) => callee = Callee::Direct(*f),
                        None => return Err(format!("unknown function {}", n)),
                    }
                } else {
                    callee = Callee::Indirect(self.op(&Ty::Ptr)?);
                }
                self.expect('(')?;
                let mut args = vec![];
                let mut nop = false;
                while !self.eat(')') {
                    let t = self.ty()?;
                    if t == Ty::Meta {
                        // metadata argument: skip to , or )
                        let mut dpt = 0;
                        while !(dpt == 0 && (self.is_p(',') || self.is_p(')'))) {
                            if self.is_p('(') {
                                dpt += 1
                            }
                            if self.is_p(')') {
                                dpt -= 1
                            }
                            self.i += 1;
                        }
                        nop = true;
                    } else {
                        self.skip_attrs()?;
                        let v = self.op(&t)?;
                        args.push((t, v));
                    }
                    self.eat(',');
                }
                let mut normal = None;
                if w == "invoke" {
                    while !self.is_w("to") {
                        self.i += 1;
                        if self.i > self.t.len() {
                            return Err("invoke".into());
                        }
                    }
                    self.i += 1;
                    normal = Some(self.label()?);
                }
                if nop {
                    if let Some(l) = normal {
                        blk.insts.push(Inst::Br(l));
                    }
                } else {
                    blk.insts.push(Inst::Call { d, ret, callee, args, normal });
                }
            }
            _ => return Err(format!("unknown opcode {}", w)),
        }
        Ok(())
    }
}

fn parse_f(s: &str) -> R<f64> {
    if let Some(h) = s.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).map(f64::from_bits).map_err(|e| e.to_string());
    }
    s.parse().map_err(|_| format!("float {}", s))
}

pub fn mkconst(ar: *mut Arena, v: u128, w: u32) -> Val {
    let v = v & crate::expr::mask(w);
    if w <= 64 {
        Val::C(v as u64)
    } else {
        Val::S(unsafe { (*ar).konst(v, w) })
    }
}

fn flatten(ar: &Arena, t: &Ty, v: &Val, out: &mut Vec<u8>) -> R<()> {
    let want = out.len() + t.size() as usize;
    match (t, v) {
        (Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32, Val::C(x)) => out.extend_from_slice(&x.to_le_bytes()[..(t.size() as usize).min(8)]),
        (Ty::Int(_), Val::S(e)) => {
            let k = ar.c(*e).ok_or("const")?;
            out.extend_from_slice(&k.to_le_bytes()[..t.size() as usize]);
        }
        (_, Val::Agg(f)) => {
            let start = out.len();
            for (i, (ft, fv)) in t.elems().iter().zip(f.iter()).enumerate() {
                let o = t.offset(i) as usize;
                out.resize(start + o, 0);
                flatten(ar, ft, fv, out)?;
            }
        }
        _ => return Err("flatten".into()),
    }
    out.resize(want, 0);
    Ok(())
}

pub fn parse(text: &str, ar: &mut Arena) -> R<Module> {
    let mut cx = Cx { ar: ar as *mut Arena, gaddr: HashMap::new(), fidx: HashMap::new() };
    let lines: Vec<&str> = text.split('\n').collect();
    let mut funcs: Vec<Func> = vec![];
    let mut globals: Vec<Global> = vec![];
    let mut glines: Vec<(usize, &str)> = vec![];
    let mut fbodies: Vec<(u32, usize, usize)> = vec![];
    let mut i = 0;
    let mut pretty = String::new();
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("; ") {
            if !l.starts_with("; Function Attrs") {
                pretty = l[2..].to_string();
            }
        } else if l.starts_with('@') {
            let name = gname(l);
            cx.gaddr.insert(name.clone(), (GLOBAL_BASE + globals.len() as u64) << 32);
            globals.push(Global { name, init: None, size: 0, constant: false });
            glines.push((globals.len() - 1, l));
        } else if l.starts_with("define") || l.starts_with("declare") {
            let at = l.find('@').ok_or("fn name")?;
            let name = gname(&l[at..]);
            let f = funcs.len() as u32;
            let weak = l.contains("extern_weak");
            let intr = intr_for(&name);
            let addr = if weak && intr == crate::exec::Intr::None { 0 } else { (FUNC_BASE + f as u64) << 32 };
            cx.gaddr.insert(name.clone(), addr);
            cx.fidx.insert(name.clone(), f);
            let defined = l.starts_with("define");
            let p = if pretty.is_empty() { name.clone() } else { std::mem::take(&mut pretty) };
            funcs.push(Func { name, pretty: p, nargs: 0, nregs: 0, blocks: vec![], defined, intr });
            if defined {
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                fbodies.push((f, st, i));
            }
            pretty.clear();
        }
        i += 1;
    }
    for (gi, l) in &glines {
        let eq = l.find(" = ").ok_or("global")?;
        let mut p = P { t: lex(&l[eq + 3..]), i: 0, cx: &mut cx, regs: HashMap::new(), nregs: 0, labels: HashMap::new() };
        let mut external = false;
        loop {
            match p.next()? {
                Tok::W(w) if w == "constant" => {
                    globals[*gi].constant = true;
                    break;
                }
                Tok::W(w) if w == "global" => break,
                Tok::W(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true
                    }
                    if w == "thread_local" && p.is_p('(') {
                        p.skip_parens()?;
                    }
                }
                t => return Err(format!("global {:?} in {}", t, &l[..l.len().min(200)])),
            }
        }
        let t = p.ty()?;
        globals[*gi].size = t.size();
        if !external {
            let v = p.constval(&t).map_err(|e| format!("{} in {}", e, &l[..l.len().min(300)]))?;
            let mut out = vec![];
            flatten(ar, &t, &v, &mut out)?;
            globals[*gi].init = Some(out);
        } else {
            cx.gaddr.insert(globals[*gi].name.clone(), 0);
        }
    }
    // second pass for references to external globals (address 0) is not needed
    // by the programs we run; function bodies:
    for (f, st, en) in fbodies {
        let r = parse_body(&lines[st..en], &mut cx);
        match r {
            Ok((nargs, nregs, blocks)) => {
                let fu = &mut funcs[f as usize];
                fu.nargs = nargs;
                fu.nregs = nregs;
                fu.blocks = blocks;
            }
            Err(e) => {
                return Err(format!("{}: {}", funcs[f as usize].pretty, e));
            }
        }
    }
    let func_by_name = funcs.iter().enumerate().map(|(i, f)| (f.name.clone(), i as u32)).collect();
    Ok(Module { funcs, globals, func_by_name })
}

fn gname(l: &str) -> String {
    let b = l.as_bytes();
    if b[1] == b'"' {
        let e = l[2..].find('"').unwrap();
        l[2..2 + e].to_string()
    } else {
        let mut j = 1;
        while j < b.len() && is_id(b[j]) {
            j += 1;
        }
        l[1..j].to_string()
    }
}

fn parse_body(lines: &[&str], cx: &mut Cx) -> R<(u32, u32, Vec<Block>)> {
    // header
    let hdr = lines[0];
    let mut p = P { t: lex(hdr), i: 0, cx, regs: HashMap::new(), nregs: 0, labels: HashMap::new() };
    while !matches!(p.peek(), Some(Tok::G(_))) {
        p.i += 1;
    }
    p.i += 1;
    p.expect('(')?;
    let mut nargs = 0;
    let mut unnamed = 0;
    while !p.eat(')') {
        if p.eat('.') {
            // varargs
            p.i += 1;
            continue;
        }
        let _t = p.ty()?;
        p.skip_attrs()?;
        let n = match p.peek().cloned() {
            Some(Tok::L(n)) => {
                p.i += 1;
                n
            }
            _ => format!("{}", unnamed),
        };
        if n == unnamed.to_string() {
            unnamed += 1;
        }
        p.reg(&n);
        nargs += 1;
        p.eat(',');
    }
    // logical instructions
    let mut items: Vec<(bool, String)> = vec![];
    for l in &lines[1..] {
        if l.trim().is_empty() || l.trim_start().starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = if l.starts_with('"') {
                let e = l[1..].find('"').unwrap();
                l[1..1 + e].to_string()
            } else {
                l[..l.find(':').ok_or("label line")?].to_string()
            };
            items.push((true, lab));
        } else if l.starts_with("  ") && !l[2..].starts_with(' ') && !l[2..].starts_with(']') {
            items.push((false, l.to_string()));
        } else if let Some(x) = items.last_mut() {
            x.1.push('\n');
            x.1.push_str(l);
        }
    }
    if !items.first().map(|x| x.0).unwrap_or(false) {
        items.insert(0, (true, unnamed.to_string()));
    }
    let mut nb = 0;
    for (is, l) in &items {
        if *is {
            p.labels.insert(l.clone(), nb);
            nb += 1;
        }
    }
    let mut blocks: Vec<Block> = vec![];
    for (is, l) in &items {
        if *is {
            blocks.push(Block::default());
            continue;
        }
        // cut trailing metadata
        p.t = lex(l);
        p.i = 0;
        let b = blocks.last_mut().unwrap();
        if l.contains("@llvm.experimental.noalias") || l.contains("@llvm.lifetime") || l.contains("@llvm.assume") || l.contains("@llvm.dbg") {
            if !l.trim_start().starts_with("invoke") {
                continue;
            }
        }
        p.inst(b).map_err(|e| format!("{} in `{}`", e, &l[..l.len().min(300)]))?;
    }
    Ok((nargs, p.nregs, blocks))
}
