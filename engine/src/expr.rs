//! Hash-consed bit-vector expression DAG with local simplification.
//! Widths are 1..=128 bits.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0.rotate_left(26)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpOp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Sym(u32),
    Bin(BinOp, Eid, Eid),
    Cmp(CmpOp, Eid, Eid),
    Ite(Eid, Eid, Eid),
    Zext(Eid),
    Sext(Eid),
    Extract(Eid, u8),    // low bit; width = node width
    Concat(Eid, Eid),    // hi, lo
    Table(Eid, u32),     // 64-bit index expression, table number
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn ev_bin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    r & m
}
pub fn ev_cmp(op: CmpOp, w: u32, a: u128, b: u128) -> bool {
    match op {
        CmpOp::Eq => a == b,
        CmpOp::Ult => a < b,
        CmpOp::Ule => a <= b,
        CmpOp::Slt => sx(a, w) < sx(b, w),
        CmpOp::Sle => sx(a, w) <= sx(b, w),
    }
}

pub struct SymInfo {
    pub name: String,
    pub width: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u8>,
    pub vars: Vec<u32>, // id into varsets
    index: FxMap<(Node, u8), Eid>,
    pub varsets: Vec<Rc<[u32]>>,
    vs_index: HashMap<Rc<[u32]>, u32>,
    vs_union: FxMap<(u32, u32), u32>,
    pub syms: Vec<SymInfo>,
    sym_by_name: HashMap<(String, u32), u32>,
    pub tables: Vec<Rc<[u128]>>,
    table_index: HashMap<Rc<[u128]>, u32>,
    consts: Vec<(u128, u32, Eid)>,
}

impl Arena {
    pub fn new() -> Self {
        let empty: Rc<[u32]> = Rc::from(Vec::new());
        let mut vs_index = HashMap::new();
        vs_index.insert(empty.clone(), 0);
        Arena {
            nodes: vec![],
            width: vec![],
            vars: vec![],
            index: Default::default(),
            varsets: vec![empty],
            vs_index,
            vs_union: Default::default(),
            syms: vec![],
            sym_by_name: HashMap::new(),
            tables: vec![],
            table_index: HashMap::new(),
            consts: vec![(0, 0, 0); 1 << 16],
        }
    }
    fn vs_intern(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = Rc::from(v);
        if let Some(&i) = self.vs_index.get(&r) {
            return i;
        }
        let i = self.varsets.len() as u32;
        self.varsets.push(r.clone());
        self.vs_index.insert(r, i);
        i
    }
    pub fn vs_merge(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&i) = self.vs_union.get(&k) {
            return i;
        }
        let mut v: Vec<u32> = self.varsets[a as usize].to_vec();
        v.extend_from_slice(&self.varsets[b as usize]);
        v.sort_unstable();
        v.dedup();
        let i = self.vs_intern(v);
        self.vs_union.insert(k, i);
        i
    }
    fn mk(&mut self, n: Node, w: u32) -> Eid {
        debug_assert!(w >= 1 && w <= 128);
        if let Some(&i) = self.index.get(&(n.clone(), w as u8)) {
            return i;
        }
        let vs = match &n {
            Node::Const(_) => 0,
            Node::Sym(s) => self.vs_intern(vec![*s]),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                let (x, y) = (self.vars[*a as usize], self.vars[*b as usize]);
                self.vs_merge(x, y)
            }
            Node::Ite(c, a, b) => {
                let (z, x, y) = (self.vars[*c as usize], self.vars[*a as usize], self.vars[*b as usize]);
                let t = self.vs_merge(z, x);
                self.vs_merge(t, y)
            }
            Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) | Node::Table(a, _) => self.vars[*a as usize],
        };
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.width.push(w as u8);
        self.vars.push(vs);
        self.index.insert((n, w as u8), i);
        i
    }
    pub fn w(&self, e: Eid) -> u32 {
        self.width[e as usize] as u32
    }
    pub fn node(&self, e: Eid) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn c(&self, e: Eid) -> Option<u128> {
        if let Node::Const(v) = self.nodes[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn varset(&self, e: Eid) -> Rc<[u32]> {
        self.varsets[self.vars[e as usize] as usize].clone()
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Eid {
        let v = v & mask(w);
        let h = ((v as u64 ^ (v >> 64) as u64 ^ ((w as u64) << 57)).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48) as usize;
        let (cv, cw, ce) = self.consts[h];
        if cv == v && cw == w {
            return ce;
        }
        let e = self.mk(Node::Const(v), w);
        self.consts[h] = (v, w, e);
        e
    }
    pub fn sym(&mut self, name: &str, w: u32) -> (Eid, u32) {
        let key = (name.to_string(), w);
        let id = match self.sym_by_name.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.syms.len() as u32;
                self.syms.push(SymInfo { name: name.to_string(), width: w });
                self.sym_by_name.insert(key, i);
                i
            }
        };
        (self.mk(Node::Sym(id), w), id)
    }
    pub fn not(&mut self, a: Eid) -> Eid {
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.bin(BinOp::Xor, a, m)
    }
    pub fn bin(&mut self, op: BinOp, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin {:?}", op);
        let (ca, cb) = (self.c(a), self.c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(ev_bin(op, w, x, y), w);
        }
        use BinOp::*;
        // canonical: constants on the right for commutative operators
        let (a, b, ca, cb) = if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                Add | Sub | Or | Xor | Shl | LShr | AShr if y == 0 => return a,
                Mul | And if y == 0 => return self.konst(0, w),
                Mul | UDiv | SDiv if y == 1 => return a,
                And if y == m => return a,
                Or if y == m => return b,
                Shl | LShr if y >= w as u128 => return self.konst(0, w),
                URem if y == 1 => return self.konst(0, w),
                Sub => {
                    let k = self.konst(0u128.wrapping_sub(y), w);
                    return self.bin(Add, a, k);
                }
                _ => {}
            }
            match (op, self.node(a).clone()) {
                (Add, Node::Bin(Add, x, k)) | (Xor, Node::Bin(Xor, x, k)) | (And, Node::Bin(And, x, k)) | (Or, Node::Bin(Or, x, k)) => {
                    if let Some(kk) = self.c(k) {
                        let nk = self.konst(ev_bin(op, w, kk, y), w);
                        return self.bin(op, x, nk);
                    }
                }
                (And, Node::Zext(x)) => {
                    let wx = self.w(x);
                    let k = self.konst(y & mask(wx), wx);
                    let t = self.bin(And, x, k);
                    return self.zext(t, w);
                }
                (Or, Node::Zext(x)) | (Xor, Node::Zext(x)) if y & !mask(self.w(x)) == 0 => {
                    let wx = self.w(x);
                    let k = self.konst(y, wx);
                    let t = self.bin(op, x, k);
                    return self.zext(t, w);
                }
                (Xor, Node::Cmp(..)) if w == 1 => {
                    if let Node::Cmp(c, p, q) = self.node(a).clone() {
                        match c {
                            CmpOp::Ult => return self.cmp(CmpOp::Ule, q, p),
                            CmpOp::Ule => return self.cmp(CmpOp::Ult, q, p),
                            CmpOp::Slt => return self.cmp(CmpOp::Sle, q, p),
                            CmpOp::Sle => return self.cmp(CmpOp::Slt, q, p),
                            CmpOp::Eq => {}
                        }
                    }
                }
                (_, Node::Ite(c, p, q)) => {
                    if self.c(p).is_some() && self.c(q).is_some() {
                        let x = self.bin(op, p, b);
                        let z = self.bin(op, q, b);
                        return self.ite(c, x, z);
                    }
                }
                (LShr, _) => {
                    let s = y as u32;
                    let t = self.extract(a, s, w - s);
                    return self.zext(t, w);
                }
                (And, _) if (y & (y + 1)) == 0 => {
                    let n = y.count_ones();
                    let t = self.extract(a, 0, n);
                    return self.zext(t, w);
                }
                (URem, _) if y.is_power_of_two() => {
                    let k = self.konst(y - 1, w);
                    return self.bin(And, a, k);
                }
                (UDiv, _) if y.is_power_of_two() => {
                    let k = self.konst(y.trailing_zeros() as u128, w);
                    return self.bin(LShr, a, k);
                }
                (Mul, _) if y.is_power_of_two() => {
                    let k = self.konst(y.trailing_zeros() as u128, w);
                    return self.bin(Shl, a, k);
                }
                (Shl, _) => {
                    // normalise a left shift to concat so byte assembly recombines
                    let s = y as u32;
                    let hi = self.extract(a, 0, w - s);
                    let lo = self.konst(0, s);
                    return self.concat(hi, lo);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Sub | Xor => return self.konst(0, w),
                And | Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            // boolean absorption with a negated operand
            if let Node::Bin(Xor, x, k) = self.node(a) {
                if *x == b && self.c(*k) == Some(1) {
                    if op == And {
                        return self.konst(0, 1);
                    }
                    if op == Or {
                        return self.konst(1, 1);
                    }
                }
            }
            if let Node::Bin(Xor, x, k) = self.node(b) {
                if *x == a && self.c(*k) == Some(1) {
                    if op == And {
                        return self.konst(0, 1);
                    }
                    if op == Or {
                        return self.konst(1, 1);
                    }
                }
            }
        }
        if op == Or {
            // or of disjoint concat pieces
            if let Some(r) = self.or_disjoint(a, b, w) {
                return r;
            }
        }
        let (a, b) = if matches!(op, Add | Mul | And | Or | Xor) && self.c(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Node::Bin(op, a, b), w)
    }
    /// low `n` bits known zero / high bits known zero
    fn known_zero_low(&self, e: Eid) -> u32 {
        match self.node(e) {
            Node::Const(v) => {
                if *v == 0 {
                    self.w(e)
                } else {
                    v.trailing_zeros()
                }
            }
            Node::Concat(_, lo) if self.c(*lo) == Some(0) => self.w(*lo),
            _ => 0,
        }
    }
    fn known_zero_high(&self, e: Eid) -> u32 {
        match self.node(e) {
            Node::Const(v) => {
                if *v == 0 {
                    self.w(e)
                } else {
                    v.leading_zeros() - (128 - self.w(e))
                }
            }
            Node::Zext(x) => self.w(e) - self.w(*x),
            Node::Concat(hi, _) => {
                let k = self.known_zero_high(*hi);
                k
            }
            _ => 0,
        }
    }
    fn or_disjoint(&mut self, a: Eid, b: Eid, w: u32) -> Option<Eid> {
        for (x, y) in [(a, b), (b, a)] {
            let l = self.known_zero_low(x);
            if l > 0 && l < w {
                let h = self.known_zero_high(y);
                if w - h <= l {
                    let hi = self.extract(x, l, w - l);
                    let lo = self.extract(y, 0, l);
                    return Some(self.concat(hi, lo));
                }
            }
        }
        None
    }
    pub fn cmp(&mut self, op: CmpOp, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.c(a), self.c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(ev_cmp(op, w, x, y) as u128, 1);
        }
        if a == b {
            return self.konst(matches!(op, CmpOp::Eq | CmpOp::Ule | CmpOp::Sle) as u128, 1);
        }
        use CmpOp::*;
        if op == Eq {
            let (a, b) = if ca.is_some() { (b, a) } else { (a, b) };
            if let Some(y) = self.c(b) {
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                match self.node(a).clone() {
                    Node::Zext(x) => {
                        let wx = self.w(x);
                        if y > mask(wx) {
                            return self.konst(0, 1);
                        }
                        let k = self.konst(y, wx);
                        return self.cmp(Eq, x, k);
                    }
                    Node::Sext(x) => {
                        let wx = self.w(x);
                        let t = y & mask(wx);
                        if (sx(t, wx) as u128) & mask(w) != y {
                            return self.konst(0, 1);
                        }
                        let k = self.konst(t, wx);
                        return self.cmp(Eq, x, k);
                    }
                    Node::Ite(c, p, q) => {
                        let (cp, cq) = (self.c(p), self.c(q));
                        if cp.is_some() || cq.is_some() {
                            let x = self.cmp(Eq, p, b);
                            let z = self.cmp(Eq, q, b);
                            return self.ite(c, x, z);
                        }
                    }
                    Node::Bin(BinOp::Add, x, k) => {
                        if let Some(kk) = self.c(k) {
                            let nk = self.konst(y.wrapping_sub(kk), w);
                            return self.cmp(Eq, x, nk);
                        }
                    }
                    Node::Bin(BinOp::Xor, x, k) => {
                        if let Some(kk) = self.c(k) {
                            let nk = self.konst(y ^ kk, w);
                            return self.cmp(Eq, x, nk);
                        }
                    }
                    Node::Concat(h, l) => {
                        let wl = self.w(l);
                        let wh = self.w(h);
                        if self.c(l).is_some() || self.c(h).is_some() {
                            let kl = self.konst(y & mask(wl), wl);
                            let kh = self.konst(y >> wl, wh);
                            let x = self.cmp(Eq, h, kh);
                            let z = self.cmp(Eq, l, kl);
                            return self.bin(BinOp::And, x, z);
                        }
                    }
                    _ => {}
                }
            } else if let (Node::Zext(x), Node::Zext(y)) = (self.node(a).clone(), self.node(b).clone()) {
                if self.w(x) == self.w(y) {
                    return self.cmp(Eq, x, y);
                }
            }
            let (a, b) = if self.c(b).is_none() && a > b { (b, a) } else { (a, b) };
            return self.mk(Node::Cmp(Eq, a, b), 1);
        }
        let m = mask(w);
        let smin = 1u128 << (w - 1);
        if let Some(y) = cb {
            match op {
                Ult if y == 0 => return self.konst(0, 1),
                Ule if y == m => return self.konst(1, 1),
                Ult if y == 1 => {
                    let k = self.konst(0, w);
                    return self.cmp(Eq, a, k);
                }
                Ule if y == 0 => return self.cmp(Eq, a, b),
                Slt if y == smin => return self.konst(0, 1),
                Sle if y == smin - 1 => return self.konst(1, 1),
                _ => {}
            }
            if let Node::Zext(x) = self.node(a).clone() {
                let wx = self.w(x);
                let mx = mask(wx);
                let signed_neg = matches!(op, Slt | Sle) && y & smin != 0;
                if signed_neg {
                    return self.konst(0, 1);
                }
                let uop = if matches!(op, Ult | Slt) { Ult } else { Ule };
                if y > mx {
                    return self.konst(1, 1);
                }
                let k = self.konst(y, wx);
                return self.cmp(uop, x, k);
            }
            if let Node::Ite(c, p, q) = self.node(a).clone() {
                if self.c(p).is_some() && self.c(q).is_some() {
                    let x = self.cmp(op, p, b);
                    let z = self.cmp(op, q, b);
                    return self.ite(c, x, z);
                }
            }
        }
        if let Some(x) = ca {
            match op {
                Ult if x == m => return self.konst(0, 1),
                Ule if x == 0 => return self.konst(1, 1),
                Ult if x == 0 => {
                    let e = self.cmp(Eq, b, a);
                    return self.not(e);
                }
                _ => {}
            }
            if let Node::Zext(z) = self.node(b).clone() {
                let wx = self.w(z);
                let mx = mask(wx);
                let signed_neg = matches!(op, Slt | Sle) && x & smin != 0;
                if signed_neg {
                    return self.konst(1, 1);
                }
                let uop = if matches!(op, Ult | Slt) { Ult } else { Ule };
                if x > mx {
                    return self.konst(0, 1);
                }
                let k = self.konst(x, wx);
                return self.cmp(uop, k, z);
            }
            if let Node::Ite(c, p, q) = self.node(b).clone() {
                if self.c(p).is_some() && self.c(q).is_some() {
                    let x = self.cmp(op, a, p);
                    let z = self.cmp(op, a, q);
                    return self.ite(c, x, z);
                }
            }
        }
        if let (Node::Zext(x), Node::Zext(y)) = (self.node(a).clone(), self.node(b).clone()) {
            if self.w(x) == self.w(y) {
                let uop = if matches!(op, Ult | Slt) { Ult } else { Ule };
                return self.cmp(uop, x, y);
            }
        }
        self.mk(Node::Cmp(op, a, b), 1)
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(v) = self.c(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.c(a), self.c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(BinOp::And, n, b);
                }
                (None, Some(0)) => return self.bin(BinOp::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(BinOp::Or, n, a);
                }
                _ => {}
            }
        }
        if let Node::Bin(BinOp::Xor, x, k) = self.node(c).clone() {
            if self.c(k) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if let (Node::Zext(x), Node::Zext(y)) = (self.node(a).clone(), self.node(b).clone()) {
            if self.w(x) == self.w(y) {
                let t = self.ite(c, x, y);
                return self.zext(t, w);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.c(a) {
            return self.konst(v, w);
        }
        match self.node(a).clone() {
            Node::Zext(x) => return self.zext(x, w),
            _ => {}
        }
        self.mk(Node::Zext(a), w)
    }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.c(a) {
            return self.konst(sx(v, wa) as u128, w);
        }
        match self.node(a).clone() {
            Node::Zext(x) => return self.zext(x, w),
            Node::Sext(x) => return self.sext(x, w),
            _ => {}
        }
        self.mk(Node::Sext(a), w)
    }
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        if let Some(v) = self.c(a) {
            return self.konst(v >> lo, w);
        }
        match self.node(a).clone() {
            Node::Extract(x, l2) => return self.extract(x, lo + l2 as u32, w),
            Node::Zext(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.konst(0, w);
                }
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                let t = self.extract(x, lo, wx - lo);
                return self.zext(t, w);
            }
            Node::Sext(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                let x = self.extract(h, 0, lo + w - wl);
                let y = self.extract(l, lo, wl - lo);
                return self.concat(x, y);
            }
            Node::Ite(c, p, q) => {
                if self.c(p).is_some() || self.c(q).is_some() {
                    let x = self.extract(p, lo, w);
                    let y = self.extract(q, lo, w);
                    return self.ite(c, x, y);
                }
            }
            Node::Bin(op, x, y) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) || (lo == 0 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul)) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            _ => {}
        }
        self.mk(Node::Extract(a, lo as u8), w)
    }
    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        match (self.c(hi), self.c(lo)) {
            (Some(h), Some(l)) => return self.konst((h << wl) | l, w),
            (Some(0), None) => return self.zext(lo, w),
            _ => {}
        }
        if let (Node::Extract(x, lx), Node::Extract(y, ly)) = (self.node(hi).clone(), self.node(lo).clone()) {
            if x == y && lx as u32 == ly as u32 + wl {
                return self.extract(x, ly as u32, w);
            }
        }
        if let (Node::Extract(x, lx), y) = (self.node(hi).clone(), lo) {
            if x == y && false {
                let _ = lx;
            }
        }
        // concat(concat(a,b),c) -> concat(a, concat(b,c)) when b,c merge
        if let Node::Concat(a, b) = self.node(hi).clone() {
            let t = self.concat(b, lo);
            if !matches!(self.node(t), Node::Concat(..)) {
                return self.concat(a, t);
            }
        }
        if let Node::Zext(x) = self.node(hi).clone() {
            // zero-extended high part: pull the zero out
            let t = self.concat(x, lo);
            return self.zext(t, w);
        }
        if let (Some(h), Node::Concat(h2, l2)) = (self.c(hi), self.node(lo).clone()) {
            if let Some(hh2) = self.c(h2) {
                let w2 = self.w(h2);
                let k = self.konst((h << w2) | hh2, wh + w2);
                return self.concat(k, l2);
            }
        }
        self.mk(Node::Concat(hi, lo), w)
    }
    pub fn table(&mut self, idx: Eid, t: Vec<u128>, w: u32) -> Eid {
        if let Some(i) = self.c(idx) {
            return self.konst(t[i as usize], w);
        }
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(t[0], w);
        }
        let r: Rc<[u128]> = Rc::from(t);
        let id = match self.table_index.get(&r) {
            Some(&i) => i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(r.clone());
                self.table_index.insert(r, i);
                i
            }
        };
        self.mk(Node::Table(idx, id), w)
    }
    /// Evaluate under a total assignment (indexed by sym id; missing = 0).
    pub fn eval(&self, e: Eid, model: &[u128], memo: &mut FxMap<Eid, u128>) -> u128 {
        if let Node::Const(v) = self.nodes[e as usize] {
            return v;
        }
        if let Node::Sym(s) = self.nodes[e as usize] {
            return model.get(s as usize).copied().unwrap_or(0);
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        // iterative to avoid deep recursion on long chains
        let mut stack = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let n = &self.nodes[x as usize];
            let get = |k: Eid, memo: &FxMap<Eid, u128>| -> Option<u128> {
                match self.nodes[k as usize] {
                    Node::Const(v) => Some(v),
                    Node::Sym(s) => Some(model.get(s as usize).copied().unwrap_or(0)),
                    _ => memo.get(&k).copied(),
                }
            };
            let kids: [Option<Eid>; 3] = match n {
                Node::Const(_) | Node::Sym(_) => [None, None, None],
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => [Some(*a), Some(*b), None],
                Node::Ite(c, a, b) => [Some(*c), Some(*a), Some(*b)],
                Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) | Node::Table(a, _) => [Some(*a), None, None],
            };
            if !ready {
                stack.push((x, true));
                for k in kids.iter().flatten() {
                    if get(*k, memo).is_none() {
                        stack.push((*k, false));
                    }
                }
                continue;
            }
            let w = self.width[x as usize] as u32;
            let g = |i: usize| get(kids[i].unwrap(), memo).unwrap();
            let v = match n {
                Node::Const(v) => *v,
                Node::Sym(s) => model.get(*s as usize).copied().unwrap_or(0),
                Node::Bin(op, _, _) => ev_bin(*op, w, g(0), g(1)),
                Node::Cmp(op, a, _) => ev_cmp(*op, self.width[*a as usize] as u32, g(0), g(1)) as u128,
                Node::Ite(..) => {
                    if g(0) == 1 {
                        g(1)
                    } else {
                        g(2)
                    }
                }
                Node::Zext(_) => g(0),
                Node::Sext(a) => (sx(g(0), self.width[*a as usize] as u32) as u128) & mask(w),
                Node::Extract(_, lo) => (g(0) >> lo) & mask(w),
                Node::Concat(_, l) => (g(0) << self.width[*l as usize]) | g(1),
                Node::Table(_, t) => {
                    let t = &self.tables[*t as usize];
                    let i = g(0) as usize;
                    if i < t.len() {
                        t[i]
                    } else {
                        0
                    }
                }
            };
            memo.insert(x, v);
        }
        memo[&e]
    }
    pub fn show(&self, e: Eid, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match &self.nodes[e as usize] {
            Node::Const(v) => format!("{}:{}", v, self.w(e)),
            Node::Sym(s) => self.syms[*s as usize].name.clone(),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(*a, d), self.show(*b, d)),
            Node::Cmp(op, a, b) => format!("({:?} {} {})", op, self.show(*a, d), self.show(*b, d)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, d), self.show(*a, d), self.show(*b, d)),
            Node::Zext(a) => format!("(zext{} {})", self.w(e), self.show(*a, d)),
            Node::Sext(a) => format!("(sext{} {})", self.w(e), self.show(*a, d)),
            Node::Extract(a, l) => format!("(ex[{}+{}] {})", l, self.w(e), self.show(*a, d)),
            Node::Concat(a, b) => format!("(cat {} {})", self.show(*a, d), self.show(*b, d)),
            Node::Table(a, t) => format!("(tbl{} {})", t, self.show(*a, d)),
        }
    }
}
