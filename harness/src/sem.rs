//! Meaning of programs: syntax trees with symbolic names, their text, a reference
//! interpreter, the static rules, and a machine for the compiled code.  Both
//! executions run on opaque values; every effect is an event, and the outcome of
//! every test on an opaque value is a solver-chosen decision shared by the two.
use crate::{code, sym};
use dice_bytecode::{Bytecode, ConstantValue, Instruction};

// ---------------------------------------------------------------- syntax
/// a name of one symbolic letter
pub type Letter = u8;
pub type Name = u128;
pub fn pack(s: &str) -> Name {
    let b = s.as_bytes();
    let mut v = 0u128;
    let mut i = 0;
    while i < b.len() && i < 15 {
        v |= (b[i] as u128) << (8 * i);
        i += 1;
    }
    v | (b.len() as u128) << 120
}
pub fn letter(c: Letter) -> Name {
    if c < b'A' {
        return pack(spelled(c));
    }
    c as u128 | 1 << 120
}
/// digits stand for longer names, most of them alike
pub fn spelled(c: Letter) -> &'static str {
    match c {
        b'1' => "k1",
        b'2' => "kk",
        b'3' => "k_",
        b'4' => "longnamea",
        b'5' => "longnameb",
        b'6' => "longname",
        b'7' => "_k",
        b'8' => "long_name_8",
        b'9' => "lets",
        _ => sym::fail(FAULT),
    }
}

#[derive(Clone)]
pub enum X {
    Var(Letter),
    /// a fixed name, such as `self`
    Word(&'static str),
    Int(i64),
    Str(&'static str),
    Float(&'static str),
    Null,
    Unit,
    Bool(bool),
    /// 0 `-`, 1 `!`
    Un(u8, Box<X>),
    /// index into OPS
    Bin(u8, Box<X>, Box<X>),
    And(Box<X>, Box<X>),
    Or(Box<X>, Box<X>),
    Coal(Box<X>, Box<X>),
    Pipe(Box<X>, Box<X>),
    Range(bool, Box<X>, Box<X>),
    Is(Box<X>, Letter, bool),
    Field(Box<X>, Letter),
    Index(Box<X>, Box<X>),
    Call(Box<X>, Vec<X>),
    NProp(Box<X>),
    EProp(Box<X>),
    /// target, compound operator (index into OPS), value
    Set(Box<X>, Option<u8>, Box<X>),
    List(Vec<X>),
    Obj(Vec<(Letter, X)>),
    Lam(Vec<Param>, Box<X>),
    Block(Vec<X>),
    If(Box<X>, Vec<X>, Option<Box<X>>),
    While(Box<X>, Vec<X>),
    Loop(Vec<X>),
    For(Letter, Box<X>, Vec<X>),
    Break,
    Continue,
    Ret(Option<Box<X>>),
    Let(bool, Letter, Option<Ty>, Box<X>),
    LetD(bool, Vec<Letter>, Box<X>),
    Fn(Box<FnD>),
    Class(Box<ClassD>),
    /// a global operator
    Op(u8, Box<FnD>),
    Import(Option<Letter>, Vec<Letter>),
    Export(Box<X>),
    Handler(Box<X>, Letter, Vec<X>),
    SuperCall(Vec<X>),
    SuperField(Option<Letter>, Letter),
}
#[derive(Clone, Copy)]
pub struct Ty {
    pub name: Letter,
    pub null: bool,
}
#[derive(Clone, Copy)]
pub struct Param {
    pub name: Letter,
    pub ty: Option<Ty>,
}
#[derive(Clone)]
pub struct FnD {
    /// one letter, or 0 for `new`
    pub name: Letter,
    pub self_: bool,
    pub params: Vec<Param>,
    pub ret: Option<Ty>,
    pub body: Vec<X>,
}
#[derive(Clone)]
pub struct ClassD {
    pub name: Letter,
    pub base: Option<X>,
    pub items: Vec<(Option<u8>, FnD)>,
}
pub const OPS: &[(&str, u8, &str)] = &[
    ("*", 8, "#mul"),
    ("/", 8, "#div"),
    ("%", 8, "#rem"),
    ("+", 7, "#add"),
    ("-", 7, "#sub"),
    (">", 6, "#gt"),
    (">=", 6, "#gte"),
    ("<", 6, "#lt"),
    ("<=", 6, "#lte"),
    ("==", 6, "#eq"),
    ("!=", 6, "#neq"),
    ("..", 3, "#range_exclusive"),
    ("..=", 3, "#range_inclusive"),
];
pub const MUL: u8 = 0;
pub const ADD: u8 = 3;
pub const SUB: u8 = 4;
pub const LT: u8 = 7;
pub const LTE: u8 = 8;
pub const EQ: u8 = 9;
pub const NEQ: u8 = 10;
pub const RX: u8 = 11;
pub const RI: u8 = 12;

pub fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}
fn level(x: &X) -> u8 {
    match x {
        X::Set(..) | X::Lam(..) => 0,
        X::Pipe(..) => 1,
        X::Coal(..) | X::Handler(..) => 2,
        X::Range(..) => 3,
        X::Or(..) => 4,
        X::And(..) => 5,
        X::Is(..) => 6,
        X::Bin(o, ..) => OPS[*o as usize].1,
        X::Un(..) => 9,
        X::NProp(..) | X::EProp(..) | X::Field(..) | X::Index(..) | X::Call(..) => 10,
        X::If(..) | X::Block(..) => 0,
        _ => 13,
    }
}
pub struct Text {
    pub s: String,
    /// parenthesise every operand
    pub full: bool,
}
impl Text {
    fn p(&mut self, t: &str) {
        self.s.push_str(t)
    }
    fn l(&mut self, c: Letter) {
        if c < b'A' {
            return self.p(spelled(c));
        }
        unsafe { self.s.as_mut_vec().push(c) }
    }
    fn at(&mut self, x: &X, min: u8) {
        let lv = level(x);
        if lv < min || self.full && lv < 13 && min > 0 {
            self.p("(");
            self.x(x);
            self.p(")");
        } else {
            self.x(x)
        }
    }
    fn ty(&mut self, t: &Ty) {
        self.l(t.name);
        if t.null {
            self.p("?");
        }
    }
    fn list(&mut self, v: &[X]) {
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.p(", ");
            }
            self.at(x, 0);
        }
    }
    fn params(&mut self, self_: bool, ps: &[Param]) {
        if self_ {
            self.p("self");
        }
        for (i, a) in ps.iter().enumerate() {
            if i > 0 || self_ {
                self.p(", ");
            }
            self.l(a.name);
            if let Some(t) = &a.ty {
                self.p(": ");
                self.ty(t);
            }
        }
    }
    pub fn block(&mut self, v: &[X]) {
        self.p("{ ");
        self.stmts(v);
        self.p(" }");
    }
    pub fn stmts(&mut self, v: &[X]) {
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.p(" ");
            }
            let at = self.s.len();
            self.x(x);
            if i > 0 {
                // it must not continue the statement before
                let c = self.s.as_bytes()[at];
                if matches!(c, b'(' | b'[' | b'-' | b'|' | b'.') {
                    sym::assume(false);
                }
            }
            // a bare return takes what follows for its value
            if let X::Ret(None) = x {
                if i + 1 < v.len() {
                    sym::assume(false);
                }
            }
        }
    }
    fn fnd(&mut self, f: &FnD) {
        self.p("(");
        self.params(f.self_, &f.params);
        self.p(") ");
        if let Some(t) = &f.ret {
            self.p("-> ");
            self.ty(t);
            self.p(" ");
        }
        self.block(&f.body);
    }
    fn bin(&mut self, l: &X, op: &str, r: &X, lv: u8) {
        self.at(l, lv);
        self.p(" ");
        self.p(op);
        self.p(" ");
        self.at(r, lv + 1);
    }
    pub fn x(&mut self, x: &X) {
        match x {
            X::Var(c) => self.l(*c),
            X::Word(w) => self.p(w),
            X::Int(i) => {
                let t = i.to_string();
                self.p(&t)
            }
            X::Float(f) => self.p(f),
            X::Str(s) => {
                self.p("\"");
                self.p(s);
                self.p("\"")
            }
            X::Null => self.p("null"),
            X::Unit => self.p("()"),
            X::Bool(v) => self.p(if *v { "true" } else { "false" }),
            X::Un(o, a) => {
                self.p(if *o == 0 { "-" } else { "!" });
                // `--` is not a token, `!!` is
                if let X::Un(..) = **a {
                    self.p(" ");
                }
                self.at(a, 9)
            }
            X::Bin(o, l, r) => self.bin(l, OPS[*o as usize].0, r, OPS[*o as usize].1),
            X::And(l, r) => self.bin(l, "&&", r, 5),
            X::Or(l, r) => self.bin(l, "||", r, 4),
            X::Coal(l, r) => self.bin(l, "??", r, 2),
            X::Pipe(l, r) => self.bin(l, "|>", r, 1),
            X::Range(i, l, r) => self.bin(l, if *i { "..=" } else { ".." }, r, 3),
            X::Is(a, t, n) => {
                self.at(a, 6);
                self.p(" is ");
                self.ty(&Ty { name: *t, null: *n });
            }
            X::Field(a, n) => {
                self.at(a, 10);
                self.p(".");
                self.l(*n);
            }
            X::Index(a, i) => {
                self.at(a, 10);
                self.p("[");
                self.at(i, 0);
                self.p("]");
            }
            X::Call(a, v) => {
                self.at(a, 10);
                self.p("(");
                self.list(v);
                self.p(")");
            }
            X::NProp(a) => {
                self.at(a, 10);
                if self.s.ends_with('?') {
                    self.p(" ");
                }
                self.p("?");
            }
            X::EProp(a) => {
                self.at(a, 10);
                self.p("!!");
            }
            X::Set(t, o, v) => {
                self.x(t);
                self.p(" ");
                if let Some(o) = o {
                    self.p(OPS[*o as usize].0);
                }
                self.p("= ");
                self.at(v, 0);
            }
            X::List(v) => {
                self.p("[");
                self.list(v);
                self.p("]");
            }
            X::Obj(v) => {
                self.p("#{");
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.p(", ");
                    }
                    self.l(*k);
                    self.p(": ");
                    self.at(x, 0);
                }
                self.p("}");
            }
            X::Lam(ps, x) => {
                self.p("|");
                self.params(false, ps);
                self.p("| ");
                self.at(x, 0);
            }
            X::Block(v) => self.block(v),
            X::If(c, a, e) => {
                self.p("if ");
                self.at(c, 1);
                self.p(" ");
                self.block(a);
                if let Some(e) = e {
                    self.p(" else ");
                    self.x(e);
                }
            }
            X::While(c, v) => {
                self.p("while ");
                self.at(c, 1);
                self.p(" ");
                self.block(v);
            }
            X::Loop(v) => {
                self.p("loop ");
                self.block(v);
            }
            X::For(n, i, v) => {
                self.p("for ");
                self.l(*n);
                self.p(" in ");
                self.at(i, 1);
                self.p(" ");
                self.block(v);
            }
            X::Break => self.p("break"),
            X::Continue => self.p("continue"),
            X::Ret(None) => self.p("return"),
            X::Ret(Some(x)) => {
                self.p("return ");
                self.at(x, 0);
            }
            X::Let(m, n, t, v) => {
                self.p(if *m { "let mut " } else { "let " });
                self.l(*n);
                if let Some(t) = t {
                    self.p(": ");
                    self.ty(t);
                }
                self.p(" = ");
                self.at(v, 0);
            }
            X::LetD(m, ns, v) => {
                self.p(if *m { "let mut { " } else { "let { " });
                for (i, n) in ns.iter().enumerate() {
                    if i > 0 {
                        self.p(", ");
                    }
                    self.l(*n);
                }
                self.p(" } = ");
                self.at(v, 0);
            }
            X::Fn(f) => {
                self.p("fn ");
                self.l(f.name);
                self.fnd(f);
            }
            X::Op(o, f) => {
                self.p("op ");
                self.p(OPS[*o as usize].0);
                self.fnd(f);
            }
            X::Class(c) => {
                self.p("class ");
                self.l(c.name);
                if let Some(x) = &c.base {
                    self.p(": ");
                    self.at(x, 1);
                }
                self.p(" { ");
                for (o, f) in &c.items {
                    match o {
                        Some(o) => {
                            self.p("op ");
                            self.p(OPS[*o as usize].0);
                        }
                        None => {
                            self.p("fn ");
                            if f.name == 0 {
                                self.p("new");
                            } else {
                                self.l(f.name);
                            }
                        }
                    }
                    self.fnd(f);
                    self.p(" ");
                }
                self.p("}");
            }
            X::Import(m, v) => {
                self.p("import ");
                if let Some(m) = m {
                    self.p("* as ");
                    self.l(*m);
                    if !v.is_empty() {
                        self.p(", ");
                    }
                }
                if !v.is_empty() {
                    self.p("{ ");
                    for (i, n) in v.iter().enumerate() {
                        if i > 0 {
                            self.p(", ");
                        }
                        self.l(*n);
                    }
                    self.p(" }");
                }
                self.p(" from \"m\"");
            }
            X::Export(x) => {
                self.p("export ");
                self.x(x);
            }
            X::Handler(a, e, v) => {
                self.at(a, 2);
                self.p(" or ");
                self.l(*e);
                self.p(" ");
                self.block(v);
            }
            X::SuperCall(v) => {
                self.p("super(");
                self.list(v);
                self.p(")");
            }
            X::SuperField(c, n) => {
                self.p("super");
                if let Some(c) = c {
                    self.p("[");
                    self.l(*c);
                    self.p("]");
                }
                self.p(".");
                self.l(*n);
            }
        }
    }
}

// ---------------------------------------------------------------- values and events
#[derive(Clone, Copy, PartialEq)]
pub enum V {
    Undef,
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(u64),
    Str(Name),
    /// the result of the event with this number
    T(u32),
    /// whether that result is null (or is not)
    IsNull(u32, bool),
    /// the function created as the n-th
    Fun(u32),
    Export,
}
#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Global,
    SetGlobal,
    Neg,
    Not,
    Bin,
    Get,
    Set,
    GetIndex,
    SetIndex,
    Call,
    CallSuper,
    Method,
    Array,
    Object,
    Module,
    Is,
    Assert,
    AssertNull,
    AssertBool,
    Inherit,
    StoreMethod,
    Arg,
    Done,
}
#[derive(Clone)]
pub struct Ev {
    pub k: K,
    pub op: u8,
    pub name: Name,
    pub v: Vec<V>,
}
/// what both executions share
pub struct World {
    pub log: Vec<Ev>,
    /// events expected (second execution)
    pub want: Option<Vec<Ev>>,
    pub truth: Vec<(V, bool)>,
    pub nulls: Vec<(V, bool)>,
    pub asserted: Vec<V>,
    pub funs: Vec<Sig>,
    pub depth: u32,
    /// bounds on events and on tests
    pub limit: usize,
    pub tests: usize,
}
#[derive(Clone, Copy)]
pub struct Sig {
    pub method: bool,
    pub n: usize,
    pub escaped: bool,
}
pub const MISMATCH: u32 = 901;
pub const EXTRA: u32 = 902;
pub const MISSING: u32 = 903;
pub const RESULT: u32 = 904;
pub const ACCEPTED: u32 = 905;
pub const REJECTED: u32 = 906;
pub const WRONGCODE: u32 = 907;
pub const FAULT: u32 = 908;
pub const DANGLING: u32 = 909;
pub const UNDEF: u32 = 910;

/// the outcome of a test on a value nothing is known of
fn decide() -> bool {
    sym::u8() < 128
}
impl World {
    pub fn new(limit: usize) -> World {
        World { log: vec![], want: None, truth: vec![], nulls: vec![], asserted: vec![], funs: vec![], depth: 0, limit: limit % 100, tests: if limit >= 100 { limit / 100 } else { 99 } }
    }
    /// what is known of a value by now
    pub fn norm(&self, v: V) -> V {
        match v {
            V::T(_) => {
                for (x, n) in &self.nulls {
                    if *x == v && *n {
                        return V::Null;
                    }
                }
                v
            }
            V::IsNull(t, neg) => {
                for (x, n) in &self.nulls {
                    if *x == V::T(t) {
                        return V::Bool(*n != neg);
                    }
                }
                v
            }
            _ => v,
        }
    }
    /// the world of the second execution
    pub fn second(self) -> World {
        let mut want = vec![];
        for e in &self.log {
            want.push(Ev { k: e.k, op: e.op, name: e.name, v: e.v.iter().map(|x| self.norm(*x)).collect() });
        }
        World { log: vec![], want: Some(want), asserted: vec![], depth: 0, ..self }
    }
    pub fn ev(&mut self, k: K, op: u8, name: Name, v: &[V]) -> V {
        let i = self.log.len();
        let v: Vec<V> = v.iter().map(|x| self.norm(*x)).collect();
        match &self.want {
            Some(w) => {
                if i >= w.len() {
                    sym::fail(EXTRA);
                }
                let e = &w[i];
                if e.k != k || e.op != op || e.v != v {
                    sym::fail(MISMATCH);
                }
                sym::check(e.name == name, MISMATCH);
            }
            None => {
                if i >= self.limit {
                    sym::assume(false);
                }
                for x in &v {
                    if let V::Fun(f) = x {
                        self.funs[*f as usize].escaped = true;
                    }
                    if let V::Undef = x {
                        // a variable read before the declaration that fills it ran
                        sym::assume(false);
                    }
                }
            }
        }
        self.log.push(Ev { k, op, name, v });
        V::T(i as u32)
    }
    pub fn is_null(&mut self, v: V) -> bool {
        match v {
            V::Null => true,
            V::T(_) => {
                for (x, n) in &self.nulls {
                    if *x == v {
                        return *n;
                    }
                }
                // what was used as a boolean is not null
                let n = !self.asserted.contains(&v) && !self.truth.iter().any(|(x, _)| *x == v) && decide();
                self.nulls.push((v, n));
                n
            }
            _ => false,
        }
    }
    pub fn test(&mut self, v: V) -> bool {
        match self.norm(v) {
            V::Bool(b) => b,
            V::IsNull(t, neg) => self.is_null(V::T(t)) != neg,
            V::T(_) => {
                for (x, n) in &self.truth {
                    if *x == v {
                        return *n;
                    }
                }
                if self.want.is_none() && self.truth.len() >= self.tests {
                    sym::assume(false);
                }
                let n = decide();
                self.truth.push((v, n));
                n
            }
            _ => {
                // not a boolean: the program stops here
                if self.want.is_some() {
                    sym::fail(MISMATCH)
                }
                sym::assume(false);
                false
            }
        }
    }
    pub fn assert_bool(&mut self, v: V) {
        match self.norm(v) {
            V::Bool(_) | V::IsNull(..) => (),
            V::T(_) => {
                if !self.asserted.contains(&v) {
                    self.ev(K::AssertBool, 0, 0, &[v]);
                    self.asserted.push(v);
                }
            }
            _ => {
                if self.want.is_some() {
                    sym::fail(MISMATCH)
                }
                sym::assume(false)
            }
        }
    }
    pub fn bin(&mut self, op: u8, l: V, r: V) -> V {
        // comparison with null asks only whether the other value is null
        if op == EQ || op == NEQ {
            let (l, r) = (self.norm(l), self.norm(r));
            let other = if r == V::Null {
                Some(l)
            } else if l == V::Null {
                Some(r)
            } else {
                None
            };
            if let Some(o) = other {
                return match o {
                    V::T(t) => self.norm(V::IsNull(t, op == NEQ)),
                    V::Undef => {
                        if self.want.is_some() {
                            sym::fail(UNDEF)
                        }
                        sym::assume(false);
                        V::Undef
                    }
                    _ => V::Bool((o == V::Null) != (op == NEQ)),
                };
            }
        }
        self.ev(K::Bin, op, 0, &[l, r])
    }
    /// what happens to functions handed to unknown code: it may call them
    fn callbacks(&mut self, args: &[V]) -> Vec<u32> {
        let mut v = vec![];
        if self.depth < 2 {
            for a in args {
                if let V::Fun(f) = a {
                    if !self.funs[*f as usize].method {
                        v.push(*f);
                    }
                }
            }
        }
        v
    }
}

// ---------------------------------------------------------------- reference interpreter
pub enum Ctl {
    Break,
    Continue,
    Return(V),
    Chain,
}
type R = Result<V, Ctl>;
#[derive(Clone, Copy)]
struct Bind {
    name: Name,
    cell: usize,
    kind: BK,
}
#[derive(Clone)]
struct RFun<'p> {
    params: Vec<Name>,
    tys: Vec<Option<Ty>>,
    ret: Option<Ty>,
    body: Body<'p>,
    env: Vec<Bind>,
    kind: FK,
}
#[derive(Clone, Copy)]
enum Body<'p> {
    Block(&'p [X]),
    Expr(&'p X),
}
#[derive(Clone, Copy, PartialEq)]
pub enum FK {
    Function,
    Method,
    New,
}
pub struct Ref<'p> {
    pub w: World,
    cells: Vec<V>,
    env: Vec<Bind>,
    funs: Vec<RFun<'p>>,
    ret: Option<Ty>,
    kind: FK,
    me: V,
    steps: u32,
}
impl<'p> Ref<'p> {
    pub fn new(limit: usize) -> Ref<'p> {
        Ref { w: World::new(limit), cells: vec![], env: vec![], funs: vec![], ret: None, kind: FK::Function, me: V::Undef, steps: 0 }
    }
    fn bind(&mut self, name: Name, v: V) {
        self.bind_as(name, v, BK::Plain)
    }
    fn bind_as(&mut self, name: Name, v: V, kind: BK) {
        self.cells.push(v);
        self.env.push(Bind { name, cell: self.cells.len() - 1, kind });
    }
    fn find(&self, name: Name) -> Option<usize> {
        for b in self.env.iter().rev() {
            if b.name == name {
                return Some(b.cell);
            }
        }
        None
    }
    fn load(&mut self, name: Name) -> V {
        match self.find(name) {
            Some(c) => {
                if self.cells[c] == V::Undef {
                    sym::assume(false);
                }
                self.cells[c]
            }
            None => self.w.ev(K::Global, 0, name, &[]),
        }
    }
    fn step(&mut self) {
        self.steps += 1;
        if self.steps > 400 {
            sym::assume(false);
        }
    }
    fn hoist(&mut self, v: &[X]) {
        for x in v {
            let x = if let X::Export(x) = x { x } else { x };
            match x {
                X::Fn(f) => self.bind_as(letter(f.name), V::Undef, BK::Function),
                X::Class(c) => self.bind_as(letter(c.name), V::Undef, BK::Class),
                _ => (),
            }
        }
    }
    /// the cell a function or class declaration of this name fills
    fn declared(&self, name: Name, kind: BK) -> usize {
        for b in self.env.iter().rev() {
            if b.kind == kind && b.name == name {
                return b.cell;
            }
        }
        sym::fail(ACCEPTED)
    }
    fn stmts(&mut self, v: &'p [X]) -> R {
        let mut r = V::Unit;
        for x in v {
            r = self.eval(x)?;
        }
        Ok(r)
    }
    pub fn block(&mut self, v: &'p [X]) -> R {
        let n = self.env.len();
        self.hoist(v);
        let r = self.stmts(v);
        self.env.truncate(n);
        r
    }
    fn fun(&mut self, f: RFun<'p>) -> V {
        self.w.funs.push(Sig { method: f.kind != FK::Function, n: f.params.len(), escaped: false });
        self.funs.push(f);
        V::Fun(self.funs.len() as u32 - 1)
    }
    fn make(&mut self, f: &'p FnD, kind: FK) -> V {
        let mut params: Vec<Name> = vec![];
        let mut tys = vec![];
        if f.self_ {
            params.push(pack("self"));
            tys.push(None);
        }
        for p in &f.params {
            params.push(letter(p.name));
            tys.push(p.ty);
        }
        let env = self.env.clone();
        self.fun(RFun { params, tys, ret: f.ret, body: Body::Block(&f.body), env, kind })
    }
    fn check_type(&mut self, v: V, t: Ty) {
        let c = self.load(letter(t.name));
        self.w.ev(if t.null { K::AssertNull } else { K::Assert }, 0, 0, &[v, c]);
    }
    pub fn invoke(&mut self, f: u32, args: &[V]) -> V {
        let fun = self.funs[f as usize].clone();
        if args.len() != fun.params.len() || self.w.depth > 3 {
            sym::assume(false);
        }
        self.w.depth += 1;
        let env = std::mem::replace(&mut self.env, fun.env);
        let ret = std::mem::replace(&mut self.ret, fun.ret);
        let kind = std::mem::replace(&mut self.kind, fun.kind);
        let me = std::mem::replace(&mut self.me, if fun.kind == FK::Function { V::Undef } else { args[0] });
        for i in 0..args.len() {
            self.bind(fun.params[i], args[i]);
            if let Some(t) = fun.tys[i] {
                self.check_type(args[i], t);
            }
        }
        let r = match fun.body {
            Body::Block(v) => {
                self.hoist(v);
                self.stmts(v)
            }
            Body::Expr(x) => self.eval(x),
        };
        let v = match r {
            Ok(_) | Err(Ctl::Return(_)) if fun.kind == FK::New => self.me,
            Ok(v) => {
                if let Some(t) = fun.ret {
                    self.check_type(v, t);
                }
                v
            }
            Err(Ctl::Return(v)) => v,
            _ => V::Undef,
        };
        self.env = env;
        self.ret = ret;
        self.kind = kind;
        self.me = me;
        self.w.depth -= 1;
        v
    }
    fn ret_(&mut self, v: V) -> Ctl {
        if let Some(t) = self.ret {
            self.check_type(v, t);
        }
        Ctl::Return(v)
    }
    pub fn fresh(&mut self, n: usize) -> Vec<V> {
        (0..n).map(|_| self.w.ev(K::Arg, 0, 0, &[])).collect()
    }
    fn call(&mut self, f: V, args: &[V]) -> V {
        match f {
            V::Fun(i) => self.invoke(i, args),
            _ => {
                let mut v = vec![f];
                v.extend_from_slice(args);
                let r = self.w.ev(K::Call, 0, 0, &v);
                for i in self.w.callbacks(args) {
                    let a = self.fresh(self.funs[i as usize].params.len());
                    let r = self.invoke(i, &a);
                    self.w.ev(K::Done, 0, 0, &[r]);
                }
                r
            }
        }
    }
    fn is_link(x: &X) -> bool {
        matches!(x, X::Field(..) | X::Index(..) | X::Call(..) | X::NProp(..) | X::EProp(..) | X::SuperField(..))
    }
    pub fn eval(&mut self, x: &'p X) -> R {
        self.step();
        if Self::is_link(x) {
            return match self.link(x) {
                Err(Ctl::Chain) => Ok(V::Null),
                r => r,
            };
        }
        self.plain(x)
    }
    fn sub(&mut self, x: &'p X) -> R {
        if Self::is_link(x) {
            self.step();
            self.link(x)
        } else {
            self.eval(x)
        }
    }
    fn link(&mut self, x: &'p X) -> R {
        Ok(match x {
            X::Field(a, n) => {
                let a = self.sub(a)?;
                self.w.ev(K::Get, 0, letter(*n), &[a])
            }
            X::Index(a, i) => {
                let a = self.sub(a)?;
                let i = self.eval(i)?;
                self.w.ev(K::GetIndex, 0, 0, &[a, i])
            }
            X::Call(f, v) => {
                let f = self.sub(f)?;
                let mut args = vec![];
                for a in v {
                    args.push(self.eval(a)?);
                }
                self.call(f, &args)
            }
            X::NProp(a) => {
                let a = self.sub(a)?;
                if self.w.is_null(a) {
                    return Err(Ctl::Chain);
                }
                a
            }
            X::EProp(a) => {
                let a = self.sub(a)?;
                let ok = self.w.ev(K::Get, 0, pack("is_ok"), &[a]);
                if self.w.test(ok) {
                    self.w.ev(K::Get, 0, pack("result"), &[a])
                } else {
                    return Err(self.ret_(a));
                }
            }
            X::SuperField(c, n) => {
                let s = match c {
                    Some(c) => self.load(letter(*c)),
                    None => self.load(pack("super")),
                };
                let me = self.me;
                self.w.ev(K::Method, 0, letter(*n), &[s, me])
            }
            _ => V::Undef,
        })
    }
    fn plain(&mut self, x: &'p X) -> R {
        Ok(match x {
            X::Var(c) => self.load(letter(*c)),
            X::Word(w) => self.load(pack(w)),
            X::Int(i) => V::Int(*i),
            X::Float(f) => V::Float(f.parse::<f64>().unwrap().to_bits()),
            X::Str(s) => V::Str(pack(s)),
            X::Null => V::Null,
            X::Unit => V::Unit,
            X::Bool(v) => V::Bool(*v),
            X::Un(o, a) => {
                let a = self.eval(a)?;
                self.w.ev(if *o == 0 { K::Neg } else { K::Not }, 0, 0, &[a])
            }
            X::Bin(o, l, r) => {
                let l = self.eval(l)?;
                let r = self.eval(r)?;
                self.w.bin(*o, l, r)
            }
            X::Range(i, l, r) => {
                let l = self.eval(l)?;
                let r = self.eval(r)?;
                self.w.bin(if *i { RI } else { RX }, l, r)
            }
            X::And(l, r) | X::Or(l, r) => {
                let l = self.eval(l)?;
                self.w.assert_bool(l);
                if self.w.test(l) == matches!(x, X::And(..)) {
                    let r = self.eval(r)?;
                    self.w.assert_bool(r);
                    r
                } else {
                    l
                }
            }
            X::Coal(l, r) => {
                let l = self.eval(l)?;
                if self.w.is_null(l) {
                    self.eval(r)?
                } else {
                    l
                }
            }
            X::Pipe(l, r) => {
                let f = self.eval(r)?;
                let a = self.eval(l)?;
                self.call(f, &[a])
            }
            X::Is(a, t, null) => {
                let a = self.eval(a)?;
                if *null && self.w.is_null(a) {
                    V::Bool(true)
                } else {
                    let t = self.load(letter(*t));
                    self.w.ev(K::Is, 0, 0, &[a, t])
                }
            }
            X::Set(t, o, v) => match &**t {
                X::Var(c) => {
                    let n = letter(*c);
                    let v = match o {
                        None => self.eval(v)?,
                        Some(o) => {
                            let old = self.load(n);
                            let v = self.eval(v)?;
                            self.w.bin(*o, old, v)
                        }
                    };
                    match self.find(n) {
                        Some(c) => self.cells[c] = v,
                        None => sym::assume(false),
                    }
                    V::Unit
                }
                X::Field(a, n) => {
                    let a = self.eval(a)?;
                    match o {
                        None => {
                            let v = self.eval(v)?;
                            self.w.ev(K::Set, 0, letter(*n), &[a, v]);
                            v
                        }
                        Some(o) => {
                            let old = self.w.ev(K::Get, 0, letter(*n), &[a]);
                            let v = self.eval(v)?;
                            let v = self.w.bin(*o, old, v);
                            self.w.ev(K::Set, 0, letter(*n), &[a, v]);
                            V::Unit
                        }
                    }
                }
                X::Index(a, i) => {
                    let a = self.eval(a)?;
                    let i = self.eval(i)?;
                    let v = match o {
                        None => self.eval(v)?,
                        Some(o) => {
                            let old = self.w.ev(K::GetIndex, 0, 0, &[a, i]);
                            let v = self.eval(v)?;
                            self.w.bin(*o, old, v)
                        }
                    };
                    self.w.ev(K::SetIndex, 0, 0, &[a, i, v]);
                    V::Unit
                }
                _ => V::Undef,
            },
            X::List(v) => {
                let mut a = vec![];
                for x in v {
                    a.push(self.eval(x)?);
                }
                self.w.ev(K::Array, 0, 0, &a)
            }
            X::Obj(v) => {
                let o = self.w.ev(K::Object, 0, 0, &[]);
                for (k, x) in v {
                    let x = self.eval(x)?;
                    self.w.ev(K::Set, 0, letter(*k), &[o, x]);
                }
                o
            }
            X::Lam(ps, x) => {
                let env = self.env.clone();
                let body = if let X::Block(v) = &**x { Body::Block(v) } else { Body::Expr(x) };
                self.fun(RFun { params: ps.iter().map(|p| letter(p.name)).collect(), tys: ps.iter().map(|p| p.ty).collect(), ret: None, body, env, kind: FK::Function })
            }
            X::Block(v) => self.block(v)?,
            X::If(c, a, e) => {
                let c = self.eval(c)?;
                if self.w.test(c) {
                    self.block(a)?
                } else {
                    match e {
                        Some(e) => self.eval(e)?,
                        None => V::Unit,
                    }
                }
            }
            X::While(c, v) => {
                loop {
                    self.step();
                    // the condition belongs to the loop
                    let n = self.env.len();
                    let c = match self.eval(c) {
                        Ok(c) => c,
                        Err(Ctl::Break) => {
                            self.env.truncate(n);
                            break;
                        }
                        Err(Ctl::Continue) => {
                            self.env.truncate(n);
                            continue;
                        }
                        Err(e) => return Err(e),
                    };
                    if !self.w.test(c) {
                        break;
                    }
                    if self.body(v)? {
                        break;
                    }
                }
                V::Unit
            }
            X::Loop(v) => {
                loop {
                    self.step();
                    if self.body(v)? {
                        break;
                    }
                }
                V::Unit
            }
            X::For(n, i, v) => {
                if let X::Range(incl, lo, hi) = &**i {
                    let hi = self.eval(hi)?;
                    let lo = self.eval(lo)?;
                    let mut i = lo;
                    loop {
                        let c = self.w.bin(if *incl { LTE } else { LT }, i, hi);
                        if !self.w.test(c) {
                            break;
                        }
                        let m = self.env.len();
                        self.bind(letter(*n), i);
                        let r = self.body(v);
                        self.env.truncate(m);
                        if r? {
                            break;
                        }
                        i = self.w.bin(ADD, i, V::Int(1));
                    }
                } else {
                    let i = self.eval(i)?;
                    let f = self.w.ev(K::Get, 0, pack("iter"), &[i]);
                    let it = self.call(f, &[]);
                    let next = self.w.ev(K::Get, 0, pack("next"), &[it]);
                    loop {
                        let r = self.call(next, &[]);
                        let d = self.w.ev(K::Get, 0, pack("is_done"), &[r]);
                        if self.w.test(d) {
                            break;
                        }
                        let val = self.w.ev(K::Get, 0, pack("value"), &[r]);
                        let m = self.env.len();
                        self.bind(letter(*n), val);
                        let r = self.body(v);
                        self.env.truncate(m);
                        if r? {
                            break;
                        }
                    }
                }
                V::Unit
            }
            X::Break => return Err(Ctl::Break),
            X::Continue => return Err(Ctl::Continue),
            X::Ret(v) => {
                let v = match v {
                    Some(v) => self.eval(v)?,
                    None => V::Unit,
                };
                if self.kind == FK::New {
                    return Err(Ctl::Return(self.me));
                }
                return Err(self.ret_(v));
            }
            X::Let(_, n, t, v) => {
                let v = self.eval(v)?;
                self.bind(letter(*n), v);
                if let Some(t) = t {
                    self.check_type(v, *t);
                }
                v
            }
            X::LetD(_, ns, v) => {
                let v = self.eval(v)?;
                for n in ns {
                    let x = self.w.ev(K::Get, 0, letter(*n), &[v]);
                    self.bind(letter(*n), x);
                }
                v
            }
            X::Fn(f) => {
                let v = self.make(f, FK::Function);
                let c = self.declared(letter(f.name), BK::Function);
                self.cells[c] = v;
                v
            }
            X::Op(o, f) => {
                let v = self.make(f, FK::Function);
                self.w.ev(K::SetGlobal, 0, pack(OPS[*o as usize].2), &[v]);
                V::Unit
            }
            X::Class(c) => {
                let n = self.env.len();
                let base = match &c.base {
                    Some(x) => self.eval(x)?,
                    None => self.load(pack("Any")),
                };
                let cell = self.declared(letter(c.name), BK::Class);
                self.bind(pack("super"), base);
                let class = self.w.ev(K::Inherit, 0, letter(c.name), &[base]);
                self.cells[cell] = class;
                for (o, f) in &c.items {
                    let kind = if !f.self_ {
                        FK::Function
                    } else if f.name == 0 && o.is_none() {
                        FK::New
                    } else {
                        FK::Method
                    };
                    let v = self.make(f, kind);
                    let name = match o {
                        Some(o) => pack(OPS[*o as usize].2),
                        None if f.name == 0 => pack("new"),
                        None => letter(f.name),
                    };
                    self.w.ev(if kind == FK::Function { K::Set } else { K::StoreMethod }, 0, name, &[class, v]);
                }
                self.env.truncate(n);
                class
            }
            X::Import(m, v) => {
                let module = self.w.ev(K::Module, 0, pack("m"), &[]);
                for n in v {
                    let x = self.w.ev(K::Get, 0, letter(*n), &[module]);
                    self.bind(letter(*n), x);
                }
                if let Some(m) = m {
                    self.bind(letter(*m), module);
                }
                module
            }
            X::Export(x) => {
                let v = self.eval(x)?;
                let name = match &**x {
                    X::Let(_, n, ..) => *n,
                    X::Fn(f) => f.name,
                    X::Class(c) => c.name,
                    X::Var(n) => *n,
                    X::LetD(_, ns, _) => {
                        for n in ns {
                            let x = self.load(letter(*n));
                            self.w.ev(K::Set, 0, letter(*n), &[V::Export, x]);
                        }
                        return Ok(v);
                    }
                    _ => 0,
                };
                self.w.ev(K::Set, 0, letter(name), &[V::Export, v]);
                v
            }
            X::Handler(a, e, v) => {
                let a = self.eval(a)?;
                let c = self.load(pack("Result"));
                self.w.ev(K::Assert, 0, 0, &[a, c]);
                let ok = self.w.ev(K::Get, 0, pack("is_ok"), &[a]);
                let t = self.w.test(ok);
                let p = self.w.ev(K::Get, 0, pack("result"), &[a]);
                if t {
                    p
                } else {
                    let n = self.env.len();
                    self.bind(letter(*e), p);
                    let r = self.block(v);
                    self.env.truncate(n);
                    r?
                }
            }
            X::SuperCall(v) => {
                let mut a = vec![V::Undef, self.me];
                for x in v {
                    a.push(self.eval(x)?);
                }
                a[0] = self.load(pack("super"));
                self.w.ev(K::CallSuper, 0, 0, &a)
            }
            _ => V::Undef,
        })
    }
    /// one iteration; true when the loop ends
    fn body(&mut self, v: &'p [X]) -> Result<bool, Ctl> {
        let n = self.env.len();
        match self.block(v) {
            Ok(_) | Err(Ctl::Continue) => {
                self.env.truncate(n);
                Ok(false)
            }
            Err(Ctl::Break) => {
                self.env.truncate(n);
                Ok(true)
            }
            Err(e) => Err(e),
        }
    }
}

// ---------------------------------------------------------------- static rules
#[derive(Clone, Copy, PartialEq)]
enum BK {
    Plain,
    Function,
    Class,
}
#[derive(Clone, Copy)]
struct SB {
    name: Name,
    kind: BK,
    mutable: bool,
    init: bool,
    /// function nesting depth and scope number it belongs to
    fun: u32,
    scope: u32,
}
#[derive(Clone, Copy)]
struct Ctx {
    kind: SK,
    in_loop: bool,
}
#[derive(Clone, Copy, PartialEq)]
pub enum SK {
    Script,
    Module,
    Function,
    Method,
    New,
}
pub struct Rules {
    pub codes: Vec<u32>,
    env: Vec<SB>,
    fun: u32,
    scope: u32,
    cx: Ctx,
    depth: u32,
}
impl Rules {
    pub fn of(p: &[X], module: bool) -> Vec<u32> {
        let mut r = Rules { codes: vec![], env: vec![], fun: 0, scope: 0, cx: Ctx { kind: if module { SK::Module } else { SK::Script }, in_loop: false }, depth: 0 };
        r.block(p);
        r.codes
    }
    fn err(&mut self, c: u32) {
        if !self.codes.contains(&c) {
            self.codes.push(c);
        }
    }
    fn bind(&mut self, name: Name, kind: BK, mutable: bool, init: bool) {
        let (fun, scope) = (self.fun, self.scope);
        self.env.push(SB { name, kind, mutable, init, fun, scope });
    }
    fn find(&self, name: Name) -> Option<usize> {
        (0..self.env.len()).rev().find(|i| self.env[*i].name == name)
    }
    fn use_(&mut self, name: Name) {
        if let Some(i) = self.find(name) {
            if self.env[i].fun == self.fun && !self.env[i].init {
                self.err(2402);
            }
        }
    }
    fn hoist(&mut self, v: &[X]) {
        for x in v {
            let x = if let X::Export(x) = x { x } else { x };
            match x {
                X::Fn(f) => self.bind(letter(f.name), BK::Function, false, false),
                X::Class(c) => self.bind(letter(c.name), BK::Class, false, false),
                _ => (),
            }
        }
    }
    fn block(&mut self, v: &[X]) {
        let (n, s) = (self.env.len(), self.scope);
        self.scope = n as u32 + 1 + self.fun * 1000;
        self.depth += 1;
        self.hoist(v);
        for x in v {
            self.x(x);
        }
        self.depth -= 1;
        self.scope = s;
        self.env.truncate(n);
    }
    fn body(&mut self, ps: &[(Name, Option<Ty>)], kind: SK, ret: Option<Ty>, v: Option<&[X]>, x: Option<&X>) {
        let (n, s, cx, d) = (self.env.len(), self.scope, self.cx, self.depth);
        for i in 0..ps.len() {
            for j in 0..i {
                if ps[i].0 == ps[j].0 {
                    self.err(2207);
                }
            }
        }
        self.fun += 1;
        self.scope = n as u32 + 1 + self.fun * 1000;
        self.cx = Ctx { kind, in_loop: false };
        self.depth = 10;
        for p in ps {
            self.bind(p.0, BK::Plain, false, true);
            if let Some(t) = p.1 {
                self.use_(letter(t.name));
            }
        }
        if let Some(v) = v {
            self.hoist(v);
            for x in v {
                self.x(x);
            }
        }
        if let Some(x) = x {
            self.x(x);
        }
        if let Some(t) = ret {
            self.use_(letter(t.name));
        }
        self.fun -= 1;
        self.scope = s;
        self.cx = cx;
        self.depth = d;
        self.env.truncate(n);
    }
    fn fnd(&mut self, f: &FnD, kind: SK) {
        let mut ps: Vec<(Name, Option<Ty>)> = vec![];
        if f.self_ {
            ps.push((pack("self"), None));
        }
        for p in &f.params {
            ps.push((letter(p.name), p.ty));
        }
        self.body(&ps, kind, f.ret, Some(&f.body), None);
    }
    fn declare(&mut self, name: Name, kind: BK, code: u32) {
        // the declaration fills the innermost binding of its kind; a second one of the scope is an error
        if let Some(i) = (0..self.env.len()).rev().find(|i| self.env[*i].name == name && self.env[*i].kind == kind) {
            if self.env[i].init {
                self.err(code);
            }
            self.env[i].init = true;
        }
    }
    fn loop_body(&mut self, v: &[X]) {
        let cx = self.cx;
        self.cx.in_loop = true;
        self.block(v);
        self.cx = cx;
    }
    fn x(&mut self, x: &X) {
        match x {
            X::Var(c) => self.use_(letter(*c)),
            X::Word(w) => self.use_(pack(w)),
            X::Int(_) | X::Str(_) | X::Float(_) | X::Null | X::Unit | X::Bool(_) => (),
            X::Un(_, a) | X::NProp(a) | X::Field(a, _) => self.x(a),
            X::EProp(a) => {
                if !matches!(self.cx.kind, SK::Function | SK::Method) {
                    self.err(2503);
                }
                self.x(a)
            }
            X::Bin(_, l, r) | X::And(l, r) | X::Or(l, r) | X::Coal(l, r) | X::Pipe(l, r) | X::Range(_, l, r) | X::Index(l, r) => {
                self.x(l);
                self.x(r);
            }
            X::Is(a, t, _) => {
                self.x(a);
                self.use_(letter(*t));
            }
            X::Call(f, v) => {
                self.x(f);
                for a in v {
                    self.x(a);
                }
            }
            X::Set(t, o, v) => {
                match &**t {
                    X::Var(c) => match self.find(letter(*c)) {
                        None => self.err(2401),
                        Some(i) => {
                            if !self.env[i].mutable {
                                self.err(2403);
                            }
                            if o.is_some() {
                                self.use_(letter(*c));
                            }
                        }
                    },
                    t => self.x(t),
                }
                self.x(v);
            }
            X::List(v) => {
                for a in v {
                    self.x(a);
                }
            }
            X::Obj(v) => {
                for (_, a) in v {
                    self.x(a);
                }
            }
            X::Lam(ps, x) => {
                let ps: Vec<(Name, Option<Ty>)> = ps.iter().map(|p| (letter(p.name), p.ty)).collect();
                match &**x {
                    X::Block(v) => self.body(&ps, SK::Function, None, Some(v), None),
                    x => self.body(&ps, SK::Function, None, None, Some(x)),
                }
            }
            X::Block(v) => self.block(v),
            X::If(c, a, e) => {
                self.x(c);
                self.block(a);
                if let Some(e) = e {
                    self.x(e);
                }
            }
            X::While(c, v) => {
                let cx = self.cx;
                self.cx.in_loop = true;
                self.x(c);
                self.cx = cx;
                self.loop_body(v);
            }
            X::Loop(v) => self.loop_body(v),
            X::For(n, i, v) => {
                match &**i {
                    X::Range(_, l, h) => {
                        self.x(h);
                        self.x(l);
                    }
                    i => self.x(i),
                }
                let m = self.env.len();
                let s = self.scope;
                self.scope = m as u32 + 1 + self.fun * 1000;
                self.bind(letter(*n), BK::Plain, false, true);
                self.loop_body(v);
                self.scope = s;
                self.env.truncate(m);
            }
            X::Break => {
                if !self.cx.in_loop {
                    self.err(2501);
                }
            }
            X::Continue => {
                if !self.cx.in_loop {
                    self.err(2502);
                }
            }
            X::Ret(v) => {
                match self.cx.kind {
                    SK::Script | SK::Module => self.err(2500),
                    SK::New if v.is_some() => self.err(2204),
                    _ => (),
                }
                if let Some(v) = v {
                    self.x(v);
                }
            }
            X::Let(m, n, t, v) => {
                self.x(v);
                self.bind(letter(*n), BK::Plain, *m, true);
                if let Some(t) = t {
                    self.use_(letter(t.name));
                }
            }
            X::LetD(m, ns, v) => {
                self.x(v);
                for n in ns {
                    self.bind(letter(*n), BK::Plain, *m, true);
                }
            }
            X::Fn(f) => {
                self.fnd(f, SK::Function);
                self.declare(letter(f.name), BK::Function, 2301);
            }
            X::Op(_, f) => {
                self.fnd(f, SK::Function);
            }
            X::Class(c) => {
                let n = self.env.len();
                if let Some(x) = &c.base {
                    self.x(x);
                }
                self.declare(letter(c.name), BK::Class, 2300);
                self.bind(pack("super"), BK::Plain, true, true);
                for (o, f) in &c.items {
                    match o {
                        Some(_) => {
                            if !f.self_ {
                                self.err(2202);
                            }
                            self.fnd(f, SK::Method);
                        }
                        None if f.name == 0 => {
                            if !f.self_ {
                                self.err(2201);
                            }
                            if f.ret.is_some() {
                                self.err(2200);
                            }
                            if c.base.is_some() && !matches!(f.body.first(), Some(X::SuperCall(_))) {
                                self.err(2203);
                            }
                            let mut g = f.clone();
                            g.ret = None;
                            self.fnd(&g, SK::New);
                        }
                        None => self.fnd(f, if f.self_ { SK::Method } else { SK::Function }),
                    }
                }
                self.env.truncate(n);
            }
            X::Import(m, v) => {
                if m.is_none() && v.is_empty() {
                    self.err(2505);
                }
                for n in v {
                    self.bind(letter(*n), BK::Plain, false, true);
                }
                if let Some(m) = m {
                    self.bind(letter(*m), BK::Plain, false, true);
                }
            }
            X::Export(x) => {
                if self.cx.kind != SK::Module || self.depth > 1 {
                    self.err(2504);
                }
                self.x(x);
            }
            X::Handler(a, e, v) => {
                self.x(a);
                let n = self.env.len();
                self.bind(letter(*e), BK::Plain, false, true);
                self.block(v);
                self.env.truncate(n);
            }
            X::SuperCall(v) => {
                self.super_();
                for a in v {
                    self.x(a);
                }
            }
            X::SuperField(c, _) => {
                self.super_();
                if let Some(c) = c {
                    self.use_(letter(*c));
                }
            }
        }
    }
    fn super_(&mut self) {
        if !matches!(self.cx.kind, SK::Method | SK::New) {
            self.err(2205);
        }
    }
}

// ---------------------------------------------------------------- machine for compiled code
enum Up {
    Open(usize, usize),
    Closed(V),
}
struct VFun<'c> {
    code: &'c Bytecode,
    ups: Vec<usize>,
}
pub struct Vm<'c> {
    pub w: World,
    funs: Vec<VFun<'c>>,
    ups: Vec<Up>,
    frames: Vec<Option<Vec<V>>>,
    steps: u32,
}
fn const_name(c: &ConstantValue) -> Name {
    match c {
        ConstantValue::String(s) => pack(s),
        ConstantValue::Symbol(s) => pack(s),
        _ => sym::fail(FAULT),
    }
}
impl<'c> Vm<'c> {
    pub fn new(w: World) -> Vm<'c> {
        Vm { w, funs: vec![], ups: vec![], frames: vec![], steps: 0 }
    }
    fn pop(s: &mut Vec<V>) -> V {
        match s.pop() {
            Some(v) => v,
            None => sym::fail(FAULT),
        }
    }
    fn slot(&mut self, fr: usize, i: usize) -> &mut V {
        match &mut self.frames[fr] {
            Some(v) if i < v.len() => &mut v[i],
            _ => sym::fail(FAULT),
        }
    }
    fn upval(&mut self, ups: &[usize], i: usize) -> usize {
        if i >= ups.len() {
            sym::fail(FAULT)
        }
        ups[i]
    }
    fn up_get(&mut self, u: usize) -> V {
        match self.ups[u] {
            Up::Closed(v) => v,
            Up::Open(f, s) => {
                if self.frames[f].is_none() {
                    sym::fail(DANGLING)
                }
                *self.slot(f, s)
            }
        }
    }
    fn up_set(&mut self, u: usize, v: V) {
        match self.ups[u] {
            Up::Closed(_) => self.ups[u] = Up::Closed(v),
            Up::Open(f, s) => {
                if self.frames[f].is_none() {
                    sym::fail(DANGLING)
                }
                *self.slot(f, s) = v
            }
        }
    }
    fn new_fun(&mut self, code: &'c Bytecode, ups: Vec<usize>) -> V {
        let i = self.funs.len();
        if i >= self.w.funs.len() {
            sym::fail(EXTRA)
        }
        self.funs.push(VFun { code, ups });
        V::Fun(i as u32)
    }
    pub fn invoke(&mut self, f: u32, args: &[V]) -> V {
        let sig = self.w.funs[f as usize];
        if args.len() != sig.n {
            sym::fail(MISMATCH)
        }
        if self.w.depth > 3 {
            sym::fail(EXTRA)
        }
        let code = self.funs[f as usize].code;
        let ups = self.funs[f as usize].ups.clone();
        let mut slots = vec![];
        if !sig.method {
            slots.push(V::Fun(f));
        }
        slots.extend_from_slice(args);
        self.w.depth += 1;
        let v = self.run(code, ups, slots, false);
        self.w.depth -= 1;
        v
    }
    pub fn fresh(&mut self, n: usize) -> Vec<V> {
        (0..n).map(|_| self.w.ev(K::Arg, 0, 0, &[])).collect()
    }
    fn call(&mut self, f: V, args: &[V]) -> V {
        match f {
            V::Fun(i) => self.invoke(i, args),
            _ => {
                let mut v = vec![f];
                v.extend_from_slice(args);
                let r = self.w.ev(K::Call, 0, 0, &v);
                for i in self.w.callbacks(args) {
                    let a = self.fresh(self.w.funs[i as usize].n);
                    let r = self.invoke(i, &a);
                    self.w.ev(K::Done, 0, 0, &[r]);
                }
                r
            }
        }
    }
    /// run code in a fresh frame whose first slots are given
    pub fn run(&mut self, bc: &'c Bytecode, ups: Vec<usize>, args: Vec<V>, top: bool) -> V {
        let ops = match code::decode(bc) {
            Ok(o) => o,
            Err(_) => sym::fail(FAULT),
        };
        let mut slots = args;
        // calls put what they pass in the first slots; the rest starts out as null
        while slots.len() < bc.slot_count() {
            slots.push(V::Undef);
        }
        let fr = self.frames.len();
        self.frames.push(Some(slots));
        let consts = bc.constants();
        let mut s: Vec<V> = vec![];
        let mut pc = 0;
        use Instruction::*;
        let result = loop {
            if pc == ops.len() {
                if !top {
                    sym::fail(FAULT)
                }
                break Self::pop(&mut s);
            }
            self.steps += 1;
            if self.steps > 4000 {
                sym::fail(EXTRA)
            }
            let o = &ops[pc];
            let a = o.a as usize;
            pc += 1;
            let konst = || -> &'c ConstantValue {
                if a >= consts.len() {
                    sym::fail(FAULT)
                }
                &consts[a]
            };
            match o.ins {
                PushNull => s.push(V::Null),
                PushUnit => s.push(V::Unit),
                PushFalse => s.push(V::Bool(false)),
                PushTrue => s.push(V::Bool(true)),
                PushI0 => s.push(V::Int(0)),
                PushI1 => s.push(V::Int(1)),
                PushF0 => s.push(V::Float(0f64.to_bits())),
                PushF1 => s.push(V::Float(1f64.to_bits())),
                PushConst => match konst() {
                    ConstantValue::Int(i) => s.push(V::Int(*i)),
                    ConstantValue::Float(f) => s.push(V::Float(f.to_bits())),
                    ConstantValue::String(x) => s.push(V::Str(pack(x))),
                    ConstantValue::Symbol(_) => sym::fail(FAULT),
                    ConstantValue::Function(f) => {
                        let v = self.new_fun(&f.bytecode, vec![]);
                        s.push(v)
                    }
                },
                Pop => {
                    Self::pop(&mut s);
                }
                Dup => {
                    if a >= s.len() {
                        sym::fail(FAULT)
                    }
                    s.push(s[s.len() - 1 - a])
                }
                Swap => {
                    let x = Self::pop(&mut s);
                    let y = Self::pop(&mut s);
                    s.push(x);
                    s.push(y);
                }
                CreateArray => {
                    if a > s.len() {
                        sym::fail(FAULT)
                    }
                    let v = s.split_off(s.len() - a);
                    s.push(self.w.ev(K::Array, 0, 0, &v));
                }
                CreateObject => s.push(self.w.ev(K::Object, 0, 0, &[])),
                CreateClosure => {
                    let f = match konst() {
                        ConstantValue::Function(f) => f,
                        _ => sym::fail(FAULT),
                    };
                    let mut cap = vec![];
                    for (local, i) in &o.ups {
                        if *local == 1 {
                            let slot = *i as usize;
                            let found = (0..self.ups.len()).find(|u| matches!(self.ups[*u], Up::Open(f, s) if f == fr && s == slot));
                            cap.push(match found {
                                Some(u) => u,
                                None => {
                                    self.slot(fr, slot);
                                    self.ups.push(Up::Open(fr, slot));
                                    self.ups.len() - 1
                                }
                            });
                        } else {
                            cap.push(self.upval(&ups, *i as usize));
                        }
                    }
                    let v = self.new_fun(&f.bytecode, cap);
                    s.push(v)
                }
                InheritClass => {
                    let base = Self::pop(&mut s);
                    s.push(self.w.ev(K::Inherit, 0, const_name(konst()), &[base]));
                }
                LoadModule => s.push(self.w.ev(K::Module, 0, const_name(konst()), &[])),
                LoadGlobal => s.push(self.w.ev(K::Global, 0, const_name(konst()), &[])),
                StoreGlobal => {
                    let v = Self::pop(&mut s);
                    self.w.ev(K::SetGlobal, 0, const_name(konst()), &[v]);
                }
                LoadLocal => {
                    let v = *self.slot(fr, a);
                    if v == V::Undef {
                        sym::fail(UNDEF)
                    }
                    s.push(v)
                }
                StoreLocal => {
                    let v = Self::pop(&mut s);
                    *self.slot(fr, a) = v;
                    s.push(v)
                }
                AssignLocal => {
                    let v = Self::pop(&mut s);
                    *self.slot(fr, a) = v;
                    s.push(V::Unit)
                }
                LoadUpvalue => {
                    let u = self.upval(&ups, a);
                    let v = self.up_get(u);
                    if v == V::Undef {
                        sym::fail(UNDEF)
                    }
                    s.push(v)
                }
                StoreUpvalue | AssignUpvalue => {
                    let v = Self::pop(&mut s);
                    let u = self.upval(&ups, a);
                    self.up_set(u, v);
                    s.push(if matches!(o.ins, AssignUpvalue) { V::Unit } else { v })
                }
                CloseUpvalue => {
                    let v = std::mem::replace(self.slot(fr, a), V::Null);
                    for u in self.ups.iter_mut() {
                        if matches!(*u, Up::Open(f, s) if f == fr && s == a) {
                            *u = Up::Closed(v);
                            break;
                        }
                    }
                }
                LoadField => {
                    let x = Self::pop(&mut s);
                    s.push(self.w.ev(K::Get, 0, const_name(konst()), &[x]));
                }
                StoreField | AssignField => {
                    let v = Self::pop(&mut s);
                    let x = Self::pop(&mut s);
                    self.w.ev(K::Set, 0, const_name(konst()), &[x, v]);
                    s.push(if matches!(o.ins, AssignField) { V::Unit } else { v })
                }
                LoadIndex => {
                    let i = Self::pop(&mut s);
                    let x = Self::pop(&mut s);
                    s.push(self.w.ev(K::GetIndex, 0, 0, &[x, i]));
                }
                StoreIndex | AssignIndex => {
                    let v = Self::pop(&mut s);
                    let i = Self::pop(&mut s);
                    let x = Self::pop(&mut s);
                    self.w.ev(K::SetIndex, 0, 0, &[x, i, v]);
                    s.push(if matches!(o.ins, AssignIndex) { V::Unit } else { v })
                }
                LoadFieldToLocal => {
                    let x = Self::pop(&mut s);
                    let v = self.w.ev(K::Get, 0, const_name(konst()), &[x]);
                    *self.slot(fr, o.b as usize) = v;
                    s.push(v)
                }
                LoadMethod => {
                    let me = Self::pop(&mut s);
                    let class = Self::pop(&mut s);
                    s.push(self.w.ev(K::Method, 0, const_name(konst()), &[class, me]));
                }
                StoreMethod => {
                    let v = Self::pop(&mut s);
                    let class = Self::pop(&mut s);
                    self.w.ev(K::StoreMethod, 0, const_name(konst()), &[class, v]);
                }
                Negate => {
                    let x = Self::pop(&mut s);
                    s.push(self.w.ev(K::Neg, 0, 0, &[x]))
                }
                Not => {
                    let x = Self::pop(&mut s);
                    s.push(self.w.ev(K::Not, 0, 0, &[x]))
                }
                Multiply | Divide | Remainder | Add | Subtract | GreaterThan | GreaterThanOrEqual | LessThan | LessThanOrEqual | Equal | NotEqual | RangeInclusive | RangeExclusive => {
                    let r = Self::pop(&mut s);
                    let l = Self::pop(&mut s);
                    let op = match o.ins {
                        Multiply => 0,
                        Divide => 1,
                        Remainder => 2,
                        Add => 3,
                        Subtract => 4,
                        GreaterThan => 5,
                        GreaterThanOrEqual => 6,
                        LessThan => 7,
                        LessThanOrEqual => 8,
                        Equal => 9,
                        NotEqual => 10,
                        RangeExclusive => 11,
                        _ => 12,
                    };
                    s.push(self.w.bin(op, l, r))
                }
                Is => {
                    let t = Self::pop(&mut s);
                    let v = Self::pop(&mut s);
                    s.push(self.w.ev(K::Is, 0, 0, &[v, t]))
                }
                Jump => pc = self.jump(&ops, o),
                JumpIfFalse | JumpIfTrue => {
                    let v = Self::pop(&mut s);
                    if self.w.test(v) == (matches!(o.ins, JumpIfTrue)) {
                        pc = self.jump(&ops, o)
                    }
                }
                Call => {
                    if a + 1 > s.len() {
                        sym::fail(FAULT)
                    }
                    let args = s.split_off(s.len() - a);
                    let f = Self::pop(&mut s);
                    let v = self.call(f, &args);
                    s.push(v)
                }
                CallSuper => {
                    let sup = Self::pop(&mut s);
                    if a + 1 > s.len() {
                        sym::fail(FAULT)
                    }
                    let args = s.split_off(s.len() - a - 1);
                    let mut v = vec![sup];
                    v.extend_from_slice(&args);
                    s.push(self.w.ev(K::CallSuper, 0, 0, &v))
                }
                Return => break Self::pop(&mut s),
                AssertBool => {
                    let v = Self::pop(&mut s);
                    self.w.assert_bool(v);
                    s.push(v)
                }
                AssertTypeForLocal | AssertTypeOrNullForLocal => {
                    let t = Self::pop(&mut s);
                    let v = *self.slot(fr, a);
                    self.w.ev(if matches!(o.ins, AssertTypeForLocal) { K::Assert } else { K::AssertNull }, 0, 0, &[v, t]);
                }
                AssertTypeAndReturn | AssertTypeOrNullAndReturn => {
                    let t = Self::pop(&mut s);
                    let v = Self::pop(&mut s);
                    self.w.ev(if matches!(o.ins, AssertTypeAndReturn) { K::Assert } else { K::AssertNull }, 0, 0, &[v, t]);
                    break v;
                }
            }
        };
        self.frames[fr] = None;
        result
    }
    fn jump(&mut self, ops: &[code::Op], o: &code::Op) -> usize {
        match code::target(ops, o) {
            Some(t) => t,
            None => sym::fail(FAULT),
        }
    }
}

// ---------------------------------------------------------------- comparing the two
pub fn text_of(p: &[X], full: bool) -> String {
    let mut t = Text { s: String::new(), full };
    t.stmts(p);
    t.s
}
/// functions that got out are called afterwards, in two rounds
fn outside(funs: &[Sig]) -> Vec<u32> {
    (0..funs.len()).filter(|i| funs[*i].escaped).map(|i| i as u32).take(4).collect()
}
/// what the generated programs are used for: 0 their meaning, 3 their syntax
/// tree, 7 and 8 the form of their code, 21 compiling them again
pub static MODE: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
pub fn with(mode: u8, f: fn()) {
    MODE.store(mode, std::sync::atomic::Ordering::Relaxed);
    f()
}
fn other(mode: u8, p: &[X], s: dice_core::source::Source) {
    use dice_compiler::compiler::Compiler;
    if mode == 3 || mode == 31 {
        // an import of nothing is rejected by the parser
        sym::assume(!p.iter().any(|x| matches!(x, X::Import(None, v) if v.is_empty())));
        return crate::tree::is_program(&s, p, 311);
    }
    if mode == 21 {
        return crate::explore::again(&s);
    }
    match Compiler::compile_source(s) {
        Err(_) => sym::reach(2),
        Ok(bc) => {
            sym::reach(1);
            if mode == 7 {
                code::check_wellformed(&bc)
            } else {
                code::check_balanced(&bc)
            }
        }
    }
}
/// compile the program and compare what it does with what it says
pub fn check(p: &[X], module: bool, full: bool, limit: usize) {
    let w = WRAP.load(std::sync::atomic::Ordering::Relaxed);
    if w == 0 {
        return check_(p, module, full, limit);
    }
    let p = p.to_vec();
    let func = |name, self_, body| FnD { name, self_, params: vec![], ret: None, body };
    let class = |o, f| X::Class(b(ClassD { name: b'D', base: None, items: vec![(o, f)] }));
    let (p, module) = match w {
        1 => (p, true),
        2 => (vec![X::Fn(b(func(b'D', false, p))), X::Call(b(X::Var(b'D')), vec![])], false),
        3 => (vec![X::Let(true, b'D', None, b(X::Var(b'E'))), X::Call(b(X::Var(b'E')), vec![X::Lam(vec![Param { name: b'F', ty: None }], b(X::Block(p)))]), X::Var(b'D')], true),
        4 => (vec![class(None, func(b'n', true, p))], false),
        5 => (vec![class(None, func(0, true, p))], true),
        6 => {
            let mut f = func(0, true, p);
            f.params.push(Param { name: b'F', ty: None });
            (vec![X::Block(vec![class(Some(ADD), f)])], false)
        }
        7 => (vec![X::If(b(X::Var(b'E')), p, Some(b(X::Block(vec![X::Var(b'F')]))))], true),
        8 => (vec![X::For(b'E', b(X::Var(b'F')), vec![X::Block(p), X::Var(b'E')])], false),
        _ => (vec![X::Fn(b(func(b'D', false, vec![X::Let(false, b'F', None, b(X::Var(b'E'))), X::While(b(X::Var(b'F')), vec![X::If(b(X::Var(b'E')), p, None)])]))), X::Call(b(X::Var(b'D')), vec![])], true),
    };
    check_(&p, module, full, limit + if w > 7 { 106 } else { 4 })
}
/// where the generated program is put: 0 nowhere else, 1 a module, 2 a function, 3 a lambda,
/// 4 a method, 5 a constructor, 6 an operator, 7 a conditional, 8 a loop, 9 a loop in a function
pub static WRAP: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
pub const WRAPS: usize = 9;
/// the program anywhere
pub fn anywhere(f: fn()) {
    WRAP.store(1 + sym::choose(WRAPS) as u8, std::sync::atomic::Ordering::Relaxed);
    f()
}
fn check_(p: &[X], module: bool, full: bool, limit: usize) {
    use dice_compiler::compiler::Compiler;
    use dice_core::source::{Source, SourceKind};
    let mut text = text_of(p, full);
    if MODE.load(std::sync::atomic::Ordering::Relaxed) == 31 {
        text = text.replace(' ', ["\n", " // x\n", "\t\r\n", "   "][sym::choose(4)]);
    }
    crate::text::show(&text);
    let mode = MODE.load(std::sync::atomic::Ordering::Relaxed);
    if mode != 0 {
        return other(mode, p, Source::new(text, if module { SourceKind::Module } else { SourceKind::Script }));
    }
    let codes = Rules::of(p, module);
    let bc = match Compiler::compile_source(Source::new(text, if module { SourceKind::Module } else { SourceKind::Script })) {
        Err(e) => {
            let code: u32 = e.error_code()[1..].parse().unwrap_or(0);
            if codes.is_empty() {
                sym::fail(REJECTED)
            }
            if !codes.contains(&code) {
                sym::fail(WRONGCODE)
            }
            sym::reach(code);
            sym::observe(code as u64);
            return;
        }
        Ok(b) => {
            if !codes.is_empty() {
                sym::fail(ACCEPTED)
            }
            b
        }
    };
    // what it says
    let mut r = Ref::new(limit);
    let mut result = match r.block(p) {
        Ok(v) => v,
        _ => sym::fail(ACCEPTED),
    };
    if module {
        result = V::Export;
    }
    if let V::Fun(f) = result {
        r.w.funs[f as usize].escaped = true;
    }
    let mut calls: Vec<(u32, V)> = vec![];
    let main = r.w.log.len();
    for _ in 0..2 {
        for f in outside(&r.w.funs) {
            if calls.len() >= 6 {
                break;
            }
            let a = r.fresh(r.w.funs[f as usize].n);
            let v = r.invoke(f, &a);
            if let V::Fun(g) = v {
                r.w.funs[g as usize].escaped = true;
            }
            calls.push((f, v));
        }
    }
    // what it does
    let mut vm = Vm::new(r.w.second());
    let v = vm.run(&bc, vec![], if module { vec![V::Export] } else { vec![] }, true);
    same(&vm.w, v, result);
    if vm.w.log.len() != main {
        sym::fail(MISSING)
    }
    for (f, want) in calls {
        if f as usize >= vm.funs.len() {
            sym::fail(MISSING)
        }
        let a = vm.fresh(vm.w.funs[f as usize].n);
        let v = vm.invoke(f, &a);
        same(&vm.w, v, want);
    }
    if vm.w.log.len() != vm.w.want.as_ref().unwrap().len() {
        sym::fail(MISSING)
    }
    sym::reach(1);
    sym::observe(vm.w.log.len() as u64);
}
fn same(w: &World, a: V, b: V) {
    if w.norm(a) != w.norm(b) {
        sym::fail(RESULT)
    }
}
