//! Every program of a bounded size over a choice of constructs.
use crate::sem::*;
use crate::sym;
use P::*;

#[derive(Clone, Copy, PartialEq)]
pub enum P {
    // expressions
    Int,
    Null,
    Unit,
    Bool,
    Neg,
    Not,
    Bin,
    And,
    Or,
    Coal,
    Pipe,
    Range,
    Is,
    IsN,
    Field,
    Index,
    Call0,
    Call1,
    Call2,
    NProp,
    EProp,
    SetVar,
    SetVarOp,
    SetField,
    SetFieldOp,
    SetIndex,
    SetIndexOp,
    List0,
    List2,
    Obj1,
    Obj2,
    Lam0,
    Lam1,
    LamB,
    Block,
    If,
    IfElse,
    IfElseIf,
    Handler,
    SuperCall,
    SuperField,
    SuperFieldC,
    // statements
    While,
    Loop,
    For,
    ForR,
    Break,
    Continue,
    Ret,
    Ret0,
    Let,
    LetMut,
    LetD,
    Fn0,
    Fn1,
    Me,
    SuperCall0,
    Class0,
    Class1,
    Lit,
    Lit2,
}
pub struct G {
    pub left: i32,
    pub names: &'static [u8],
    pub ex: &'static [P],
    pub st: &'static [P],
    pub ops: &'static [u8],
    /// fields and object keys
    pub fields: &'static [u8],
    pub empty: bool,
    /// inside a loop, inside a function
    pub in_loop: bool,
    pub in_fn: bool,
}
const LITERALS: &[X] = &[X::Int(0), X::Int(1), X::Int(2), X::Int(0), X::Int(255), X::Int(65536), X::Int(i64::MAX), X::Bool(true), X::Bool(false), X::Unit, X::Null, X::Str(""), X::Str("t"), X::Float("0.0"), X::Float("1.0"), X::Float("1.5")];
pub fn one_of(set: &'static [u8]) -> u8 {
    if set.len() == 1 {
        return set[0];
    }
    let c = sym::u8();
    let mut ok = false;
    for x in set {
        ok |= c == *x;
    }
    sym::assume(ok);
    c
}
fn leafy(p: P) -> bool {
    matches!(p, Lit | Lit2 | Int | Null | Unit | Bool | Break | Continue | Ret0 | List0 | Me)
}
impl G {
    pub fn new(left: i32) -> G {
        G { left, names: b"gk", ex: &[], st: &[], ops: &[ADD], fields: b"x", empty: false, in_loop: false, in_fn: false }
    }
    pub fn name(&mut self) -> u8 {
        one_of(self.names)
    }
    fn field(&mut self) -> u8 {
        one_of(self.fields)
    }
    pub fn leaf(&mut self) -> X {
        X::Var(self.name())
    }
    fn pick(&mut self, stmt: bool) -> Option<P> {
        let mut v: Vec<P> = vec![];
        for p in self.ex {
            if (self.left > 0 || leafy(*p)) && self.allowed(*p) {
                v.push(*p);
            }
        }
        if stmt {
            for p in self.st {
                if (self.left > 0 || leafy(*p)) && self.allowed(*p) {
                    v.push(*p);
                }
            }
        }
        let c = sym::choose(v.len() + 1);
        if c == 0 {
            return None;
        }
        if !leafy(v[c - 1]) {
            self.left -= 1;
        }
        Some(v[c - 1])
    }
    fn allowed(&self, p: P) -> bool {
        match p {
            Break | Continue => self.in_loop,
            Ret | Ret0 | EProp => self.in_fn,
            _ => true,
        }
    }
    fn loop_block(&mut self) -> Vec<X> {
        let l = std::mem::replace(&mut self.in_loop, true);
        let v = self.block();
        self.in_loop = l;
        v
    }
    fn enter(&mut self) -> (bool, bool) {
        (std::mem::replace(&mut self.in_loop, false), std::mem::replace(&mut self.in_fn, true))
    }
    fn fn_block(&mut self) -> Vec<X> {
        let s = self.enter();
        let v = self.block();
        self.in_loop = s.0;
        self.in_fn = s.1;
        v
    }
    fn fn_expr(&mut self) -> Box<X> {
        let s = self.enter();
        let v = self.e();
        self.in_loop = s.0;
        self.in_fn = s.1;
        v
    }
    pub fn e(&mut self) -> Box<X> {
        Box::new(self.expr())
    }
    pub fn expr(&mut self) -> X {
        match self.pick(false) {
            None => self.leaf(),
            Some(p) => self.make(p),
        }
    }
    pub fn stmt(&mut self) -> X {
        match self.pick(true) {
            None => self.leaf(),
            Some(p) => self.make(p),
        }
    }
    pub fn block(&mut self) -> Vec<X> {
        let mut v = vec![];
        if self.empty && sym::choose(2) == 1 {
            return v;
        }
        loop {
            v.push(self.stmt());
            if self.left > 0 && sym::choose(2) == 1 {
                self.left -= 1;
            } else {
                return v;
            }
        }
    }
    fn op(&mut self) -> u8 {
        self.ops[sym::choose(self.ops.len())]
    }
    fn cop(&mut self) -> Option<u8> {
        Some([ADD, SUB, MUL, 1][if self.ops.len() > 3 { sym::choose(4) } else { 0 }])
    }
    fn make(&mut self, p: P) -> X {
        match p {
            Lit => LITERALS[sym::choose(LITERALS.len())].clone(),
            Lit2 => LITERALS[[1, 3, 7, 8, 10, 12][sym::choose(6)]].clone(),
            Int => X::Int(2),
            Null => X::Null,
            Unit => X::Unit,
            Bool => X::Bool(sym::choose(2) == 1),
            Neg => X::Un(0, self.e()),
            Not => X::Un(1, self.e()),
            Bin => {
                let o = self.op();
                X::Bin(o, self.e(), self.e())
            }
            And => X::And(self.e(), self.e()),
            Or => X::Or(self.e(), self.e()),
            Coal => X::Coal(self.e(), self.e()),
            Pipe => X::Pipe(self.e(), self.e()),
            Range => X::Range(sym::choose(2) == 1, self.e(), self.e()),
            Is => X::Is(self.e(), b'T', false),
            IsN => X::Is(self.e(), b'T', true),
            Field => X::Field(self.e(), self.field()),
            Index => X::Index(self.e(), self.e()),
            Call0 => X::Call(self.e(), vec![]),
            Call1 => X::Call(self.e(), vec![self.expr()]),
            Call2 => X::Call(self.e(), vec![self.expr(), self.expr()]),
            NProp => X::NProp(self.e()),
            EProp => X::EProp(self.e()),
            SetVar => X::Set(Box::new(X::Var(self.name())), None, self.e()),
            SetVarOp => X::Set(Box::new(X::Var(self.name())), self.cop(), self.e()),
            SetField => X::Set(Box::new(X::Field(self.target(), self.field())), None, self.e()),
            SetFieldOp => X::Set(Box::new(X::Field(self.target(), self.field())), self.cop(), self.e()),
            SetIndex => X::Set(Box::new(X::Index(self.target(), self.e())), None, self.e()),
            SetIndexOp => X::Set(Box::new(X::Index(self.target(), self.e())), self.cop(), self.e()),
            List0 => X::List(vec![]),
            List2 => X::List(vec![self.expr(), self.expr()]),
            Obj1 => X::Obj(vec![(self.field(), self.expr())]),
            Obj2 => X::Obj(vec![(self.field(), self.expr()), (b'y', self.expr())]),
            Lam0 => X::Lam(vec![], self.fn_expr()),
            Lam1 => X::Lam(vec![Param { name: self.name(), ty: None }], self.fn_expr()),
            LamB => X::Lam(vec![], Box::new(X::Block(self.fn_block()))),
            Block => X::Block(self.block()),
            If => X::If(self.e(), self.block(), None),
            IfElse => X::If(self.e(), self.block(), Some(Box::new(X::Block(self.block())))),
            IfElseIf => X::If(self.e(), self.block(), Some(Box::new(X::If(self.e(), self.block(), Some(Box::new(X::Block(self.block()))))))),
            Handler => X::Handler(self.e(), self.name(), self.block()),
            SuperCall => X::SuperCall(vec![self.expr()]),
            Me => X::Word("self"),
            SuperCall0 => X::SuperCall(vec![]),
            Class0 => X::Class(Box::new(ClassD { name: self.name(), base: None, items: vec![] })),
            Class1 => {
                let base = if sym::choose(2) == 1 { Some(X::Var(self.name())) } else { None };
                let name = self.name();
                let item = self.item();
                X::Class(Box::new(ClassD { name, base, items: vec![item] }))
            }
            SuperField => X::SuperField(None, self.field()),
            SuperFieldC => X::SuperField(Some(self.name()), self.field()),
            While => X::While(self.e(), self.loop_block()),
            Loop => X::Loop(self.loop_block()),
            For => X::For(self.name(), self.e(), self.loop_block()),
            ForR => X::For(self.name(), Box::new(X::Range(sym::choose(2) == 1, self.e(), self.e())), self.loop_block()),
            Break => X::Break,
            Continue => X::Continue,
            Ret => X::Ret(Some(self.e())),
            Ret0 => X::Ret(None),
            Let => X::Let(false, self.name(), None, self.e()),
            LetMut => X::Let(true, self.name(), None, self.e()),
            LetD => X::LetD(false, vec![self.name(), b'y'], self.e()),
            Fn0 => X::Fn(Box::new(FnD { name: self.name(), self_: false, params: vec![], ret: None, body: self.fn_block() })),
            Fn1 => X::Fn(Box::new(FnD { name: self.name(), self_: false, params: vec![Param { name: self.name(), ty: None }], ret: None, body: self.fn_block() })),
        }
    }
    /// a function, method, constructor or operator of a class
    pub fn item(&mut self) -> (Option<u8>, FnD) {
        let (op, name, self_) = match sym::choose(6) {
            0 => (None, b'n', true),
            1 => (None, 0, true),
            2 => (None, b'n', false),
            3 => (None, 0, false),
            4 => (Some(ADD), 0, true),
            _ => (Some(ADD), 0, false),
        };
        self.item_of(op, name, self_)
    }
    pub fn item_of(&mut self, op: Option<u8>, name: u8, self_: bool) -> (Option<u8>, FnD) {
        let body = self.fn_block();
        let params = if op.is_some() { vec![Param { name: b'p', ty: None }] } else { vec![] };
        (op, FnD { name, self_, params, ret: None, body })
    }
    /// the object of an assignment target: an access chain without propagation marks
    fn target(&mut self) -> Box<X> {
        if self.left > 0 && sym::choose(2) == 1 {
            self.left -= 1;
            let x = self.target();
            return Box::new(match sym::choose(3) {
                0 => X::Field(x, self.field()),
                1 => X::Index(x, self.e()),
                _ => X::Call(x, vec![self.expr()]),
            });
        }
        Box::new(self.leaf())
    }
}

// ---------------------------------------------------------------- C09
const EXPR: &[P] = &[
    Neg, Not, Bin, And, Or, Coal, Pipe, Range, Is, IsN, Field, Index, Call0, Call1, Call2, SetField, SetFieldOp, SetIndex, SetIndexOp, List2, Obj1, Obj2, IfElse, Block,
];
const EXPR1: &[P] = &[
    Int, Null, Unit, Bool, List0, Neg, Not, Bin, And, Or, Coal, Pipe, Range, Is, IsN, Field, Index, Call0, Call1, Call2, SetField, SetFieldOp, SetIndex, SetIndexOp, List2, Obj1, Obj2, If, IfElse, Block,
];
/// every construct on every kind of leaf, with every operator
pub fn c09_expr1() {
    let mut g = G { ex: EXPR1, ops: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], ..G::new(1) };
    let x = g.expr();
    check(&[x], false, false, 24)
}
/// every construct inside every construct
pub fn c09_expr2() {
    let mut g = G { ex: EXPR, ops: &[ADD, EQ], ..G::new(2) };
    let x = g.expr();
    check(&[x], false, false, 24)
}
/// three nested constructs
pub fn c09_expr3() {
    let mut g = G { ex: EXPR, names: b"k", ..G::new(3) };
    let x = g.expr();
    check(&[x], false, false, 24)
}
/// assignments to variables among everything else
pub fn c09_assign() {
    let mut g = G { ex: &[SetVar, SetVarOp, Bin, And, Or, Coal, Call2, Pipe, List2, IfElse, Block, SetField, SetIndexOp], ops: &[0, 1, 3, 4], ..G::new(2) };
    let x = g.expr();
    check(&[X::Let(true, b'k', None, Box::new(X::Var(b'g'))), X::Let(true, b'g', None, Box::new(X::Var(b'k'))), x, X::Var(b'k')], false, false, 24)
}
/// literals as operands of everything
pub fn c09_lits1() {
    let mut g = G { ex: &[Lit, Neg, Not, Bin, And, Or, Coal, Pipe, Range, Is, Index, Call1, SetField, List2, If, IfElse], ops: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], names: b"k", ..G::new(1) };
    let x = g.expr();
    check(&[x], false, false, 24)
}
pub fn c09_lits2() {
    let mut g = G { ex: &[Lit2, Neg, Not, Bin, And, Or, Coal, IfElse, Call0], ops: &[0, 3, 4, 9], names: b"k", ..G::new(2) };
    let x = g.expr();
    check(&[x], false, false, 24)
}
/// conditions and bounds that are literals
pub fn c10_lits() {
    let mut g = G { ex: &[Lit2, Not, If, IfElse, Block], st: &[While, Loop, ForR, Break, Let], names: b"k", ..G::new(2) };
    let p = g.block();
    check(&p, false, false, 212)
}
pub fn c10_lits1() {
    let mut g = G { ex: &[Lit, If, IfElse, Block], st: &[While, Loop, ForR, Break, Let], names: b"k", ..G::new(1) };
    let p = g.block();
    check(&p, false, false, 212)
}
/// the same inside a function, where the variables belong to the caller
pub fn c09_assign_fn() {
    let mut g = G { ex: &[SetVar, SetVarOp, Bin, And, Coal, Call1, IfElse, SetFieldOp], ops: &[0, 1, 3, 4], ..G::new(2) };
    let x = g.expr();
    check(&[X::Let(true, b'k', None, Box::new(X::Var(b'g'))), X::Let(true, b'g', None, Box::new(X::Var(b'k'))), X::Call(Box::new(X::Var(b'h')), vec![X::Lam(vec![], Box::new(x))]), X::Var(b'k')], false, false, 24)
}

// ---------------------------------------------------------------- C10
pub fn c10_loops3() {
    let mut g = G { ex: &[If, Block], st: &[While, Loop, For, Break, Continue], names: b"k", ..G::new(3) };
    let p = g.block();
    check(&p, false, false, 312)
}
pub fn c10_loops4() {
    let mut g = G { ex: &[If, Block], st: &[While, Loop, For, ForR, Break, Continue], names: b"k", ..G::new(4) };
    let p = g.block();
    check(&p, false, false, 312)
}
/// loops over ranges, and both ways of a test
pub fn c10_ranges() {
    let mut g = G { ex: &[IfElse], st: &[ForR, While, Break, Continue], names: b"gk", ..G::new(2) };
    let p = g.block();
    check(&p, false, false, 412)
}
/// leaving a loop from the middle of an expression
pub fn c10_inner() {
    let mut g = G { ex: &[Bin, Call2, List2, Obj2, Pipe, SetIndex, SetFieldOp, Coal, And, Index], names: b"k", ..G::new(2) };
    // one operand is a block that leaves
    let s = [X::Break, X::Continue][sym::choose(2)].clone();
    let hole = X::If(Box::new(X::Var(b'h')), vec![s], Some(Box::new(X::Block(vec![X::Var(b'j')]))));
    let mut x = g.expr();
    let n = leaves(&x);
    let k = sym::choose(n);
    replace(&mut x, &mut (k as i32), &hole);
    let body = vec![x];
    let v = b'v';
    let l = match sym::choose(4) {
        0 => X::While(Box::new(X::Var(b'q')), body),
        1 => X::Loop(body),
        2 => X::For(v, Box::new(X::Var(b'q')), body),
        _ => X::For(v, Box::new(X::Range(false, Box::new(X::Var(b'q')), Box::new(X::Var(b'z')))), body),
    };
    // the loop itself may be an operand
    let p = match sym::choose(2) {
        0 => l,
        _ => X::Call(Box::new(X::Var(b'u')), vec![X::Var(b'x'), X::Block(vec![l])]),
    };
    check(&[p], false, false, 416)
}
/// returning from anywhere
pub fn c10_return() {
    let mut g = G { ex: &[If, IfElse, Block, Bin, Call1], st: &[While, For, ForR, Ret, Ret0, Break], in_fn: true, names: b"k", ..G::new(3) };
    let body = g.block();
    check(&[X::Fn(Box::new(FnD { name: b'f', self_: false, params: vec![], ret: None, body })), X::Call(Box::new(X::Var(b'f')), vec![])], false, false, 412)
}
pub fn c10_values3() {
    let mut g = G { ex: &[If, IfElse, Block, Unit], st: &[While, Let], names: b"k", empty: true, ..G::new(3) };
    let x = g.expr();
    check(&[X::Call(Box::new(X::Var(b'h')), vec![x])], false, false, 314)
}
pub fn c10_values() {
    let mut g = G { ex: &[If, IfElse, IfElseIf, Block, Int], st: &[While, Let], names: b"k", empty: true, ..G::new(2) };
    let x = g.expr();
    check(&[X::Call(Box::new(X::Var(b'h')), vec![x])], false, false, 14)
}

/// number of variable leaves, and replacing one of them
fn walk(x: &mut X, f: &mut dyn FnMut(&mut X)) {
    match x {
        X::Var(_) => f(x),
        X::Un(_, a) | X::Is(a, ..) | X::Field(a, _) | X::NProp(a) | X::EProp(a) => walk(a, f),
        X::Bin(_, l, r) | X::And(l, r) | X::Or(l, r) | X::Coal(l, r) | X::Pipe(l, r) | X::Range(_, l, r) | X::Index(l, r) => {
            walk(l, f);
            walk(r, f);
        }
        X::Call(a, v) => {
            walk(a, f);
            for x in v {
                walk(x, f);
            }
        }
        X::List(v) => {
            for x in v {
                walk(x, f);
            }
        }
        X::Obj(v) => {
            for x in v {
                walk(&mut x.1, f);
            }
        }
        X::Set(t, _, v) => {
            match &mut **t {
                X::Field(a, _) => walk(a, f),
                X::Index(a, i) => {
                    walk(a, f);
                    walk(i, f);
                }
                _ => (),
            }
            walk(v, f);
        }
        _ => (),
    }
}
pub fn leaves(x: &X) -> usize {
    let mut n = 0;
    walk(&mut x.clone(), &mut |_| n += 1);
    n
}
pub fn replace(x: &mut X, k: &mut i32, by: &X) {
    walk(x, &mut |y| {
        if *k == 0 {
            *y = by.clone();
        }
        *k -= 1;
    });
}

// ---------------------------------------------------------------- C11
pub fn c11_names3() {
    let mut g = G { ex: &[SetVar, Block, Call1, Lam0], st: &[Let, LetMut, LetD, Fn0, Fn1, ForR], ..G::new(3) };
    let p = g.block();
    check(&p, false, false, 412)
}
pub fn c11_names4() {
    let mut g = G { ex: &[SetVar, Block, LamB], st: &[LetMut, Fn0], ..G::new(4) };
    let p = g.block();
    check(&p, false, false, 412)
}
pub fn c11_scopes() {
    let mut g = G { ex: &[Block, If, Handler, SetVarOp, Lam1], st: &[Let, LetMut, For, LetD], ..G::new(3) };
    let p = g.block();
    check(&p, true, false, 14)
}

// ---------------------------------------------------------------- C12
fn esc(x: X) -> X {
    X::Call(Box::new(X::Var(b'h')), vec![x])
}
/// closures over variables of scopes left by every route
pub fn c12_scopes() {
    let mut g = G { ex: &[SetVar, LamB, Block, Call1], st: &[LetMut], names: b"gk", ..G::new(5) };
    let p = g.block();
    check(&p, false, false, 20)
}
fn capture() -> X {
    // a closure that reads, writes or counts
    let k = one_of(b"gk");
    let x = match sym::choose(3) {
        0 => X::Var(k),
        1 => X::Block(vec![X::Set(Box::new(X::Var(k)), Some(ADD), Box::new(X::Int(2))), X::Var(k)]),
        _ => X::Lam(vec![], Box::new(X::Var(k))),
    };
    esc(X::Lam(vec![], Box::new(x)))
}
fn let_(n: u8, v: u8) -> X {
    X::Let(true, n, None, Box::new(X::Var(v)))
}
/// two variables and a loop whose body captures, writes and leaves
pub fn c12_loop() {
    let mut body = vec![];
    if sym::choose(2) == 1 {
        body.push(let_(one_of(b"gk"), b'u'));
    }
    body.push(capture());
    if sym::choose(2) == 1 {
        body.push(X::Set(Box::new(X::Var(one_of(b"gk"))), None, Box::new(X::Var(b'u'))));
    }
    let leave = match sym::choose(4) {
        0 => None,
        1 => Some(X::Break),
        2 => Some(X::Continue),
        _ => Some(X::Ret(Some(Box::new(X::Var(one_of(b"gk")))))),
    };
    if let Some(l) = leave {
        let inner = if sym::choose(2) == 1 { vec![let_(b'g', b'z'), capture(), l] } else { vec![l] };
        body.push(X::If(Box::new(X::Var(b'q')), inner, None));
    }
    let l = match sym::choose(4) {
        0 => X::While(Box::new(X::Var(b'q')), body),
        1 => X::Loop(body),
        2 => X::For(one_of(b"gkv"), Box::new(X::Var(b'q')), body),
        _ => X::For(one_of(b"gkv"), Box::new(X::Range(true, Box::new(X::Var(b'q')), Box::new(X::Var(b'z')))), body),
    };
    let f = vec![let_(b'k', b'x'), let_(b'g', b'x'), l, X::Var(b'k')];
    let fd = X::Fn(Box::new(FnD { name: b'f', self_: false, params: vec![], ret: None, body: f }));
    check(&[fd, X::Call(Box::new(X::Var(b'f')), vec![])], false, false, 22)
}
/// captures through several levels of functions
pub fn c12_nested() {
    let mut g = G { ex: &[SetVar, LamB, Call0], st: &[LetMut], names: b"gk", ..G::new(4) };
    let inner = g.block();
    let p = vec![
        let_(b'k', b'x'),
        X::Fn(Box::new(FnD {
            name: b'f',
            self_: false,
            params: vec![Param { name: b'p', ty: None }],
            ret: None,
            body: vec![
                let_(b'g', b'p'),
                esc(X::Lam(vec![], Box::new(X::Block(inner)))),
                X::Set(Box::new(X::Var(one_of(b"gk"))), None, Box::new(X::Var(b'p'))),
                esc(X::Lam(vec![], Box::new(X::Var(one_of(b"gk"))))),
            ],
        })),
        X::Call(Box::new(X::Var(b'f')), vec![X::Var(b'k')]),
        X::Set(Box::new(X::Var(b'k')), None, Box::new(X::Int(7))),
        X::Call(Box::new(X::Var(b'f')), vec![X::Var(b'k')]),
    ];
    check(&p, false, false, 26)
}

// ---------------------------------------------------------------- C13
pub fn c13_chain3() {
    let mut g = G { ex: &[NProp, Field, Index, Call0, Call1, Bin, Coal], names: b"k", ..G::new(3) };
    let x = g.expr();
    check(&[x], false, false, 16)
}
pub fn c13_chain4() {
    let mut g = G { ex: &[NProp, Field, Call1, Bin], names: b"k", ..G::new(4) };
    let x = g.expr();
    check(&[x], false, false, 16)
}
pub fn c13_err3() {
    let mut g = G { ex: &[EProp, NProp, Field, Call2, Bin, Index, List2], in_fn: true, names: b"k", ..G::new(3) };
    let x = g.expr();
    let ret = if sym::choose(2) == 1 { Some(Ty { name: b'T', null: sym::choose(2) == 1 }) } else { None };
    check(&[X::Fn(Box::new(FnD { name: b'f', self_: false, params: vec![], ret, body: vec![x] })), X::Call(Box::new(X::Var(b'f')), vec![])], false, false, 16)
}
pub fn c13_handler() {
    let mut g = G { ex: &[Handler, NProp, EProp, Field, Call1, Bin], st: &[Let], in_fn: true, ..G::new(3) };
    let body = g.block();
    check(&[X::Fn(Box::new(FnD { name: b'f', self_: false, params: vec![], ret: None, body })), X::Call(Box::new(X::Var(b'f')), vec![])], false, false, 16)
}
/// propagation inside loops and among pending operands
pub fn c13_loops() {
    let mut g = G { ex: &[EProp, NProp, Call2, Bin, Field], st: &[For, ForR, While], in_fn: true, names: b"k", ..G::new(3) };
    let body = g.block();
    check(&[X::Fn(Box::new(FnD { name: b'f', self_: false, params: vec![], ret: None, body })), X::Call(Box::new(X::Var(b'f')), vec![])], false, false, 412)
}

// ---------------------------------------------------------------- C18
/// one class with one member of every kind
pub fn c18_member() {
    let mut g = G { ex: &[Me, SuperField, SuperFieldC, SuperCall0, SetField, Call0, Lam0], st: &[Ret, Ret0, Let], names: b"gc", ..G::new(2) };
    let base = if sym::choose(2) == 1 { Some(X::Var(b'g')) } else { None };
    let item = g.item();
    check(&[X::Class(Box::new(ClassD { name: b'c', base, items: vec![item] })), X::Var(b'c')], false, false, 216)
}
/// constructors
pub fn c18_new() {
    let mut g = G { ex: &[Me, SuperCall, If, Block, LamB, EProp, NProp], st: &[Ret, Ret0, While, SetField], names: b"g", in_fn: true, ..G::new(2) };
    let base = if sym::choose(2) == 1 { Some(X::Var(b'g')) } else { None };
    let mut body = vec![];
    if sym::choose(2) == 1 {
        body.push(X::SuperCall(vec![X::Word("self")]));
    }
    body.extend(g.block());
    let ret = if sym::choose(2) == 1 { Some(Ty { name: b'T', null: false }) } else { None };
    let item = (None, FnD { name: 0, self_: sym::choose(2) == 1, params: vec![Param { name: b'p', ty: None }], ret, body });
    check(&[X::Class(Box::new(ClassD { name: b'c', base, items: vec![item] }))], false, false, 216)
}
/// two members, in either order, overwriting or using each other
pub fn c18_members() {
    let mut g = G { ex: &[Me, SetField, SuperField], st: &[Ret], names: b"gc", ..G::new(1) };
    let a = g.item();
    let b = g.item();
    let c = X::Class(Box::new(ClassD { name: b'c', base: Some(X::Var(b'g')), items: vec![a, b] }));
    let p = match sym::choose(3) {
        0 => vec![c, X::Call(Box::new(X::Var(b'c')), vec![])],
        1 => vec![X::Block(vec![c])],
        _ => vec![X::Fn(Box::new(FnD { name: b'f', self_: false, params: vec![], ret: None, body: vec![c, X::Var(b'c')] })), X::Call(Box::new(X::Var(b'f')), vec![])],
    };
    check(&p, false, false, 216)
}
/// classes, functions and variables of one another's names
pub fn c18_names() {
    names_of(3)
}
pub fn c18_names2() {
    names_of(2)
}
fn names_of(size: i32) {
    let mut g = G { ex: &[Block], st: &[Fn0, Let, Class0, Class1], names: b"gc", ..G::new(size) };
    let p = g.block();
    check(&p, false, false, 216)
}

// ---------------------------------------------------------------- C19
fn export(g: &mut G) -> X {
    let n = g.name();
    let v = b(X::Var(b'u'));
    let inner = match sym::choose(7) {
        0 => X::Let(sym::choose(2) == 1, n, None, v),
        1 => X::LetD(false, vec![n, g.name()], v),
        2 => X::Fn(b(FnD { name: n, self_: false, params: vec![], ret: None, body: vec![X::Var(g.name())] })),
        3 => X::Class(b(ClassD { name: n, base: None, items: vec![] })),
        4 => X::Var(n),
        5 => X::Let(true, n, None, b(X::Set(b(X::Var(g.name())), None, v))),
        _ => X::Let(false, n, None, b(X::Lam(vec![], b(X::Var(g.name()))))),
    };
    X::Export(b(inner))
}
fn import(g: &mut G) -> X {
    match sym::choose(4) {
        0 => X::Import(Some(g.name()), vec![]),
        1 => X::Import(None, vec![g.name()]),
        2 => X::Import(Some(g.name()), vec![g.name(), b'y']),
        _ => X::Import(None, vec![g.name(), g.name()]),
    }
}
/// imports, exports and what stands between them
pub fn c19_module() {
    module(3)
}
pub fn c19_module2() {
    module(2)
}
fn module(most: usize) {
    let mut g = G { ex: &[SetVar, Lam0, Block, If], st: &[LetMut, Fn0], names: b"gk", ..G::new(1) };
    let mut p = vec![];
    let n = 1 + sym::choose(most);
    for _ in 0..n {
        p.push(match sym::choose(3) {
            0 => import(&mut g),
            1 => export(&mut g),
            _ => g.stmt(),
        });
    }
    check(&p, true, false, 216)
}
/// exports that are not at the top of a module
pub fn c19_place() {
    let mut g = G { names: b"gk", ..G::new(0) };
    let x = if sym::choose(2) == 1 { export(&mut g) } else { import(&mut g) };
    let v = vec![x, X::Var(g.name())];
    let p = match sym::choose(8) {
        0 => v,
        1 => vec![X::Block(v)],
        2 => vec![X::If(b(X::Var(b'q')), v, None)],
        3 => vec![X::While(b(X::Var(b'q')), v)],
        4 => vec![X::Fn(b(FnD { name: b'f', self_: false, params: vec![], ret: None, body: v }))],
        5 => vec![X::Let(false, b'w', None, b(X::Lam(vec![], b(X::Block(v)))))],
        6 => vec![X::Class(b(ClassD { name: b'c', base: None, items: vec![(None, FnD { name: b'n', self_: true, params: vec![], ret: None, body: v })] }))],
        _ => vec![X::Handler(b(X::Var(b'q')), b'e', v)],
    };
    check(&p, sym::choose(2) == 1, false, 216)
}

// ---------------------------------------------------------------- C20
fn ty(g: &mut G) -> Option<Ty> {
    match sym::choose(3) {
        0 => None,
        1 => Some(Ty { name: g.name(), null: false }),
        _ => Some(Ty { name: g.name(), null: true }),
    }
}
/// parameters with types and every way out of a function with a return type
pub fn c20_sig() {
    let mut g = G { ex: &[If, IfElse, Block, EProp, NProp], st: &[Ret, Ret0, While, Loop], names: b"T", in_fn: true, ..G::new(2) };
    let n = sym::choose(3);
    let mut params = vec![];
    for i in 0..n {
        let mut h = G { names: b"gT", ..G::new(0) };
        params.push(Param { name: one_of(if i == 0 { b"pq" } else { b"pT" }), ty: ty(&mut h) });
    }
    let ret = ty(&mut g);
    let body = g.block();
    let fd = FnD { name: b'f', self_: false, params, ret, body };
    check(&[X::Fn(b(fd)), X::Call(b(X::Var(b'f')), vec![X::Var(b'u')])], false, false, 216)
}
/// the same for lambdas, methods and operators
pub fn c20_kinds() {
    kinds(&[0, 4, 10])
}
pub fn c20_kinds11() {
    kinds(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
}
fn kinds(ops: &[u8]) {
    let mut g = G { ex: &[Block, If, Lam1], st: &[Ret, Let], names: b"pT", in_fn: true, ..G::new(1) };
    let mut params = vec![];
    for _ in 0..1 + sym::choose(2) {
        params.push(Param { name: g.name(), ty: ty(&mut g) });
    }
    let p = match sym::choose(4) {
        0 => {
            let body = g.block();
            X::Lam(params, b(X::Block(body)))
        }
        1 => {
            let ret = ty(&mut g);
            let body = g.block();
            X::Class(b(ClassD { name: b'c', base: None, items: vec![(None, FnD { name: b'n', self_: true, params, ret, body })] }))
        }
        2 => {
            let ret = ty(&mut g);
            let body = g.block();
            X::Class(b(ClassD { name: b'c', base: None, items: vec![(None, FnD { name: b'n', self_: false, params, ret, body })] }))
        }
        _ => {
            let ret = ty(&mut g);
            let body = g.block();
            X::Class(b(ClassD { name: b'c', base: None, items: vec![(Some(ops[sym::choose(ops.len())]), FnD { name: 0, self_: true, params, ret, body })] }))
        }
    };
    check(&[X::Call(b(X::Var(b'h')), vec![X::Block(vec![p])])], false, false, 216)
}
