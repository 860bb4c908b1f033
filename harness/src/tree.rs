//! The syntax tree against the source's tokens (C03) and against the program
//! the text was printed from (C03, C04).
use crate::sem::{self, Ty, X};
use crate::{sym, text::*, total::CONTEXTS};
use dice_core::source::{Source, SourceKind};
use dice_syntax::lexer::{Token, TokenKind as T};
use dice_syntax::*;

// ------------------------------------------------------------ token accounting
pub struct Tok {
    kind: T,
    text: String,
    /// may be missing from the source
    opt: bool,
    /// may be written as a string
    key: bool,
}
pub struct Flat<'t> {
    t: &'t SyntaxTree,
    pub out: Vec<Tok>,
}
fn op_token(o: &BinaryOperator) -> T {
    match o {
        BinaryOperator::Multiply => T::Star,
        BinaryOperator::Divide => T::Slash,
        BinaryOperator::Remainder => T::Remainder,
        BinaryOperator::Add => T::Plus,
        BinaryOperator::Subtract => T::Minus,
        BinaryOperator::GreaterThan => T::Greater,
        BinaryOperator::LessThan => T::Less,
        BinaryOperator::GreaterThanEquals => T::GreaterEqual,
        BinaryOperator::LessThanEquals => T::LessEqual,
        BinaryOperator::Equals => T::Equal,
        BinaryOperator::NotEquals => T::NotEqual,
        BinaryOperator::LogicalAnd => T::LazyAnd,
        BinaryOperator::LogicalOr => T::Pipe,
        BinaryOperator::RangeInclusive => T::RangeInclusive,
        BinaryOperator::RangeExclusive => T::RangeExclusive,
        BinaryOperator::Coalesce => T::Coalesce,
        BinaryOperator::Pipeline => T::Pipeline,
    }
}
/// the parts of `target or name { block }`
fn handler<'t>(t: &'t SyntaxTree, b: &Block) -> Option<(SyntaxNodeId, &'t str, SyntaxNodeId)> {
    if b.expressions.len() != 1 {
        return None;
    }
    let d = match t.get(b.expressions[0]) {
        SyntaxNode::VarDecl(d) => d,
        _ => return None,
    };
    match &d.kind {
        VarDeclKind::Singular(n) if n == "#result" => (),
        _ => return None,
    }
    let i = match t.get(b.trailing_expression?) {
        SyntaxNode::IfExpression(i) => i,
        _ => return None,
    };
    let f = match t.get(i.secondary?) {
        SyntaxNode::Block(f) if f.expressions.len() == 1 => f,
        _ => return None,
    };
    let e = match t.get(f.expressions[0]) {
        SyntaxNode::VarDecl(e) => e,
        _ => return None,
    };
    match &e.kind {
        VarDeclKind::Singular(n) => Some((d.expr, n, f.trailing_expression?)),
        _ => None,
    }
}
impl<'t> Flat<'t> {
    pub fn of(t: &'t SyntaxTree) -> Vec<Tok> {
        let mut f = Flat { t, out: vec![] };
        match t.get(t.root()) {
            SyntaxNode::Block(b) if handler(t, b).is_none() => f.seq(b),
            _ => f.node(t.root()),
        }
        f.out
    }
    fn k(&mut self, kind: T) {
        self.out.push(Tok { kind, text: String::new(), opt: false, key: false })
    }
    fn opt(&mut self, kind: T) {
        self.out.push(Tok { kind, text: String::new(), opt: true, key: false })
    }
    fn id(&mut self, s: &str) {
        self.out.push(Tok { kind: T::Identifier, text: String::from(s), opt: false, key: false })
    }
    fn seq(&mut self, b: &Block) {
        for e in &b.expressions {
            self.node(*e)
        }
        if let Some(e) = b.trailing_expression {
            self.node(e)
        }
    }
    fn ty(&mut self, t: &TypeAnnotation) {
        self.id(&t.name.identifier);
        if t.is_nullable {
            self.k(T::QuestionMark)
        }
    }
    /// a comma between two items, and maybe one after the last
    fn comma(&mut self, i: usize, n: usize) {
        if i + 1 < n {
            self.k(T::Comma)
        } else {
            self.opt(T::Comma)
        }
    }
    fn params(&mut self, v: &[FnArg]) {
        for (i, a) in v.iter().enumerate() {
            self.id(&a.name);
            if let Some(t) = &a.type_ {
                self.k(T::Colon);
                self.ty(t)
            }
            self.comma(i, v.len())
        }
    }
    fn args(&mut self, v: &[SyntaxNodeId], word: bool) {
        // f\word\ has neither parentheses nor commas
        let opt = word && v.len() == 1 && matches!(self.t.get(v[0]), SyntaxNode::LitString(_));
        if opt {
            self.opt(T::LeftParen)
        } else {
            self.k(T::LeftParen)
        }
        for (i, a) in v.iter().enumerate() {
            self.node(*a);
            self.comma(i, v.len())
        }
        if opt {
            self.opt(T::RightParen)
        } else {
            self.k(T::RightParen)
        }
    }
    fn names(&mut self, v: &[String]) {
        for (i, n) in v.iter().enumerate() {
            self.id(n);
            self.comma(i, v.len())
        }
    }
    fn rest(&mut self, args: &[FnArg], ret: &Option<TypeAnnotation>, body: SyntaxNodeId) {
        self.k(T::LeftParen);
        self.params(args);
        self.k(T::RightParen);
        if let Some(t) = ret {
            self.k(T::Arrow);
            self.ty(t)
        }
        self.node(body)
    }
    fn node(&mut self, id: SyntaxNodeId) {
        let t = self.t;
        match t.get(id) {
            SyntaxNode::LitIdent(x) => self.id(&x.identifier),
            SyntaxNode::LitNull(_) => self.k(T::Null),
            SyntaxNode::LitUnit(_) => {
                self.k(T::LeftParen);
                self.k(T::RightParen)
            }
            SyntaxNode::LitInt(_) => self.k(T::Integer),
            SyntaxNode::LitFloat(_) => self.k(T::Float),
            SyntaxNode::LitString(_) => self.k(T::String),
            SyntaxNode::LitBool(x) => self.k(if x.value { T::True } else { T::False }),
            SyntaxNode::LitList(x) => {
                self.k(T::LeftSquare);
                for (n, i) in x.items.iter().enumerate() {
                    self.node(*i);
                    self.comma(n, x.items.len())
                }
                self.k(T::RightSquare)
            }
            SyntaxNode::LitObject(x) => {
                self.k(T::Object);
                self.k(T::LeftCurly);
                for (i, (n, v)) in x.items.iter().enumerate() {
                    self.id(n);
                    self.out.last_mut().unwrap().key = true;
                    self.k(T::Colon);
                    self.node(*v);
                    self.comma(i, x.items.len())
                }
                self.k(T::RightCurly)
            }
            SyntaxNode::LitAnonymousFn(x) => {
                self.k(T::Pipe);
                self.params(&x.args);
                self.k(T::Pipe);
                self.node(x.body)
            }
            SyntaxNode::FieldAccess(x) => {
                self.node(x.expression);
                self.k(T::Dot);
                self.id(&x.field)
            }
            SyntaxNode::SuperAccess(x) => {
                self.k(T::Super);
                if let Some(c) = &x.super_class {
                    self.k(T::LeftSquare);
                    self.id(c);
                    self.k(T::RightSquare)
                }
                self.k(T::Dot);
                self.id(&x.field)
            }
            SyntaxNode::Index(x) => {
                self.node(x.expression);
                self.k(T::LeftSquare);
                self.node(x.index_expression);
                self.k(T::RightSquare)
            }
            SyntaxNode::Prefix(x) => {
                self.k(match x.operator {
                    UnaryOperator::Negate => T::Minus,
                    UnaryOperator::Not => T::Not,
                });
                self.node(x.expression)
            }
            SyntaxNode::Binary(x) => {
                self.node(x.lhs_expression);
                let o = op_token(&x.operator);
                if o == T::Pipe {
                    self.k(T::Pipe)
                }
                self.k(o);
                self.node(x.rhs_expression)
            }
            SyntaxNode::Is(x) => {
                self.node(x.value);
                self.k(T::Is);
                self.ty(&x.type_)
            }
            SyntaxNode::NullPropagate(x) => {
                self.node(x.expression);
                self.k(T::QuestionMark)
            }
            SyntaxNode::ErrorPropagate(x) => {
                self.node(x.expression);
                self.k(T::ErrorPropagate)
            }
            SyntaxNode::Assignment(x) => {
                self.node(x.lhs_expression);
                self.k(match x.operator {
                    AssignmentOperator::Assignment => T::Assign,
                    AssignmentOperator::MulAssignment => T::MulAssign,
                    AssignmentOperator::DivAssignment => T::DivAssign,
                    AssignmentOperator::AddAssignment => T::AddAssign,
                    AssignmentOperator::SubAssignment => T::SubAssign,
                });
                self.node(x.rhs_expression)
            }
            SyntaxNode::VarDecl(x) => {
                self.k(T::Let);
                match &x.kind {
                    VarDeclKind::Singular(n) => {
                        if x.is_mutable {
                            self.k(T::Mut)
                        }
                        self.id(n)
                    }
                    VarDeclKind::Destructured(v) => {
                        if x.is_mutable {
                            self.k(T::Mut)
                        }
                        self.k(T::LeftCurly);
                        self.names(v);
                        self.k(T::RightCurly)
                    }
                }
                self.k(T::Assign);
                self.node(x.expr)
            }
            SyntaxNode::FnDecl(x) => {
                self.k(T::Function);
                self.id(&x.name.identifier);
                self.rest(&x.args, &x.return_, x.body)
            }
            SyntaxNode::OpDecl(x) => {
                self.k(T::Operator);
                self.k(match x.operator {
                    OverloadedOperator::Multiply => T::Star,
                    OverloadedOperator::Divide => T::Slash,
                    OverloadedOperator::Remainder => T::Remainder,
                    OverloadedOperator::Add => T::Plus,
                    OverloadedOperator::Subtract => T::Minus,
                    OverloadedOperator::GreaterThan => T::Greater,
                    OverloadedOperator::LessThan => T::Less,
                    OverloadedOperator::GreaterThanEquals => T::GreaterEqual,
                    OverloadedOperator::LessThanEquals => T::LessEqual,
                    OverloadedOperator::Equals => T::Equal,
                    OverloadedOperator::NotEquals => T::NotEqual,
                    OverloadedOperator::RangeInclusive => T::RangeInclusive,
                    OverloadedOperator::RangeExclusive => T::RangeExclusive,
                });
                self.rest(&x.args, &x.return_, x.body)
            }
            SyntaxNode::ClassDecl(x) => {
                self.k(T::Class);
                self.id(&x.name.identifier);
                if let Some(b) = x.base {
                    self.k(T::Colon);
                    self.node(b)
                }
                self.k(T::LeftCurly);
                for i in &x.associated_items {
                    self.node(*i)
                }
                self.k(T::RightCurly)
            }
            SyntaxNode::ImportDecl(x) => {
                self.k(T::Import);
                if let Some(m) = &x.module_import {
                    self.k(T::Star);
                    self.k(T::As);
                    self.id(m);
                    self.opt(T::Comma)
                }
                if x.item_imports.is_empty() {
                    self.opt(T::LeftCurly);
                    self.opt(T::RightCurly)
                } else {
                    self.k(T::LeftCurly);
                    self.names(&x.item_imports);
                    self.k(T::RightCurly)
                }
                self.k(T::From);
                self.k(T::String)
            }
            SyntaxNode::ExportDecl(x) => {
                self.k(T::Export);
                self.node(x.export)
            }
            SyntaxNode::IfExpression(x) => {
                self.k(T::If);
                self.node(x.condition);
                self.node(x.primary);
                if let Some(e) = x.secondary {
                    self.k(T::Else);
                    self.node(e)
                }
            }
            SyntaxNode::Loop(x) => {
                self.k(T::Loop);
                self.node(x.body)
            }
            SyntaxNode::WhileLoop(x) => {
                self.k(T::While);
                self.node(x.condition);
                self.node(x.body)
            }
            SyntaxNode::ForLoop(x) => {
                self.k(T::For);
                self.id(&x.variable);
                self.k(T::In);
                self.node(x.source);
                self.node(x.body)
            }
            SyntaxNode::Block(b) => {
                if let Some((target, name, block)) = handler(t, b) {
                    self.node(target);
                    self.k(T::ErrorCoalesce);
                    self.id(name);
                    self.node(block)
                } else {
                    self.k(T::LeftCurly);
                    self.seq(b);
                    self.k(T::RightCurly)
                }
            }
            SyntaxNode::Break(_) => self.k(T::Break),
            SyntaxNode::Continue(_) => self.k(T::Continue),
            SyntaxNode::Return(x) => {
                self.k(T::Return);
                if let Some(e) = x.result {
                    self.node(e)
                }
            }
            SyntaxNode::FnCall(x) => {
                self.node(x.target);
                self.args(&x.args, true)
            }
            SyntaxNode::SuperCall(x) => {
                self.k(T::Super);
                self.args(&x.args, false)
            }
        }
    }
}
fn same_text(a: &[u8], b: &[u8], id: u32) {
    if a.len() != b.len() {
        sym::fail(id)
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    sym::check(ok, id)
}
/// every token of the source is in the tree, in order
pub fn account(s: &Source) {
    let t = match Parser::new(s).parse() {
        Ok(t) => t,
        Err(_) => {
            sym::reach(2);
            return;
        }
    };
    let flat = Flat::of(&t);
    let mut i = 0;
    let mut open = 0;
    for tok in Token::tokenize(s) {
        let tok = match tok {
            Ok(t) => t,
            Err(_) => sym::fail(301),
        };
        let kind = match tok.kind {
            T::LeftParen | T::RightParen => {
                // of a call, a signature or the unit value; or around an expression
                if tok.kind == T::LeftParen {
                    open += 1;
                } else if open == 0 {
                    sym::fail(306)
                } else {
                    open -= 1;
                }
                let mut j = i;
                while j < flat.len() && flat[j].opt && flat[j].kind != tok.kind {
                    j += 1;
                }
                if j < flat.len() && flat[j].kind == tok.kind {
                    i = j + 1;
                }
                continue;
            }
            T::EndOfInput => break,
            T::BackslashArg => T::String,
            k => k,
        };
        while i < flat.len() && flat[i].opt && flat[i].kind != kind {
            i += 1;
        }
        if i == flat.len() {
            sym::fail(302)
        }
        if flat[i].key && kind == T::Integer {
            same_text(flat[i].text.as_bytes(), tok.slice.as_bytes(), 304);
            i += 1;
            continue;
        }
        if flat[i].key && kind == T::String {
            let q = tok.slice.as_bytes();
            if !q.contains(&b'\\') {
                same_text(flat[i].text.as_bytes(), &q[1..q.len() - 1], 304);
            }
            i += 1;
            continue;
        }
        if flat[i].kind != kind {
            sym::fail(303)
        }
        if kind == T::Identifier {
            same_text(flat[i].text.as_bytes(), tok.slice.as_bytes(), 304);
        }
        i += 1;
    }
    while i < flat.len() && flat[i].opt {
        i += 1;
    }
    if i < flat.len() {
        sym::fail(305)
    }
    if open > 0 {
        sym::fail(306)
    }
    sym::reach(1);
    sym::observe(flat.len() as u64);
}
fn ctx(n: usize) {
    crate::explore::ctx(n, SourceKind::Script, account)
}
pub fn c03_ctx1() {
    ctx(1)
}
pub fn c03_ctx2() {
    ctx(2)
}
pub fn c03_ctx3() {
    ctx(3)
}
fn toks(n: usize) {
    let m = Menu::new(TOKENS);
    let mut s = String::new();
    for _ in 0..n {
        m.hole(&mut s);
        s.push(' ');
    }
    show(&s);
    account(&Source::new(s, SourceKind::Script))
}
pub fn c03_toks3() {
    toks(3)
}
pub fn c03_toks4() {
    toks(4)
}
/// a token dropped into any place of a construct
pub fn c03_insert() {
    let m = Menu::new(TOKENS);
    let c = CONTEXTS[sym::choose(CONTEXTS.len())];
    let mut s = String::from(c.0);
    s.push_str(" k ");
    s.push_str(c.1);
    // word boundaries
    let b: Vec<usize> = (0..=s.len()).filter(|i| *i == 0 || *i == s.len() || s.as_bytes()[*i] == b' ').collect();
    let at = b[sym::choose(b.len())];
    let rest = s.split_off(at);
    s.push(' ');
    m.hole(&mut s);
    s.push(' ');
    s.push_str(&rest);
    show(&s);
    account(&Source::new(s, SourceKind::Module))
}

// ------------------------------------------------------------ tree = program
pub struct Cmp<'t> {
    t: &'t SyntaxTree,
    bad: u32,
}
impl<'t> Cmp<'t> {
    fn no(&self) -> ! {
        sym::fail(self.bad)
    }
    fn name(&self, s: &str, c: u8) {
        if c < b'A' {
            if s != crate::sem::spelled(c) {
                sym::fail(self.bad + 1)
            }
            return;
        }
        if s.len() != 1 {
            self.no()
        }
        sym::check(s.as_bytes()[0] == c, self.bad + 1)
    }
    fn ty(&self, t: &TypeAnnotation, x: &Ty) {
        self.name(&t.name.identifier, x.name);
        if t.is_nullable != x.null {
            self.no()
        }
    }
    fn ret(&self, t: &Option<TypeAnnotation>, x: &Option<Ty>) {
        match (t, x) {
            (None, None) => (),
            (Some(t), Some(x)) => self.ty(t, x),
            _ => self.no(),
        }
    }
    fn params(&self, v: &[FnArg], self_: bool, ps: &[sem::Param]) {
        let k = self_ as usize;
        if v.len() != ps.len() + k {
            self.no()
        }
        if self_ && (v[0].name != "self" || v[0].type_.is_some()) {
            self.no()
        }
        for i in 0..ps.len() {
            self.name(&v[i + k].name, ps[i].name);
            self.ret(&v[i + k].type_, &ps[i].ty);
        }
    }
    fn list(&self, v: &[SyntaxNodeId], xs: &[X]) {
        if v.len() != xs.len() {
            self.no()
        }
        for i in 0..v.len() {
            self.x(v[i], &xs[i]);
        }
    }
    pub fn seq(&self, id: SyntaxNodeId, xs: &[X]) {
        let b = match self.t.get(id) {
            SyntaxNode::Block(b) => b,
            _ => self.no(),
        };
        if handler(self.t, b).is_some() {
            self.no()
        }
        let n = b.expressions.len();
        if b.trailing_expression.is_some() != !xs.is_empty() || n + b.trailing_expression.is_some() as usize != xs.len() {
            self.no()
        }
        for i in 0..n {
            self.x(b.expressions[i], &xs[i]);
        }
        if let Some(e) = b.trailing_expression {
            self.x(e, &xs[n]);
        }
    }
    fn item(&self, id: SyntaxNodeId, o: Option<u8>, f: &sem::FnD) {
        match (self.t.get(id), o) {
            (SyntaxNode::FnDecl(d), None) => {
                if f.name == 0 {
                    if d.name.identifier != "new" {
                        self.no()
                    }
                } else {
                    self.name(&d.name.identifier, f.name);
                }
                self.params(&d.args, f.self_, &f.params);
                self.ret(&d.return_, &f.ret);
                self.seq(d.body, &f.body)
            }
            (SyntaxNode::OpDecl(d), Some(o)) => {
                if d.operator.clone() as u8 != overloaded(o) {
                    self.no()
                }
                self.params(&d.args, f.self_, &f.params);
                self.ret(&d.return_, &f.ret);
                self.seq(d.body, &f.body)
            }
            _ => self.no(),
        }
    }
    fn bin(&self, b: &Binary, o: T, l: &X, r: &X) {
        if op_token(&b.operator) != o {
            self.no()
        }
        self.x(b.lhs_expression, l);
        self.x(b.rhs_expression, r);
    }
    pub fn x(&self, id: SyntaxNodeId, x: &X) {
        match (self.t.get(id), x) {
            (SyntaxNode::LitIdent(d), X::Var(c)) => self.name(&d.identifier, *c),
            (SyntaxNode::LitIdent(d), X::Word(w)) if d.identifier == *w => (),
            (SyntaxNode::LitInt(d), X::Int(v)) if d.value == *v => (),
            (SyntaxNode::LitFloat(d), X::Float(v)) if d.value == v.parse::<f64>().unwrap() => (),
            (SyntaxNode::LitString(d), X::Str(v)) if d.value == *v => (),
            (SyntaxNode::LitString(d), X::Str(v)) if d.value == *v => (),
            (SyntaxNode::LitNull(_), X::Null) | (SyntaxNode::LitUnit(_), X::Unit) => (),
            (SyntaxNode::LitBool(d), X::Bool(v)) if d.value == *v => (),
            (SyntaxNode::Prefix(d), X::Un(o, a)) if matches!(d.operator, UnaryOperator::Negate) == (*o == 0) => self.x(d.expression, a),
            (SyntaxNode::Binary(d), X::Bin(o, l, r)) => self.bin(d, OPT[*o as usize].clone(), l, r),
            (SyntaxNode::Binary(d), X::And(l, r)) => self.bin(d, T::LazyAnd, l, r),
            (SyntaxNode::Binary(d), X::Or(l, r)) => self.bin(d, T::Pipe, l, r),
            (SyntaxNode::Binary(d), X::Coal(l, r)) => self.bin(d, T::Coalesce, l, r),
            (SyntaxNode::Binary(d), X::Pipe(l, r)) => self.bin(d, T::Pipeline, l, r),
            (SyntaxNode::Binary(d), X::Range(i, l, r)) => self.bin(d, if *i { T::RangeInclusive } else { T::RangeExclusive }, l, r),
            (SyntaxNode::Is(d), X::Is(a, t, null)) => {
                self.x(d.value, a);
                self.ty(&d.type_, &Ty { name: *t, null: *null })
            }
            (SyntaxNode::FieldAccess(d), X::Field(a, f)) => {
                self.x(d.expression, a);
                self.name(&d.field, *f)
            }
            (SyntaxNode::Index(d), X::Index(a, i)) => {
                self.x(d.expression, a);
                self.x(d.index_expression, i)
            }
            (SyntaxNode::FnCall(d), X::Call(a, v)) => {
                self.x(d.target, a);
                self.list(&d.args, v)
            }
            (SyntaxNode::NullPropagate(d), X::NProp(a)) => self.x(d.expression, a),
            (SyntaxNode::ErrorPropagate(d), X::EProp(a)) => self.x(d.expression, a),
            (SyntaxNode::Assignment(d), X::Set(l, o, r)) => {
                let k = match d.operator {
                    AssignmentOperator::Assignment => None,
                    AssignmentOperator::MulAssignment => Some(sem::MUL),
                    AssignmentOperator::DivAssignment => Some(1),
                    AssignmentOperator::AddAssignment => Some(sem::ADD),
                    AssignmentOperator::SubAssignment => Some(sem::SUB),
                };
                if k != *o {
                    self.no()
                }
                self.x(d.lhs_expression, l);
                self.x(d.rhs_expression, r)
            }
            (SyntaxNode::LitList(d), X::List(v)) => self.list(&d.items, v),
            (SyntaxNode::LitObject(d), X::Obj(v)) => {
                if d.items.len() != v.len() {
                    self.no()
                }
                for i in 0..v.len() {
                    self.name(&d.items[i].0, v[i].0);
                    self.x(d.items[i].1, &v[i].1);
                }
            }
            (SyntaxNode::LitAnonymousFn(d), X::Lam(ps, body)) => {
                self.params(&d.args, false, ps);
                if d.return_.is_some() {
                    self.no()
                }
                self.x(d.body, body)
            }
            (SyntaxNode::Block(d), X::Handler(a, n, v)) => match handler(self.t, d) {
                Some((target, name, block)) => {
                    self.x(target, a);
                    self.name(name, *n);
                    self.seq(block, v)
                }
                None => self.no(),
            },
            (SyntaxNode::Block(_), X::Block(v)) => self.seq(id, v),
            (SyntaxNode::IfExpression(d), X::If(c, v, e)) => {
                self.x(d.condition, c);
                self.seq(d.primary, v);
                match (d.secondary, e) {
                    (None, None) => (),
                    (Some(d), Some(e)) => self.x(d, e),
                    _ => self.no(),
                }
            }
            (SyntaxNode::WhileLoop(d), X::While(c, v)) => {
                self.x(d.condition, c);
                self.seq(d.body, v)
            }
            (SyntaxNode::Loop(d), X::Loop(v)) => self.seq(d.body, v),
            (SyntaxNode::ForLoop(d), X::For(n, s, v)) => {
                self.name(&d.variable, *n);
                self.x(d.source, s);
                self.seq(d.body, v)
            }
            (SyntaxNode::Break(_), X::Break) | (SyntaxNode::Continue(_), X::Continue) => (),
            (SyntaxNode::Return(d), X::Ret(v)) => match (d.result, v) {
                (None, None) => (),
                (Some(d), Some(v)) => self.x(d, v),
                _ => self.no(),
            },
            (SyntaxNode::VarDecl(d), X::Let(m, n, None, v)) => {
                match &d.kind {
                    VarDeclKind::Singular(s) => self.name(s, *n),
                    _ => self.no(),
                }
                if d.is_mutable != *m || d.type_.is_some() {
                    self.no()
                }
                self.x(d.expr, v)
            }
            (SyntaxNode::VarDecl(d), X::LetD(m, ns, v)) => {
                match &d.kind {
                    VarDeclKind::Destructured(s) if s.len() == ns.len() => {
                        for i in 0..s.len() {
                            self.name(&s[i], ns[i]);
                        }
                    }
                    _ => self.no(),
                }
                if d.is_mutable != *m || d.type_.is_some() {
                    self.no()
                }
                self.x(d.expr, v)
            }
            (SyntaxNode::FnDecl(_), X::Fn(f)) => self.item(id, None, f),
            (SyntaxNode::OpDecl(_), X::Op(o, f)) => self.item(id, Some(*o), f),
            (SyntaxNode::ClassDecl(d), X::Class(c)) => {
                self.name(&d.name.identifier, c.name);
                match (d.base, &c.base) {
                    (None, None) => (),
                    (Some(d), Some(b)) => self.x(d, b),
                    _ => self.no(),
                }
                if d.associated_items.len() != c.items.len() {
                    self.no()
                }
                for i in 0..c.items.len() {
                    self.item(d.associated_items[i], c.items[i].0, &c.items[i].1);
                }
            }
            (SyntaxNode::ImportDecl(d), X::Import(m, v)) => {
                match (&d.module_import, m) {
                    (None, None) => (),
                    (Some(d), Some(m)) => self.name(d, *m),
                    _ => self.no(),
                }
                if d.item_imports.len() != v.len() || d.relative_path != "m" {
                    self.no()
                }
                for i in 0..v.len() {
                    self.name(&d.item_imports[i], v[i]);
                }
            }
            (SyntaxNode::ExportDecl(d), X::Export(v)) => self.x(d.export, v),
            (SyntaxNode::SuperCall(d), X::SuperCall(v)) => self.list(&d.args, v),
            (SyntaxNode::SuperAccess(d), X::SuperField(c, f)) => {
                match (&d.super_class, c) {
                    (None, None) => (),
                    (Some(d), Some(c)) => self.name(d, *c),
                    _ => self.no(),
                }
                self.name(&d.field, *f)
            }
            _ => self.no(),
        }
    }
}
const OPT: &[T] = &[T::Star, T::Slash, T::Remainder, T::Plus, T::Minus, T::Greater, T::GreaterEqual, T::Less, T::LessEqual, T::Equal, T::NotEqual, T::RangeExclusive, T::RangeInclusive];
fn overloaded(o: u8) -> u8 {
    (match o {
        0 => OverloadedOperator::Multiply,
        1 => OverloadedOperator::Divide,
        2 => OverloadedOperator::Remainder,
        3 => OverloadedOperator::Add,
        4 => OverloadedOperator::Subtract,
        5 => OverloadedOperator::GreaterThan,
        6 => OverloadedOperator::GreaterThanEquals,
        7 => OverloadedOperator::LessThan,
        8 => OverloadedOperator::LessThanEquals,
        9 => OverloadedOperator::Equals,
        10 => OverloadedOperator::NotEquals,
        11 => OverloadedOperator::RangeExclusive,
        _ => OverloadedOperator::RangeInclusive,
    }) as u8
}
/// the tree of the text is the program it was printed from; failures `bad` (shape),
/// `bad + 1` (name), `bad + 2` (rejected)
pub fn is_program(s: &Source, p: &[X], bad: u32) {
    let t = match Parser::new(s).parse() {
        Ok(t) => t,
        Err(_) => sym::fail(bad + 2),
    };
    let c = Cmp { t: &t, bad };
    c.seq(t.root(), p);
    sym::reach(1);
}

// ------------------------------------------------------------ C04
#[derive(Clone, Copy, PartialEq)]
enum O {
    Bin(u8),
    And,
    Or,
    Coal,
    Pipe,
    Range(bool),
    Is(bool),
    Handler,
}
const INFIX: &[(O, &str, u8)] = &[
    (O::Bin(0), "*", 8),
    (O::Bin(1), "/", 8),
    (O::Bin(2), "%", 8),
    (O::Bin(3), "+", 7),
    (O::Bin(4), "-", 7),
    (O::Bin(5), ">", 6),
    (O::Bin(6), ">=", 6),
    (O::Bin(7), "<", 6),
    (O::Bin(8), "<=", 6),
    (O::Bin(9), "==", 6),
    (O::Bin(10), "!=", 6),
    (O::Is(false), "is T", 6),
    (O::Is(true), "is T?", 6),
    (O::And, "&&", 5),
    (O::Or, "||", 4),
    (O::Range(false), "..", 3),
    (O::Range(true), "..=", 3),
    (O::Coal, "??", 2),
    (O::Handler, "or e { y }", 2),
    (O::Pipe, "|>", 1),
];
fn join(o: O, l: X, r: Option<X>) -> X {
    let l = Box::new(l);
    match (o, r) {
        (O::Is(n), _) => X::Is(l, b'T', n),
        (O::Handler, _) => X::Handler(l, b'e', vec![X::Var(b'y')]),
        (O::Bin(o), Some(r)) => X::Bin(o, l, Box::new(r)),
        (O::And, Some(r)) => X::And(l, Box::new(r)),
        (O::Or, Some(r)) => X::Or(l, Box::new(r)),
        (O::Coal, Some(r)) => X::Coal(l, Box::new(r)),
        (O::Pipe, Some(r)) => X::Pipe(l, Box::new(r)),
        (O::Range(i), Some(r)) => X::Range(i, l, Box::new(r)),
        _ => X::Unit,
    }
}
fn unary(o: O) -> bool {
    matches!(o, O::Is(_) | O::Handler)
}
/// the tree of operands and operators without parentheses: an operator first
/// closes everything before it that binds at least as tightly
fn group(xs: Vec<X>, ops: Vec<usize>) -> X {
    let mut xs = xs.into_iter();
    let mut vals = vec![xs.next().unwrap()];
    let mut open: Vec<usize> = vec![];
    fn close(vals: &mut Vec<X>, open: &mut Vec<usize>, level: u8) {
        while !open.is_empty() && INFIX[*open.last().unwrap()].2 >= level {
            let o = INFIX[open.pop().unwrap()].0;
            let r = vals.pop().unwrap();
            let l = vals.pop().unwrap();
            vals.push(join(o, l, Some(r)));
        }
    }
    for o in ops {
        close(&mut vals, &mut open, INFIX[o].2);
        if unary(INFIX[o].0) {
            let l = vals.pop().unwrap();
            vals.push(join(INFIX[o].0, l, None));
        } else {
            open.push(o);
            vals.push(xs.next().unwrap());
        }
    }
    close(&mut vals, &mut open, 0);
    vals.pop().unwrap()
}
/// an operand: prefixes, a name, and what follows it
fn operand(name: u8, pre: usize, post: usize, out: &mut String) -> X {
    let mut p: Vec<u8> = vec![];
    for _ in 0..pre {
        let o = sym::choose(3);
        if o == 0 {
            break;
        }
        p.push(o as u8 - 1);
    }
    for o in &p {
        out.push_str(["-", "!"][*o as usize]);
        out.push(' ');
    }
    let mut x = X::Var(name);
    out.push(name as char);
    for _ in 0..post {
        let o = sym::choose(7);
        match o {
            0 => break,
            1 => {
                let f = sym::u8();
                sym::assume(f >= b'x' && f <= b'z');
                out.push('.');
                out.push(f as char);
                x = X::Field(Box::new(x), f);
            }
            2 => {
                out.push_str("[i]");
                x = X::Index(Box::new(x), Box::new(X::Var(b'i')));
            }
            3 => {
                out.push_str("(i, j)");
                x = X::Call(Box::new(x), vec![X::Var(b'i'), X::Var(b'j')]);
            }
            4 => {
                out.push_str(" ?");
                x = X::NProp(Box::new(x));
            }
            5 => {
                out.push_str("!!");
                x = X::EProp(Box::new(x));
            }
            _ => {
                out.push_str("\\s\\");
                x = X::Call(Box::new(x), vec![X::Str("s")]);
            }
        }
    }
    for o in p.iter().rev() {
        x = X::Un(*o, Box::new(x));
    }
    x
}
fn any() -> u8 {
    crate::gen::one_of(b"gk")
}
fn chain(n: usize, pre: usize, post: usize) -> (X, String) {
    let mut s = String::new();
    let mut xs = vec![operand(any(), pre, post, &mut s)];
    let mut ops = vec![];
    for i in 0..n {
        let o = sym::choose(INFIX.len());
        s.push(' ');
        s.push_str(INFIX[o].1);
        s.push(' ');
        ops.push(o);
        if !unary(INFIX[o].0) {
            xs.push(operand(any(), pre, post, &mut s));
        }
    }
    (group(xs, ops), s)
}
fn judge(x: X, s: String) {
    show(&s);
    is_program(&Source::new(s, SourceKind::Script), &[x], 401)
}
pub fn c04_infix3() {
    let (x, s) = chain(3, 0, 0);
    judge(x, s)
}
pub fn c04_infix4() {
    let (x, s) = chain(4, 0, 0);
    judge(x, s)
}
pub fn c04_prefix2() {
    let (x, s) = chain(2, 1, 0);
    judge(x, s)
}
pub fn c04_postfix1() {
    let (x, s) = chain(1, 1, 1);
    judge(x, s)
}
pub fn c04_postfix0() {
    let (x, s) = chain(0, 3, 4);
    judge(x, s)
}
/// parentheses around any part of the chain
pub fn c04_parens() {
    let names = [any(), any(), any(), any()];
    let n = 3;
    let a = sym::choose(n);
    let z = a + 1 + sym::choose(n - a);
    // operands a..=z are inside
    let mut s = String::new();
    let (mut xs, mut ops, mut ixs, mut iops) = (vec![], vec![], vec![], vec![]);
    let un = sym::choose(3);
    for i in 0..=n {
        if i > 0 {
            let mut o = sym::choose(10);
            // one or two operators of each level
            o = [0, 3, 4, 5, 9, 13, 14, 15, 17, 19][o];
            if i > a && i <= z {
                iops.push(o);
            } else {
                ops.push(o);
            }
            s.push(' ');
            s.push_str(INFIX[o].1);
            s.push(' ');
        }
        if i == a {
            s.push_str(["", "-", "!"][un]);
            s.push('(');
        }
        s.push(names[i] as char);
        if i >= a && i <= z {
            ixs.push(X::Var(names[i]));
        } else {
            xs.push(X::Var(names[i]));
        }
        if i == z {
            s.push(')');
            let inner = group(ixs.clone(), iops.clone());
            let post = sym::choose(3);
            let mut inner = match post {
                0 => inner,
                1 => {
                    s.push_str(".x");
                    X::Field(Box::new(inner), b'x')
                }
                _ => {
                    s.push_str("(i)");
                    X::Call(Box::new(inner), vec![X::Var(b'i')])
                }
            };
            if un > 0 {
                inner = X::Un(un as u8 - 1, Box::new(inner));
            }
            xs.push(inner);
        }
    }
    judge(group(xs, ops), s)
}
const ASSIGN: &[(&str, Option<u8>)] = &[("=", None), ("*=", Some(0)), ("/=", Some(1)), ("+=", Some(3)), ("-=", Some(4))];
/// assignments, one inside the other, with any operators in the value
pub fn c04_assign() {
    let mut s = String::new();
    let n = 1 + sym::choose(2);
    let mut targets = vec![];
    for i in 0..n {
        let c = [b'm', b'n'][i];
        let (t, x) = match sym::choose(4) {
            0 => ("", X::Var(c)),
            1 => (".x", X::Field(Box::new(X::Var(c)), b'x')),
            2 => ("[i + j]", X::Index(Box::new(X::Var(c)), Box::new(X::Bin(3, Box::new(X::Var(b'i')), Box::new(X::Var(b'j')))))),
            _ => ("(i).y", X::Field(Box::new(X::Call(Box::new(X::Var(c)), vec![X::Var(b'i')])), b'y')),
        };
        s.push(c as char);
        s.push_str(t);
        let o = sym::choose(ASSIGN.len());
        s.push(' ');
        s.push_str(ASSIGN[o].0);
        s.push(' ');
        targets.push((x, ASSIGN[o].1));
    }
    let (mut v, t) = chain(1, 0, 0);
    s.push_str(&t);
    if sym::choose(2) == 1 {
        // a lambda takes everything that follows
        let at = s.len() - t.len();
        s.insert_str(at, "|p| ");
        v = X::Lam(vec![sem::Param { name: b'p', ty: None }], Box::new(v));
    }
    for (x, o) in targets.into_iter().rev() {
        v = X::Set(Box::new(x), o, Box::new(v));
    }
    judge(v, s)
}
/// constructs that contain expressions end them in the right place
pub fn c04_inside() {
    let (x, e) = chain(2, 0, 0);
    let v = |c: u8| X::Var(c);
    let (s, x) = match sym::choose(10) {
        0 => (format!("if {} {{ q }} else {{ w }}", e), X::If(Box::new(x), vec![v(b'q')], Some(Box::new(X::Block(vec![v(b'w')]))))),
        1 => (format!("while {} {{ q }}", e), X::While(Box::new(x), vec![v(b'q')])),
        2 => (format!("for q in {} {{ w }}", e), X::For(b'q', Box::new(x), vec![v(b'w')])),
        3 => (format!("h({}, q)", e), X::Call(Box::new(v(b'h')), vec![x, v(b'q')])),
        4 => (format!("[{}, q]", e), X::List(vec![x, v(b'q')])),
        5 => (format!("#{{ q: {}, w: {} }}", e, e), X::Obj(vec![(b'q', x.clone()), (b'w', x)])),
        6 => (format!("q[{}]", e), X::Index(Box::new(v(b'q')), Box::new(x))),
        7 => (format!("let q = {} let w = q", e), X::Block(vec![X::Let(false, b'q', None, Box::new(x)), X::Let(false, b'w', None, Box::new(v(b'q')))])),
        8 => (format!("|q| {}", e), X::Lam(vec![sem::Param { name: b'q', ty: None }], Box::new(x))),
        _ => (format!("{{ {} }}", e), X::Block(vec![x])),
    };
    show(&s);
    let p = match x {
        X::Block(p) if p.len() == 2 => p,
        x => vec![x],
    };
    is_program(&Source::new(s, SourceKind::Script), &p, 401)
}
