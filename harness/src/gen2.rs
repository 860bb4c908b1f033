//! More families of programs: leaving from among pending operands, every kind
//! of declaration, captures of everything.
use crate::gen::P::*;
use crate::gen::*;
use crate::sem::*;
use crate::sym;

pub fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}
pub fn v(n: u8) -> X {
    X::Var(n)
}
pub fn bv(n: u8) -> Box<X> {
    Box::new(X::Var(n))
}
pub fn function(name: u8, params: &[u8], body: Vec<X>) -> X {
    X::Fn(b(FnD { name, self_: false, params: params.iter().map(|n| Param { name: *n, ty: None }).collect(), ret: None, body }))
}
pub fn lambda(params: &[u8], body: Vec<X>) -> X {
    X::Lam(params.iter().map(|n| Param { name: *n, ty: None }).collect(), b(X::Block(body)))
}
pub fn method(name: u8, self_: bool, params: &[u8], body: Vec<X>) -> (Option<u8>, FnD) {
    (None, FnD { name, self_, params: params.iter().map(|n| Param { name: *n, ty: None }).collect(), ret: None, body })
}
pub fn class(name: u8, base: Option<u8>, items: Vec<(Option<u8>, FnD)>) -> X {
    X::Class(b(ClassD { name, base: base.map(v), items }))
}
pub fn call(f: u8, a: Vec<X>) -> X {
    X::Call(bv(f), a)
}

// ---------------------------------------------------------------- leaving from among operands
/// `hole` at position `at` of three
fn three(hole: X, at: usize) -> Vec<X> {
    let mut a = vec![v(b'a'), v(b'b'), v(b'c')];
    a[at] = hole;
    a
}
fn two(hole: X, at: usize) -> (Box<X>, Box<X>) {
    if at == 0 {
        (b(hole), bv(b'b'))
    } else {
        (bv(b'a'), b(hole))
    }
}
const WIDE: usize = 26;
/// a construct with several operands, one of which is `hole`
fn wide(kind: usize, hole: X) -> X {
    let pos = |n| sym::choose(n);
    match kind {
        0 => X::Call(bv(b'd'), three(hole, pos(3))),
        1 => X::SuperCall(three(hole, pos(3))),
        2 => X::List(three(hole, pos(3))),
        3 => {
            let t = three(hole, pos(3));
            X::Obj(t.into_iter().enumerate().map(|(i, x)| (b"xyx"[i], x)).collect())
        }
        4 => {
            let mut t = three(hole, 1 + pos(2));
            let c = t.pop().unwrap();
            let i = t.pop().unwrap();
            X::Set(b(X::Index(bv(b'a'), b(i))), if sym::choose(2) == 1 { Some(ADD) } else { None }, b(c))
        }
        5 => X::Set(b(X::Field(bv(b'a'), b'x')), if sym::choose(2) == 1 { Some(ADD) } else { None }, b(hole)),
        6 => {
            let (l, r) = two(hole, pos(2));
            X::Bin(ADD, l, r)
        }
        7 => {
            let (l, r) = two(hole, pos(2));
            X::Pipe(l, r)
        }
        8 => {
            let (l, r) = two(hole, pos(2));
            X::And(l, r)
        }
        9 => {
            let (l, r) = two(hole, pos(2));
            X::Or(l, r)
        }
        10 => {
            let (l, r) = two(hole, pos(2));
            X::Coal(l, r)
        }
        11 => {
            let (l, r) = two(hole, pos(2));
            X::Range(false, l, r)
        }
        12 => {
            let (l, r) = two(hole, pos(2));
            X::Index(l, r)
        }
        13 => X::Call(b(X::Field(bv(b'a'), b'x')), vec![v(b'b'), hole]),
        14 => X::If(b(hole), vec![v(b'a')], Some(b(X::Block(vec![v(b'b')])))),
        15 => X::If(bv(b'a'), vec![hole], Some(b(X::Block(vec![v(b'b')])))),
        16 => X::If(bv(b'a'), vec![v(b'b')], Some(b(X::Block(vec![hole])))),
        17 => X::Handler(b(hole), b'e', vec![v(b'e')]),
        18 => X::Handler(bv(b'a'), b'e', vec![hole]),
        19 => X::Block(vec![X::Let(true, b'l', None, bv(b'a')), X::Set(bv(b'l'), None, b(hole)), v(b'l')]),
        20 => X::Block(vec![X::Let(false, b'l', None, b(hole)), v(b'l')]),
        21 => X::Block(vec![X::While(b(hole), vec![v(b'a')]), v(b'b')]),
        22 => X::Block(vec![X::For(b'i', b(hole), vec![v(b'i')]), v(b'b')]),
        23 => {
            let (l, r) = two(hole, pos(2));
            X::Block(vec![X::For(b'i', b(X::Range(false, l, r)), vec![v(b'i')]), v(b'b')])
        }
        24 => X::Call(b(X::NProp(b(X::Field(bv(b'a'), b'x')))), vec![v(b'b'), hole]),
        _ => X::Call(b(X::SuperField(None, b'm')), vec![v(b'b'), hole]),
    }
}
fn leaver(in_loop: bool, in_fn: bool) -> X {
    // what leaves, under a condition or not
    let mut w: Vec<X> = vec![];
    if in_loop {
        w.push(X::Break);
        w.push(X::Continue);
    }
    if in_fn {
        w.push(X::Ret(None));
        w.push(X::EProp(bv(b'j')));
    }
    w.push(X::Field(b(X::NProp(bv(b'j'))), b'x'));
    let i = sym::choose(w.len());
    let x = w.swap_remove(i);
    match x {
        X::Break | X::Continue | X::Ret(_) => {
            let cond = if sym::choose(2) == 1 { X::If(bv(b'h'), vec![x], Some(b(X::Block(vec![v(b'j')])))) } else { X::Block(vec![x]) };
            cond
        }
        x => x,
    }
}
/// the place where it happens
fn inside(place: usize, mut body: Vec<X>) -> Vec<X> {
    match place {
        0 => body,
        1 => vec![function(b'f', &[b'p', b'a'], body), call(b'f', vec![v(b'x'), v(b'y')])],
        2 => vec![class(b'k', Some(b'g'), vec![method(b'n', true, &[b'p'], body)])],
        3 => {
            body.insert(0, X::SuperCall(vec![]));
            vec![class(b'k', Some(b'g'), vec![method(0, true, &[b'p'], body)])]
        }
        _ => vec![call(b'u', vec![lambda(&[b'p', b'a'], body)])],
    }
}
fn looped(kind: usize, body: Vec<X>) -> X {
    match kind {
        0 => X::While(bv(b'q'), body),
        1 => X::Loop(body),
        2 => X::For(b'v', bv(b'q'), body),
        _ => X::For(b'v', b(X::Range(true, bv(b'q'), bv(b'z'))), body),
    }
}
/// from any operand of any construct, in any loop, anywhere
fn leave(depth: usize) {
    let place = sym::choose(if depth == 1 { 5 } else { 3 }) + if depth == 1 { 0 } else { 1 };
    let kind = sym::choose(if depth == 1 { 5 } else { 2 });
    let kind = if depth == 1 { kind } else { [4, 0][kind] };
    let mut x = leaver(kind < 4, place != 0);
    for _ in 0..depth {
        let mut w = sym::choose(if depth == 1 { WIDE } else { NARROW.len() });
        if depth > 1 {
            w = NARROW[w];
        }
        if (w == 1 || w == 25) && place != 2 && place != 3 {
            sym::assume(false);
        }
        x = wide(w, x);
    }
    let mut body = vec![x];
    if kind < 4 {
        if depth == 1 && sym::choose(2) == 1 {
            body.insert(0, X::Let(false, b'w', None, bv(b'a')));
        }
        body = vec![looped(kind, body)];
    }
    check(&inside(place, body), false, false, if depth == 1 { 212 } else { 110 })
}
const NARROW: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 15, 17, 18, 20, 22, 24, 25];
pub fn c10_leave1() {
    leave(1)
}
pub fn c10_leave2() {
    leave(2)
}

// ---------------------------------------------------------------- logical operators
/// `&&` and `||` over every operator and each other
pub fn c09_logic() {
    let mut g = G { ex: &[And, Or, Bin, Not, Is, Neg, Coal], ops: &[0, 5, 6, 7, 8, 9, 10], names: b"k", ..G::new(3) };
    let x = g.expr();
    check(&[x], false, false, 16)
}
/// conditions of every kind
pub fn c09_cond() {
    let mut g = G { ex: &[And, Or, Bin, Not, Is, Coal, Bool, SetVar, EProp, IfElse], ops: &[0, 7], names: b"k", in_fn: true, ..G::new(2) };
    let c = b(g.expr());
    let x = match sym::choose(3) {
        0 => X::If(c, vec![v(b'a')], None),
        1 => X::If(c, vec![v(b'a')], Some(b(X::Block(vec![v(b'b')])))),
        _ => X::While(c, vec![v(b'a')]),
    };
    let body = vec![X::Let(true, b'k', None, bv(b'g')), x];
    check(&[function(b'f', &[], body), call(b'f', vec![])], false, false, 114)
}

// ---------------------------------------------------------------- every kind of declaration
pub const DECLS: usize = 24;
/// `n` declared in the way `kind`, with `rest` in its scope
fn declare(kind: usize, n: u8, mut rest: Vec<X>) -> Vec<X> {
    let mut pre: Vec<X> = match kind {
        0 => vec![X::Let(false, n, None, bv(b'u'))],
        1 => vec![X::Let(true, n, None, bv(b'u'))],
        2 => vec![function(n, &[], vec![v(b'u')])],
        3 => {
            rest.push(function(n, &[], vec![v(b'u')]));
            vec![]
        }
        4 => vec![class(n, None, vec![])],
        5 => vec![X::LetD(false, vec![n, b'y'], bv(b'u'))],
        6 => vec![X::LetD(true, vec![b'y', n], bv(b'u'))],
        7 => return vec![X::For(n, bv(b'q'), rest)],
        8 => return vec![X::For(n, b(X::Range(false, bv(b'q'), bv(b'z'))), rest)],
        9 => return vec![function(b'w', &[n], rest), call(b'w', vec![v(b'u')])],
        10 => return vec![call(b'h', vec![lambda(&[b'p', n], rest)])],
        11 => return vec![X::Handler(bv(b'q'), n, rest)],
        12 => return vec![class(b'd', None, vec![method(b'm', true, &[n], rest)])],
        13 => return vec![class(b'd', None, vec![method(0, true, &[n], rest)])],
        14 => return vec![class(b'd', None, vec![(Some(ADD), FnD { name: 0, self_: true, params: vec![Param { name: n, ty: None }], ret: None, body: rest })])],
        15 => return vec![class(b'd', None, vec![method(b'm', false, &[n], rest)])],
        16 => {
            rest.push(class(n, None, vec![]));
            vec![]
        }
        17 => vec![], // not declared
        18 => vec![X::Import(Some(n), vec![])],
        19 => vec![X::Import(None, vec![n])],
        20 => vec![X::Import(Some(b'y'), vec![b'x', n])],
        21 => vec![X::Export(b(X::Let(false, n, None, bv(b'u'))))],
        22 => vec![X::Export(b(function(n, &[], vec![v(b'u')])))],
        _ => vec![X::Export(b(X::Let(true, n, None, bv(b'u'))))],
    };
    pre.extend(rest);
    pre
}
const USES: usize = 10;
fn use_of(kind: usize, n: u8) -> Vec<X> {
    vec![match kind {
        0 => v(n),
        1 => X::Set(bv(n), None, b(X::Int(7))),
        2 => X::Set(bv(n), Some(ADD), b(X::Int(7))),
        3 => call(n, vec![]),
        4 => X::Set(b(X::Field(bv(n), b'x')), None, bv(n)),
        5 => class(b's', Some(n), vec![]),
        6 => X::Is(bv(b'u'), n, false),
        7 => X::Fn(b(FnD { name: b's', self_: false, params: vec![Param { name: b't', ty: Some(Ty { name: n, null: true }) }], ret: Some(Ty { name: n, null: false }), body: vec![v(b't')] })),
        8 => X::Let(true, n, None, bv(n)),
        _ => function(n, &[], vec![v(n)]),
    }]
}
/// `x` that many functions deep
fn deep(kind: usize, x: Vec<X>) -> Vec<X> {
    match kind {
        0 => x,
        1 => vec![function(b'r', &[], x), call(b'r', vec![])],
        2 => vec![call(b'h', vec![lambda(&[], vec![call(b'h', vec![lambda(&[b't'], x)])])])],
        3 => vec![X::Block(vec![class(b'o', None, vec![method(b'm', true, &[], x)])])],
        4 => vec![X::While(bv(b'q'), vec![X::Block(x)])],
        _ => vec![function(b'r', &[b't'], vec![X::If(bv(b't'), vec![call(b'h', vec![lambda(&[], vec![function(b'o', &[], x), call(b'o', vec![])])])], None)]), call(b'r', vec![v(b'u')])],
    }
}
/// every kind of declaration, every kind of use, at any depth
pub fn c11_kinds() {
    let k = sym::choose(DECLS);
    let d = sym::choose(6);
    let u = sym::choose(USES);
    let mut rest = deep(d, use_of(u, b'k'));
    if sym::choose(2) == 1 {
        rest.push(v(b'k'));
    }
    let p = declare(k, b'k', rest);
    check(&p, k >= 18 || sym::choose(2) == 1, false, 112)
}
/// a name that is used after its scope, or before its declaration
pub fn c11_after() {
    let k = sym::choose(DECLS - 6);
    let d = sym::choose(3);
    let u = use_of(sym::choose(8), b'k');
    let mut p = declare(k, b'k', vec![v(b'k')]);
    match sym::choose(3) {
        0 => {
            p = vec![X::Block(p)];
            p.extend(deep(d, u));
        }
        1 => {
            let mut q = deep(d, u);
            q.extend(p);
            p = q;
        }
        _ => {
            p = vec![X::If(bv(b'q'), p, Some(b(X::Block(deep(d, u)))))];
        }
    }
    check(&p, false, false, 112)
}
/// one kind of declaration inside the scope of another of the same name
pub fn c11_twice() {
    let k = sym::choose(18);
    let l = sym::choose(18);
    let u = use_of(sym::choose(2), b'k');
    let inner = declare(l, b'k', u);
    let d = sym::choose(3);
    let inner = match d {
        0 => inner,
        1 => vec![X::Block(inner)],
        _ => deep(1, inner),
    };
    let mut rest = inner;
    rest.push(v(b'k'));
    let p = declare(k, b'k', rest);
    check(&p, false, false, 112)
}

// ---------------------------------------------------------------- captures of everything
fn escape(body: Vec<X>) -> X {
    call(b'h', vec![lambda(&[], body)])
}
/// closures over every kind of declaration, in a loop body, block, function or method
pub fn c12_kinds() {
    let k = sym::choose(18);
    let set = matches!(k, 1 | 6) && sym::choose(2) == 1;
    let mut rest = match sym::choose(3) {
        0 => vec![escape(vec![v(b'k')])],
        1 => vec![escape(vec![escape(vec![v(b'k')])])],
        _ => vec![escape(vec![v(b'k')]), escape(vec![v(b'k'), v(b'm')])],
    };
    if set {
        rest.push(X::Set(bv(b'k'), Some(ADD), b(X::Int(7))));
    }
    if sym::choose(2) == 1 {
        rest.push(v(b'k'));
    }
    let mut p = declare(k, b'k', rest);
    p.insert(0, X::Let(true, b'm', None, bv(b'u')));
    let q = match sym::choose(6) {
        0 => p,
        1 => vec![X::Block(p), X::Let(false, b'x', None, bv(b'z')), v(b'x')],
        2 => vec![X::While(bv(b'q'), p)],
        3 => vec![X::For(b'i', bv(b'q'), p)],
        4 => vec![function(b'f', &[b'a'], p), call(b'f', vec![v(b'x')]), call(b'f', vec![v(b'x')])],
        _ => vec![X::If(bv(b'q'), p, None), X::Block(vec![X::Let(true, b's', None, bv(b'z')), v(b's')])],
    };
    check(&q, false, false, 214)
}
/// functions within functions that use variables of all of them
pub fn c12_numbers() {
    let names = b"abcde";
    // the innermost function names three variables out of all that are in scope
    let body = (0..3).map(|_| v(names[sym::choose(5)])).collect::<Vec<_>>();
    let mut inner = vec![];
    if sym::choose(2) == 1 {
        inner.push(X::Set(bv(b'b'), None, b(X::Int(7))));
    }
    inner.push(escape(body));
    if sym::choose(2) == 1 {
        inner.push(v(b'a'));
    }
    let middle = match sym::choose(3) {
        0 => vec![call(b'h', vec![lambda(&[b'c'], inner)])],
        1 => vec![X::Let(true, b'c', None, bv(b'u')), X::Let(true, b'd', None, bv(b'u')), call(b'h', vec![lambda(&[b'e'], inner)])],
        _ => vec![function(b'f', &[b'c', b'd'], inner), call(b'f', vec![v(b'x'), v(b'y')])],
    };
    let mut p = vec![X::Let(true, b'a', None, bv(b'x')), X::Let(true, b'b', None, bv(b'y'))];
    p.extend(middle);
    p.push(X::Set(bv(b'a'), None, bv(b'z')));
    check(&p, false, false, 220)
}

// ---------------------------------------------------------------- propagation
/// marks inside the arguments of a call to the base
pub fn c13_super() {
    let mut g = G { ex: &[NProp, EProp, Field, Call1, Coal], names: b"p", in_fn: true, ..G::new(2) };
    let x = g.expr();
    let mut args = vec![x];
    match sym::choose(3) {
        0 => (),
        1 => args.push(v(b'a')),
        _ => args.insert(0, v(b'a')),
    }
    let s = X::SuperCall(args);
    let s = match sym::choose(4) {
        0 => s,
        1 => X::Field(b(X::NProp(b(X::Field(b(s), b'x')))), b'y'),
        2 => X::Call(b(X::NProp(bv(b'p'))), vec![s]),
        _ => X::Field(b(X::NProp(b(X::Call(b(X::SuperField(None, b'm')), vec![s])))), b'x'),
    };
    let mut body = vec![s, v(b'p')];
    let ctor = sym::choose(2) == 1;
    if ctor {
        body.insert(0, X::SuperCall(vec![]));
    }
    let item = method(if ctor { 0 } else { b'n' }, true, &[b'p'], body);
    check(&[class(b'c', Some(b'g'), vec![item])], false, false, 216)
}

// ---------------------------------------------------------------- many of a kind
const MANY: usize = 7;
fn names(n: usize) -> Vec<u8> {
    (0..n).map(|i| b"abcdefg"[i]).collect()
}
/// the index of one that is written otherwise, and how
fn odd(n: usize) -> usize {
    sym::choose(n + 1)
}
fn items(n: usize) -> Vec<X> {
    let o = odd(n);
    (0..n).map(|i| if i == o { X::Call(b(X::Field(bv(b'o'), b'x')), vec![v(b"abcdefg"[i])]) } else { v(b"abcdefg"[i]) }).collect()
}
fn many_expr() -> Vec<X> {
    let n = sym::choose(MANY);
    vec![match sym::choose(7) {
        0 => X::List(items(n)),
        1 => call(b'h', items(n)),
        2 => X::Obj(items(n).into_iter().enumerate().map(|(i, x)| (b"abcabca"[i], x)).collect()),
        3 => {
            let v = items(n);
            class(b'k', Some(b'g'), vec![method(0, true, &[], vec![X::SuperCall(v)])])
        }
        4 => X::Block(items(n + 1)),
        5 => {
            let mut x = X::Block(vec![v(b'z')]);
            for y in items(n) {
                x = X::If(b(y), vec![v(b'y')], Some(b(x)));
            }
            x
        }
        _ => {
            let mut x = v(b'h');
            let mut mark = sym::choose(n + 1);
            for (i, y) in items(n).into_iter().enumerate() {
                x = match i % 3 {
                    0 => X::Field(b(x), b"abcdefg"[i]),
                    1 => X::Index(b(x), b(y)),
                    _ => X::Call(b(x), vec![y]),
                };
                if mark == 1 {
                    x = X::NProp(b(x));
                }
                mark = mark.wrapping_sub(1);
            }
            x
        }
    }]
}
/// constructs of up to seven parts
pub fn c09_many() {
    check(&many_expr(), false, false, 26)
}
fn many_fn() -> Vec<X> {
    let n = sym::choose(5);
    let o = odd(n);
    let params: Vec<Param> = (0..n)
        .map(|i| {
            let ty = if i == o { Some(Ty { name: b"STUV"[i], null: sym::choose(2) == 1 }) } else if sym::choose(2) == 1 { Some(Ty { name: b'T', null: false }) } else { None };
            Param { name: if i == o && sym::choose(2) == 1 { b'a' } else { b"abcd"[i] }, ty }
        })
        .collect();
    let body = vec![X::List((0..n).map(|i| v(b"dcba"[4 - n + i])).collect())];
    let ret = if sym::choose(2) == 1 { Some(Ty { name: b'R', null: sym::choose(2) == 1 }) } else { None };
    match sym::choose(4) {
        0 => vec![X::Fn(b(FnD { name: b'f', self_: false, params, ret, body })), call(b'f', (0..n).map(|i| v(b"wxyz"[i])).collect())],
        1 => vec![call(b'h', vec![X::Lam(params, b(X::Block(body)))])],
        2 => vec![class(b'k', None, vec![(None, FnD { name: b'n', self_: true, params, ret, body })]), v(b'k')],
        _ => vec![class(b'k', Some(b'g'), vec![(None, FnD { name: 0, self_: true, params, ret: None, body: vec![X::SuperCall(vec![v(b'b'), v(b'a')]), body.into_iter().next().unwrap()] })])],
    }
}
/// functions of up to four parameters, any of them with types
pub fn c20_many() {
    check(&many_fn(), false, false, 30)
}
fn many_members() -> Vec<X> {
    let n = sym::choose(6);
    let o = odd(n);
    let shift = sym::choose(5);
    let items = (0..n)
        .map(|i| {
            let name = if i == o { b'a' } else { b"abcdef"[i] };
            match (i + shift) % 5 {
                0 => method(name, true, &[b'p'], vec![v(b'p')]),
                1 => method(name, false, &[b'p'], vec![v(b'p')]),
                2 => (Some(((i * 3 + shift) % 13) as u8), FnD { name: 0, self_: true, params: vec![Param { name: b'p', ty: None }], ret: None, body: vec![v(b'p')] }),
                3 if i < 4 => method(0, true, &[b'p'], vec![X::Set(b(X::Field(b(X::Word("self")), name)), None, bv(b'p'))]),
                _ => method(name, true, &[], vec![X::Call(b(X::Field(b(X::Word("self")), name)), vec![])]),
            }
        })
        .collect();
    let c = class(b'k', if sym::choose(2) == 1 { Some(b'a') } else { None }, items);
    match sym::choose(3) {
        0 => vec![c, v(b'k')],
        1 => vec![X::Block(vec![X::Let(true, b'z', None, bv(b'x')), c, call(b'k', vec![v(b'z')])])],
        _ => vec![function(b'f', &[], vec![c, v(b'k')]), call(b'f', vec![])],
    }
}
/// classes of up to five members
pub fn c18_many() {
    check(&many_members(), false, false, 30)
}
fn many_module() -> Vec<X> {
    let n = sym::choose(6);
    let ns = names(n);
    let o = odd(n);
    match sym::choose(5) {
        0 => {
            let mut p = vec![X::Import(if sym::choose(2) == 1 { Some(b'm') } else { None }, ns.clone())];
            p.extend(ns.iter().map(|n| v(*n)));
            p
        }
        1 => {
            let mut p = vec![];
            for (i, n) in ns.iter().enumerate() {
                let x = match (i + o) % 4 {
                    0 => X::Let(false, *n, None, bv(b'u')),
                    1 => function(*n, &[], vec![v(ns[0])]),
                    2 => class(*n, None, vec![]),
                    _ => X::Let(true, *n, None, bv(ns[0])),
                };
                p.push(if i == o { x } else { X::Export(b(x)) });
            }
            p.extend(ns.iter().map(|n| v(*n)));
            p
        }
        2 => {
            let mut p = vec![];
            for n in &ns {
                p.push(X::Import(if *n == b'b' { Some(*n) } else { None }, if *n == b'b' { vec![] } else { vec![*n] }));
            }
            p.extend(ns.iter().rev().map(|n| v(*n)));
            p
        }
        3 => {
            // variables published once they exist
            let mut p: Vec<X> = ns.iter().map(|n| X::Let(*n == b'a', *n, None, bv(b'u'))).collect();
            p.extend(ns.iter().rev().map(|n| X::Export(bv(*n))));
            if n > 0 {
                p.push(X::Set(bv(b'a'), None, bv(b'x')));
                p.push(v(ns[if o < n { o } else { 0 }]));
            }
            p
        }
        _ => {
            if n == 0 {
                return vec![];
            }
            let mut p = vec![X::Export(b(X::LetD(sym::choose(2) == 1, ns.clone(), bv(b'u'))))];
            p.extend(ns.iter().map(|n| v(*n)));
            p
        }
    }
}
/// modules of up to five imports, exports and variables
pub fn c19_many() {
    check(&many_module(), true, false, 30)
}
fn many_vars() -> Vec<X> {
    let n = 1 + sym::choose(6);
    let ns = names(n);
    let o = ns[sym::choose(n)];
    let w = ns[sym::choose(n)];
    // variables of which some are captured, written, left
    let mut body: Vec<X> = ns.iter().map(|n| X::Let(true, *n, None, bv(b'u'))).collect();
    match sym::choose(4) {
        0 => body.push(escape(ns.iter().rev().map(|n| v(*n)).collect())),
        1 => body.push(escape(vec![v(o)])),
        2 => body.extend(ns.iter().map(|n| escape(vec![v(*n)]))),
        _ => body.push(escape(vec![v(o), escape(vec![v(w), v(o)])])),
    }
    body.push(X::Set(bv(w), None, b(X::Int(7))));
    let leave = sym::choose(4);
    match leave {
        1 => body.push(X::If(bv(b'q'), vec![X::Break], None)),
        2 => body.push(X::If(bv(b'q'), vec![X::Continue], None)),
        3 => body.push(X::If(bv(b'q'), vec![X::Ret(Some(bv(w)))], None)),
        _ => (),
    }
    body.push(v(o));
    match sym::choose(3) {
        0 if leave == 0 => vec![X::Let(true, b'k', None, bv(b'x')), X::Block(body), X::Let(false, b'z', None, bv(b'y')), v(b'k')],
        1 if leave == 0 || leave == 3 => vec![function(b'f', &[b'p'], body), call(b'f', vec![v(b'x')])],
        _ => vec![function(b'f', &[b'p'], vec![X::While(bv(b'p'), body), v(b'p')]), call(b'f', vec![v(b'x')])],
    }
}
/// up to six variables of one scope, captured together or apart
pub fn c12_many() {
    check(&many_vars(), false, false, 120)
}
fn many_names() -> Vec<X> {
    // names that are alike
    const ALIKE: &[u8] = b"kK123456789";
    let x = one_of(ALIKE);
    let y = one_of(ALIKE);
    let z = one_of(ALIKE);
    match sym::choose(6) {
        0 => vec![X::Let(true, x, None, bv(b'u')), X::Let(false, y, None, bv(b'w')), X::Set(bv(x), None, bv(z)), v(z)],
        1 => vec![function(x, &[], vec![v(b'u')]), function(y, &[], vec![v(b'w')]), call(z, vec![])],
        2 => vec![class(x, None, vec![method(b'm', true, &[y], vec![v(z)])]), class(y, Some(z), vec![])],
        3 => vec![function(b'f', &[x, y], vec![v(z)]), call(b'f', vec![v(b'u'), v(b'w')])],
        4 => vec![X::Let(true, x, None, bv(b'u')), escape(vec![X::Let(false, y, None, bv(b'w')), X::Set(bv(x), Some(ADD), bv(z))]), v(z)],
        _ => vec![X::Set(b(X::Field(bv(x), y)), None, b(X::Obj(vec![(y, v(z)), (z, v(y))]))), X::Field(bv(y), z)],
    }
}
/// three names out of eleven that are alike
pub fn c11_alike() {
    check(&many_names(), false, false, 20)
}
/// constructs of many parts, of any kind
pub fn many() {
    many_of(6)
}
pub fn many_apart() {
    many_of(5)
}
fn many_of(n: usize) {
    let k = sym::choose(n);
    let p = match k {
        0 => many_expr(),
        1 => many_fn(),
        2 => many_members(),
        3 => many_module(),
        4 => many_vars(),
        _ => many_names(),
    };
    check(&p, k == 3, false, 30)
}

// ---------------------------------------------------------------- what classes capture, what types mean
/// the base that members use through super belongs to the class it was declared with
pub fn c12_super() {
    let use_ = |n: usize| match n {
        0 => X::SuperField(None, b'x'),
        1 => X::Call(b(X::SuperField(None, b'm')), vec![v(b'k')]),
        _ => escape(vec![X::SuperField(None, b'x'), v(b'k')]),
    };
    let mut items = vec![];
    for i in 0..1 + sym::choose(2) {
        items.push(match sym::choose(4) {
            0 => method([b'm', b'n'][i], true, &[], vec![use_(sym::choose(3))]),
            1 => method(0, true, &[b'a'], vec![X::SuperCall(vec![v(b'a')]), v(b'k')]),
            2 => (Some(ADD), FnD { name: 0, self_: true, params: vec![Param { name: b'a', ty: None }], ret: None, body: vec![use_(sym::choose(2)), v(b'a')] }),
            _ => method([b'm', b'n'][i], false, &[], vec![v(b'k')]),
        });
    }
    let base = if sym::choose(4) == 0 { None } else { Some(b'd') };
    let mut p = vec![X::Let(false, b'k', None, bv(b'u'))];
    if sym::choose(2) == 1 {
        p.remove(0);
    }
    p.push(class(b'c', base, items));
    match sym::choose(3) {
        0 => (),
        1 => p.push(v(b'c')),
        _ => p.push(X::Let(false, b'y', None, bv(b'w'))),
    }
    let q = match sym::choose(5) {
        0 => p,
        1 => vec![X::Block(p), X::Let(false, b's', None, bv(b'z')), X::Let(false, b't', None, bv(b'z')), X::Let(false, b'x', None, bv(b'z')), v(b'x')],
        2 => vec![X::While(bv(b'q'), p)],
        3 => vec![X::For(b'i', bv(b'q'), p)],
        _ => vec![function(b'f', &[b'a'], p), call(b'f', vec![v(b'x')]), call(b'f', vec![v(b'x')])],
    };
    check(&q, false, false, 216)
}
/// the names of types are names like any other, in all signatures
pub fn c11_types() {
    let ty = |names: &[u8]| match sym::choose(2 * names.len() + 1) {
        0 => None,
        n => Some(Ty { name: names[(n - 1) / 2], null: n % 2 == 0 }),
    };
    let place = sym::choose(6);
    let small = place > 3;
    let names: &[u8] = if small { b"TV" } else { b"TUV" };
    let mut params = vec![];
    for i in 0..2 {
        params.push(Param { name: if sym::choose(2) == 1 { [b'T', b'U'][i] } else { [b'a', b'b'][i] }, ty: ty(names) });
    }
    let ret = if place == 1 { None } else { ty(b"V") };
    let body = vec![v(b'T'), v(b'U')];
    let f = |self_| FnD { name: b'f', self_, params: params.clone(), ret, body: body.clone() };
    let x = match place {
        0 => X::Fn(b(f(false))),
        1 => X::Lam(params.clone(), b(X::Block(body.clone()))),
        2 => class(b'c', None, vec![(None, f(true))]),
        3 => class(b'c', None, vec![(None, f(false))]),
        4 => class(b'c', None, vec![(Some(ADD), f(true))]),
        _ => class(b'c', None, vec![(None, FnD { name: 0, self_: true, params: params.clone(), ret: None, body: body.clone() })]),
    };
    let mut p = vec![];
    match sym::choose(4) {
        0 => (),
        1 => p.push(X::Let(false, b'T', None, bv(b'u'))),
        2 => p.push(X::Let(true, b'U', None, bv(b'u'))),
        _ => p.push(class(b'V', None, vec![])),
    }
    let fun = matches!(x, X::Fn(_));
    p.push(x);
    if fun {
        p.push(v(b'f'));
    }
    check(&p, false, false, 116)
}
