//! Z3 back end (system libz3, C API) for QF_BV queries over the expression
//! arena, with independence slicing and a query cache.

use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sol = *mut c_void;
type Model = *mut c_void;
type Symb = *mut c_void;
type Cfg = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_set_param_value(c: Cfg, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Symb) -> Sol;
    fn Z3_solver_inc_ref(c: Ctx, s: Sol);
    fn Z3_solver_reset(c: Ctx, s: Sol);
    fn Z3_solver_assert(c: Ctx, s: Sol, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Sol) -> c_int;
    fn Z3_solver_check_assumptions(c: Ctx, s: Sol, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_mk_implies(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    fn Z3_solver_get_model(c: Ctx, s: Sol) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Sol, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: Symb, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Symb;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Symb;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Symb, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_solver_to_string(c: Ctx, s: Sol) -> *const c_char;
}

extern "C" fn on_err(_c: Ctx, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(70);
}

pub type Assignment = Rc<Vec<(u32, u128)>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Bool,
    Bv,
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub z3_calls: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub cache_hits: u64,
    pub domain_hits: u64,
    pub search_hits: u64,
    pub z3_secs: f64,
    pub max_secs: f64,
    pub domain_crosschecks: u64,
}

pub struct Solver {
    ctx: Ctx,
    sol: Sol,
    /// incremental solver holding the constraints behind indicators
    inc: Sol,
    memo_bv: FxMap<Eid, Ast>,
    memo_bool: FxMap<Eid, Ast>,
    cache: HashMap<Box<[Eid]>, Option<Assignment>>,
    /// constraints in the solver, each behind an indicator
    ind: FxMap<Eid, Ast>,
    ind_max: usize,
    /// per expression over exactly one variable of width <= 8: truth bitset
    dom_cache: FxMap<Eid, Rc<[u64; 4]>>,
    pub stats: SolverStats,
    pub dump: Option<String>,
    pub crosscheck_every: u64,
}

fn cstr(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cstr("model").as_ptr(), cstr("true").as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = Z3_mk_string_symbol(ctx, cstr("QF_BV").as_ptr());
            let mk = |ms: u32| {
                let sol = Z3_mk_solver_for_logic(ctx, l);
                Z3_solver_inc_ref(ctx, sol);
                let p = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, p);
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, cstr("timeout").as_ptr()), ms);
                Z3_solver_set_params(ctx, sol, p);
                sol
            };
            let sol = mk(timeout_ms);
            let inc = mk(250);
            Solver {
                ctx,
                sol,
                inc,
                memo_bv: Default::default(),
                memo_bool: Default::default(),
                cache: HashMap::new(),
                ind: Default::default(),
                ind_max: 400,
                dom_cache: Default::default(),
                stats: Default::default(),
                dump: None,
                crosscheck_every: 64,
            }
        }
    }

    fn want(ar: &Arena, e: Eid) -> Kind {
        if ar.w(e) == 1 {
            Kind::Bool
        } else {
            Kind::Bv
        }
    }

    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                Z3_mk_numeral(self.ctx, cstr(&v.to_string()).as_ptr(), s)
            }
        }
    }

    /// convert; width-1 expressions become Bool, others BV.
    fn conv(&mut self, ar: &Arena, e: Eid) -> Ast {
        if let Some(&a) = self.memo_bv.get(&e) {
            return a;
        }
        let mut stack = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            if self.memo_bv.contains_key(&x) {
                continue;
            }
            let n = ar.node(x).clone();
            let kids: Vec<Eid> = match &n {
                Node::Const(_) | Node::Sym(_) => vec![],
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => vec![*a, *b],
                Node::Ite(c, a, b) => vec![*c, *a, *b],
                Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) | Node::Table(a, _) => vec![*a],
            };
            if !ready {
                stack.push((x, true));
                for k in kids {
                    if !self.memo_bv.contains_key(&k) {
                        stack.push((k, false));
                    }
                }
                continue;
            }
            let r = self.conv1(ar, x, &n);
            self.memo_bv.insert(x, r);
        }
        self.memo_bv[&e]
    }
    /// BV view of a converted expression
    fn bv(&mut self, ar: &Arena, e: Eid) -> Ast {
        let a = self.memo_bv[&e];
        if Self::want(ar, e) == Kind::Bool {
            if let Some(&b) = self.memo_bool.get(&e) {
                return b;
            }
            let r = unsafe { Z3_mk_ite(self.ctx, a, self.num(1, 1), self.num(0, 1)) };
            self.memo_bool.insert(e, r);
            r
        } else {
            a
        }
    }
    fn conv1(&mut self, ar: &Arena, x: Eid, n: &Node) -> Ast {
        let c = self.ctx;
        let w = ar.w(x);
        unsafe {
            match n {
                Node::Const(v) => {
                    if w == 1 {
                        if *v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(*v, w)
                    }
                }
                Node::Sym(s) => {
                    let sort = Z3_mk_bv_sort(c, w);
                    let k = Z3_mk_const(c, Z3_mk_int_symbol(c, *s as i32), sort);
                    if w == 1 {
                        Z3_mk_eq(c, k, self.num(1, 1))
                    } else {
                        k
                    }
                }
                Node::Bin(op, a, b) => {
                    if w == 1 {
                        let (p, q) = (self.memo_bv[a], self.memo_bv[b]);
                        match op {
                            BinOp::And | BinOp::Mul => return Z3_mk_and(c, 2, [p, q].as_ptr()),
                            BinOp::Or => return Z3_mk_or(c, 2, [p, q].as_ptr()),
                            BinOp::Xor | BinOp::Add | BinOp::Sub => return Z3_mk_not(c, Z3_mk_eq(c, p, q)),
                            _ => {}
                        }
                    }
                    let (p, q) = (self.bv(ar, *a), self.bv(ar, *b));
                    let r = match op {
                        BinOp::Add => Z3_mk_bvadd(c, p, q),
                        BinOp::Sub => Z3_mk_bvsub(c, p, q),
                        BinOp::Mul => Z3_mk_bvmul(c, p, q),
                        BinOp::UDiv => Z3_mk_bvudiv(c, p, q),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, p, q),
                        BinOp::URem => Z3_mk_bvurem(c, p, q),
                        BinOp::SRem => Z3_mk_bvsrem(c, p, q),
                        BinOp::Shl => Z3_mk_bvshl(c, p, q),
                        BinOp::LShr => Z3_mk_bvlshr(c, p, q),
                        BinOp::AShr => Z3_mk_bvashr(c, p, q),
                        BinOp::And => Z3_mk_bvand(c, p, q),
                        BinOp::Or => Z3_mk_bvor(c, p, q),
                        BinOp::Xor => Z3_mk_bvxor(c, p, q),
                    };
                    if w == 1 {
                        Z3_mk_eq(c, r, self.num(1, 1))
                    } else {
                        r
                    }
                }
                Node::Cmp(op, a, b) => {
                    if *op == CmpOp::Eq {
                        let (p, q) = (self.memo_bv[a], self.memo_bv[b]);
                        return Z3_mk_eq(c, p, q);
                    }
                    let (p, q) = (self.bv(ar, *a), self.bv(ar, *b));
                    match op {
                        CmpOp::Ult => Z3_mk_bvult(c, p, q),
                        CmpOp::Ule => Z3_mk_bvule(c, p, q),
                        CmpOp::Slt => Z3_mk_bvslt(c, p, q),
                        CmpOp::Sle => Z3_mk_bvsle(c, p, q),
                        CmpOp::Eq => unreachable!(),
                    }
                }
                Node::Ite(k, a, b) => {
                    let (z, p, q) = (self.memo_bv[k], self.memo_bv[a], self.memo_bv[b]);
                    Z3_mk_ite(c, z, p, q)
                }
                Node::Zext(a) => {
                    let p = self.bv(ar, *a);
                    Z3_mk_zero_ext(c, w - ar.w(*a), p)
                }
                Node::Sext(a) => {
                    let p = self.bv(ar, *a);
                    Z3_mk_sign_ext(c, w - ar.w(*a), p)
                }
                Node::Extract(a, lo) => {
                    let p = self.bv(ar, *a);
                    let r = Z3_mk_extract(c, *lo as u32 + w - 1, *lo as u32, p);
                    if w == 1 {
                        Z3_mk_eq(c, r, self.num(1, 1))
                    } else {
                        r
                    }
                }
                Node::Concat(a, b) => {
                    let (p, q) = (self.bv(ar, *a), self.bv(ar, *b));
                    Z3_mk_concat(c, p, q)
                }
                Node::Table(a, t) => {
                    let idx = self.bv(ar, *a);
                    let wi = ar.w(*a);
                    let t = ar.tables[*t as usize].clone();
                    // group equal values; the most common one is the default
                    let mut groups: HashMap<u128, Vec<usize>> = HashMap::new();
                    for (i, v) in t.iter().enumerate() {
                        groups.entry(*v).or_default().push(i);
                    }
                    let mut gs: Vec<(u128, Vec<usize>)> = groups.into_iter().collect();
                    gs.sort_by_key(|g| std::cmp::Reverse((g.1.len(), g.0)));
                    let mk = |me: &Self, v: u128| {
                        if w == 1 {
                            if v == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else {
                            me.num(v, w)
                        }
                    };
                    let mut r = mk(self, gs[0].0);
                    for (v, ids) in gs[1..].iter() {
                        // ranges
                        let mut ors: Vec<Ast> = vec![];
                        let mut i = 0;
                        while i < ids.len() {
                            let mut j = i;
                            while j + 1 < ids.len() && ids[j + 1] == ids[j] + 1 {
                                j += 1;
                            }
                            if i == j {
                                ors.push(Z3_mk_eq(c, idx, self.num(ids[i] as u128, wi)));
                            } else {
                                let a1 = Z3_mk_bvule(c, self.num(ids[i] as u128, wi), idx);
                                let a2 = Z3_mk_bvule(c, idx, self.num(ids[j] as u128, wi));
                                ors.push(Z3_mk_and(c, 2, [a1, a2].as_ptr()));
                            }
                            i = j + 1;
                        }
                        let cond = Z3_mk_or(c, ors.len() as u32, ors.as_ptr());
                        let vv = mk(self, *v);
                        r = Z3_mk_ite(c, cond, vv, r);
                    }
                    r
                }
            }
        }
    }

    fn z3_check(&mut self, ar: &Arena, cs: &[Eid], vars: &[u32]) -> Result<Option<Assignment>, String> {
        let t0 = Instant::now();
        self.stats.z3_calls += 1;
        unsafe {
            if self.ind.len() > self.ind_max {
                Z3_solver_reset(self.ctx, self.inc);
                self.ind.clear();
            }
            let mut asm: Vec<Ast> = vec![];
            for e in cs {
                let i = match self.ind.get(e) {
                    Some(i) => *i,
                    None => {
                        let a = self.conv(ar, *e);
                        let i = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, 0x2000_0000 + *e as i32), Z3_mk_bool_sort(self.ctx));
                        Z3_solver_assert(self.ctx, self.inc, Z3_mk_implies(self.ctx, i, a));
                        self.ind.insert(*e, i);
                        i
                    }
                };
                asm.push(i);
            }
            let mut used = self.inc;
            let mut r = Z3_solver_check_assumptions(self.ctx, self.inc, asm.len() as c_uint, asm.as_ptr());
            if r == 0 {
                // hard for the incremental solver: once more on its own, with preprocessing
                Z3_solver_reset(self.ctx, self.inc);
                self.ind.clear();
                Z3_solver_reset(self.ctx, self.sol);
                for e in cs {
                    let a = self.conv(ar, *e);
                    Z3_solver_assert(self.ctx, self.sol, a);
                }
                if let Some(d) = &self.dump {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.sol)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), self.stats.z3_calls), s + "\n(check-sat)\n");
                }
                used = self.sol;
                r = Z3_solver_check(self.ctx, self.sol);
            }
            let res = match r {
                -1 => {
                    self.stats.z3_unsat += 1;
                    None
                }
                1 => {
                    self.stats.z3_sat += 1;
                    let m = Z3_solver_get_model(self.ctx, used);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in vars {
                        let w = ar.syms[*v as usize].width;
                        let sort = Z3_mk_bv_sort(self.ctx, w);
                        let k = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, *v as i32), sort);
                        let mut o: Ast = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.ctx, m, k, true, &mut o);
                        if !ok {
                            return Err("model eval failed".into());
                        }
                        let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_str().unwrap();
                        out.push((*v, s.parse::<u128>().unwrap()));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Some(Rc::new(out))
                }
                _ => {
                    self.stats.z3_secs += t0.elapsed().as_secs_f64();
                    return Err(format!("solver returned unknown after {:.1}s", t0.elapsed().as_secs_f64()));
                }
            };
            let dt = t0.elapsed().as_secs_f64();
            self.stats.z3_secs += dt;
            if dt > self.stats.max_secs {
                self.stats.max_secs = dt;
            }
            Ok(res)
        }
    }

    fn domain(&mut self, ar: &Arena, e: Eid, v: u32, w: u32) -> Rc<[u64; 4]> {
        if let Some(d) = self.dom_cache.get(&e) {
            return d.clone();
        }
        let mut bits = [0u64; 4];
        let mut model = vec![0u128; v as usize + 1];
        let mut memo: FxMap<Eid, u128> = Default::default();
        for x in 0..(1usize << w) {
            model[v as usize] = x as u128;
            memo.clear();
            if ar.eval(e, &model, &mut memo) == 1 {
                bits[x / 64] |= 1 << (x % 64);
            }
        }
        let r = Rc::new(bits);
        self.dom_cache.insert(e, r.clone());
        r
    }

    /// Backtracking search over byte variables, for feasibility queries with
    /// few of them; None when the budget of evaluations runs out.
    fn search(&mut self, ar: &Arena, cs: &[Eid], vars: &[u32]) -> Option<Option<Assignment>> {
        if vars.len() > 24 || vars.iter().any(|v| ar.syms[*v as usize].width > 8) {
            return None;
        }
        let mut dom: Vec<[u64; 4]> = vec![];
        for v in vars {
            let w = ar.syms[*v as usize].width;
            let mut b = [0u64; 4];
            for x in 0..(1usize << w) {
                b[x / 64] |= 1 << (x % 64);
            }
            dom.push(b);
        }
        let mut multi: Vec<Eid> = vec![];
        for e in cs {
            let vs = ar.varset(*e).to_vec();
            match vs.len() {
                0 => multi.push(*e),
                1 => {
                    let w = ar.syms[vs[0] as usize].width;
                    let d = self.domain(ar, *e, vs[0], w);
                    let i = vars.binary_search(&vs[0]).ok()?;
                    for k in 0..4 {
                        dom[i][k] &= d[k];
                    }
                }
                _ => multi.push(*e),
            }
        }
        let size = |d: &[u64; 4]| d.iter().map(|x| x.count_ones()).sum::<u32>();
        let mut order: Vec<usize> = (0..vars.len()).collect();
        order.sort_by_key(|i| size(&dom[*i]));
        if size(&dom[order[0]]) == 0 {
            return Some(None);
        }
        let vals: Vec<Vec<u8>> = order.iter().map(|i| (0..256usize).filter(|x| dom[*i][x / 64] >> (x % 64) & 1 == 1).map(|x| x as u8).collect()).collect();
        // constraints by the position of their last variable
        let mut at: Vec<Vec<Eid>> = vec![vec![]; order.len()];
        for e in &multi {
            let vs = ar.varset(*e);
            let mut last = 0;
            for v in vs.iter() {
                let i = vars.binary_search(v).ok()?;
                last = last.max(order.iter().position(|o| *o == i)?);
            }
            at[last].push(*e);
        }
        let top = vars.iter().max().copied().unwrap_or(0) as usize;
        let mut model = vec![0u128; top + 1];
        let mut memo: FxMap<Eid, u128> = Default::default();
        let mut idx = vec![0usize; order.len()];
        let mut k = 0usize;
        let mut budget = 6000i32;
        loop {
            if idx[k] >= vals[k].len() {
                if k == 0 {
                    return Some(None);
                }
                idx[k] = 0;
                k -= 1;
                idx[k] += 1;
                continue;
            }
            model[vars[order[k]] as usize] = vals[k][idx[k]] as u128;
            let mut ok = true;
            if !at[k].is_empty() {
                memo.clear();
                for e in &at[k] {
                    budget -= 1;
                    if ar.eval(*e, &model, &mut memo) != 1 {
                        ok = false;
                        break;
                    }
                }
                if budget <= 0 {
                    return None;
                }
            }
            if !ok {
                idx[k] += 1;
                continue;
            }
            if k + 1 == order.len() {
                return Some(Some(Rc::new(vars.iter().map(|v| (*v, model[*v as usize])).collect())));
            }
            k += 1;
            idx[k] = 0;
        }
    }

    /// Satisfiability of pc-slice /\ extra.  `force_z3`: bypass the
    /// single-byte domain procedure (used for assertion verdicts).
    pub fn check(&mut self, ar: &Arena, pc: &[Eid], extra: Eid, force_z3: bool) -> Result<Option<Assignment>, String> {
        self.stats.queries += 1;
        if let Some(v) = ar.c(extra) {
            if v == 0 {
                return Ok(None);
            }
        }
        // independence slice
        let mut vars: Vec<u32> = ar.varset(extra).to_vec();
        let mut inset: std::collections::HashSet<u32, std::hash::BuildHasherDefault<Fx>> = vars.iter().copied().collect();
        let mut picked: Vec<bool> = vec![false; pc.len()];
        let mut cs: Vec<Eid> = vec![extra];
        loop {
            let mut changed = false;
            for (i, e) in pc.iter().enumerate() {
                if picked[i] {
                    continue;
                }
                let vs = &ar.varsets[ar.vars[*e as usize] as usize];
                if vs.iter().any(|x| inset.contains(x)) {
                    picked[i] = true;
                    cs.push(*e);
                    for x in vs.iter() {
                        if inset.insert(*x) {
                            vars.push(*x);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        vars.sort_unstable();
        if !force_z3 && vars.len() == 1 && ar.syms[vars[0] as usize].width <= 8 {
            let v = vars[0];
            let w = ar.syms[v as usize].width;
            let mut bits = [!0u64; 4];
            for e in &cs {
                let d = self.domain(ar, *e, v, w);
                for i in 0..4 {
                    bits[i] &= d[i];
                }
            }
            self.stats.domain_hits += 1;
            let mut ans = None;
            for i in 0..4 {
                if bits[i] != 0 {
                    ans = Some(i * 64 + bits[i].trailing_zeros() as usize);
                    break;
                }
            }
            // every 64th answer at first, every 1024th later on
            let every = if self.stats.domain_hits < 4096 { self.crosscheck_every } else { self.crosscheck_every * 16 };
            if every > 0 && self.stats.domain_hits % every == 0 {
                self.stats.domain_crosschecks += 1;
                let z = self.z3_check(ar, &cs, &vars)?;
                if z.is_some() != ans.is_some() {
                    return Err("byte-domain procedure disagrees with z3".into());
                }
            }
            return Ok(ans.map(|x| Rc::new(vec![(v, x as u128)])));
        }
        cs.sort_unstable();
        cs.dedup();
        let key: Box<[Eid]> = cs.clone().into_boxed_slice();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return Ok(r.clone());
        }
        let mut r = None;
        if !force_z3 {
            r = self.search(ar, &cs, &vars);
            if let Some(ans) = &r {
                self.stats.search_hits += 1;
                let every = if self.stats.search_hits < 4096 { self.crosscheck_every } else { self.crosscheck_every * 16 };
                if every > 0 && self.stats.search_hits % every == 0 {
                    self.stats.domain_crosschecks += 1;
                    let z = self.z3_check(ar, &cs, &vars)?;
                    if z.is_some() != ans.is_some() {
                        return Err("finite-domain search disagrees with z3".into());
                    }
                }
            }
        }
        let r = match r {
            Some(a) => a,
            None => self.z3_check(ar, &cs, &vars)?,
        };
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        Ok(r)
    }
}
