//! Symbolic executor: path-forking interpreter over the IR with a
//! byte-granular copy-on-write memory.

use crate::expr::*;
use crate::ir::*;
use crate::solver::{Assignment, Solver};
use std::rc::Rc;

pub const GLOBAL_BASE: u64 = 0x1000;
pub const FUNC_BASE: u64 = 0x0100_0000;
pub const STACK_BASE: u64 = 0x0200_0000;
pub const HEAP_BASE: u64 = 0x0400_0000;
const MAXOBJ: u64 = 1 << 28;
const NOSYM: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    None,
    Memcpy,
    Memset,
    UMin,
    UMax,
    SMin,
    SMax,
    Fshl,
    Fshr,
    USubSat,
    UAddSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UCmp,
    SCmp,
    Ident,
    Zero,
    NopV,
    Abort,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Strlen,
    GetRandom,
    Dlsym,
    Syscall,
    Write,
    Errno,
    SymU8,
    SymU16,
    SymU32,
    SymU64,
    SymChoose,
    SymAssume,
    SymAssert,
    SymFail,
    SymReach,
    SymObserve,
    SymConc,
    SymDone,
    SymLog,
    SymIs,
    Fabs,
}

pub fn intr_for(n: &str) -> Intr {
    use Intr::*;
    match n {
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return Realloc,
        "free" => return Free,
        "posix_memalign" => return PosixMemalign,
        "bcmp" | "memcmp" => return Bcmp,
        "strlen" => return Strlen,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "getrandom" => return GetRandom,
        "dlsym" => return Dlsym,
        "syscall" => return Syscall,
        "write" | "writev" => return Write,
        "__errno_location" => return Errno,
        "abort" => return Abort,
        "getenv" | "getcwd" | "isatty" | "gettid" | "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" => return Zero,
        "sym_u8" => return SymU8,
        "sym_u16" => return SymU16,
        "sym_u32" => return SymU32,
        "sym_u64" => return SymU64,
        "sym_choose" => return SymChoose,
        "sym_assume" => return SymAssume,
        "sym_assert" => return SymAssert,
        "sym_fail" => return SymFail,
        "sym_reach" => return SymReach,
        "sym_observe" => return SymObserve,
        "sym_concretize" => return SymConc,
        "sym_done" => return SymDone,
        "sym_log" => return SymLog,
        "sym_is_symbolic" => return SymIs,
        _ => {}
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let starts = |p: &str| r.starts_with(p);
        if starts("memcpy") || starts("memmove") {
            return Memcpy;
        }
        if starts("memset") {
            return Memset;
        }
        if starts("umin") {
            return UMin;
        }
        if starts("umax") {
            return UMax;
        }
        if starts("smin") {
            return SMin;
        }
        if starts("smax") {
            return SMax;
        }
        if starts("fshl") {
            return Fshl;
        }
        if starts("fshr") {
            return Fshr;
        }
        if starts("usub.sat") {
            return USubSat;
        }
        if starts("uadd.sat") {
            return UAddSat;
        }
        if starts("ctlz") {
            return Ctlz;
        }
        if starts("cttz") {
            return Cttz;
        }
        if starts("ctpop") {
            return Ctpop;
        }
        if starts("bswap") {
            return Bswap;
        }
        if starts("bitreverse") {
            return Bitrev;
        }
        if starts("abs") {
            return Abs;
        }
        if starts("uadd.with") {
            return UAddO;
        }
        if starts("usub.with") {
            return USubO;
        }
        if starts("umul.with") {
            return UMulO;
        }
        if starts("sadd.with") {
            return SAddO;
        }
        if starts("ssub.with") {
            return SSubO;
        }
        if starts("smul.with") {
            return SMulO;
        }
        if starts("ucmp") {
            return UCmp;
        }
        if starts("scmp") {
            return SCmp;
        }
        if starts("threadlocal.address") || starts("expect") {
            return Ident;
        }
        if starts("fabs") {
            return Fabs;
        }
        if starts("is.constant") || starts("x86.xgetbv") {
            return Zero;
        }
        if starts("trap") || starts("ubsantrap") {
            return Abort;
        }
        if starts("lifetime") || starts("assume") || starts("experimental.noalias") || starts("x86.sse2.pause") || starts("dbg") || starts("prefetch") {
            return NopV;
        }
        return None;
    }
    if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") || n.contains("20rust_panic_with_hook") || n.contains("9panicking14panic_nounwind") || n.contains("5alloc18handle_alloc_error") || n.contains("19begin_panic_handler") {
        return Panic;
    }
    None
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<u32>>,
    pub ro: bool,
}

impl Obj {
    fn new(n: usize) -> Self {
        Obj { data: vec![0; n], sym: None, ro: false }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
    pub sp: usize,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub stack: Vec<Rc<Obj>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub globs: FxMap<u32, Rc<Obj>>,
    pub pc: Vec<Eid>,
    pub model: Rc<Vec<u128>>,
    pub known: FxMap<Eid, u64>,
    pub fixed: Vec<bool>,
    pub inputs: Vec<u32>,
    pub observed: Vec<Val>,
    pub steps: u64,
    pub rng: u64,
    pub depth: u32,
}

#[derive(Clone, Debug)]
pub enum Need {
    Conc(Eid),
    InBounds { addr: Eid, lo: u64, hi: u64 },
    Err(String),
}
type R<T> = Result<T, Need>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Need::Err(s.into()))
}

pub enum Out {
    Push(State),
    Fork(Vec<State>),
    End(PathEnd),
}

#[derive(Clone, Debug)]
pub enum PathEnd {
    Done,
    Infeasible,
    Violation { id: u32, what: String },
    Panic { what: String },
    StepLimit,
    Error(String),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub what: String,
    pub inputs: Vec<u128>,
}

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub solver: Solver,
    pub globals: Vec<Option<Rc<Obj>>>,
    pub called: Vec<bool>,
    pub reached: std::collections::BTreeMap<u32, u64>,
    pub max_steps: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts_solver: u64,
    pub asserts_const: u64,
    pub violations: Vec<Violation>,
    pub trace: bool,
    pub fork_sites: FxMap<(u32, u32), u64>,
}

fn pm(a: Option<u128>) -> u128 {
    a.unwrap_or(0)
}

impl Engine {
    pub fn new(m: Module, ar: Arena, timeout_ms: u32) -> Self {
        let globals = m
            .globals
            .iter()
            .map(|g| {
                g.init.as_ref().map(|d| {
                    Rc::new(Obj {
                        data: d.clone(),
                        sym: None,
                        ro: g.constant,
                    })
                })
            })
            .collect();
        let called = vec![false; m.funcs.len()];
        Engine {
            m,
            ar,
            solver: Solver::new(timeout_ms),
            globals,
            called,
            reached: Default::default(),
            max_steps: 200_000_000,
            instrs: 0,
            forks: 0,
            asserts_solver: 0,
            asserts_const: 0,
            violations: vec![],
            trace: false,
            fork_sites: Default::default(),
        }
    }

    pub fn start(&mut self, entry: &str) -> Result<State, String> {
        let f = *self.m.func_by_name.get(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let mut st = State {
            frames: vec![],
            stack: vec![],
            heap: vec![],
            free: vec![],
            globs: Default::default(),
            pc: vec![],
            model: Rc::new(vec![]),
            known: Default::default(),
            fixed: vec![],
            inputs: vec![],
            observed: vec![],
            steps: 0,
            rng: 0x9E3779B97F4A7C15,
            depth: 0,
        };
        self.push_frame(&mut st, f, vec![], None, None);
        Ok(st)
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret: Option<u32>, normal: Option<u32>) {
        self.called[f as usize] = true;
        let fu = &self.m.funcs[f as usize];
        let mut regs = args;
        regs.truncate(fu.nargs as usize);
        regs.resize(fu.nregs as usize, Val::C(0));
        let sp = st.stack.len();
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, ret, normal, sp });
    }

    // ---- values -------------------------------------------------------
    fn eid(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::C(c) => self.ar.konst(*c as u128, w),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, e: Eid) -> Val {
        if self.ar.w(e) <= 64 {
            if let Some(c) = self.ar.c(e) {
                return Val::C(c as u64);
            }
        }
        Val::S(e)
    }
    fn kval(&mut self, v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::C((v & mask(w)) as u64)
        } else {
            Val::S(self.ar.konst(v, w))
        }
    }
    #[inline]
    fn get(st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn conc(&mut self, st: &State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.conc_e(st, *e).map(|x| x as u64),
            Val::Agg(_) => err("aggregate where scalar expected"),
        }
    }
    fn conc_e(&mut self, st: &State, e: Eid) -> R<u128> {
        if let Some(c) = self.ar.c(e) {
            return Ok(c);
        }
        if let Some(k) = st.known.get(&e) {
            return Ok(*k as u128);
        }
        if self.all_fixed(st, e) {
            return Ok(self.eval(st, e));
        }
        Err(Need::Conc(e))
    }
    fn all_fixed(&self, st: &State, e: Eid) -> bool {
        let vs = &self.ar.varsets[self.ar.vars[e as usize] as usize];
        vs.iter().all(|v| st.fixed.get(*v as usize).copied().unwrap_or(false))
    }
    pub fn eval(&self, st: &State, e: Eid) -> u128 {
        let mut memo: FxMap<Eid, u128> = Default::default();
        self.ar.eval(e, &st.model, &mut memo)
    }

    pub fn add_pc(&mut self, st: &mut State, c: Eid) {
        if self.ar.c(c).is_some() {
            return;
        }
        match self.ar.node(c).clone() {
            Node::Bin(BinOp::And, a, b) if self.ar.w(c) == 1 => {
                self.add_pc(st, a);
                self.add_pc(st, b);
                return;
            }
            Node::Bin(BinOp::Xor, a, k) if self.ar.w(c) == 1 && self.ar.c(k) == Some(1) => {
                if let Node::Bin(BinOp::Or, x, y) = self.ar.node(a).clone() {
                    let nx = self.ar.not(x);
                    let ny = self.ar.not(y);
                    self.add_pc(st, nx);
                    self.add_pc(st, ny);
                    return;
                }
                st.known.insert(a, 0);
            }
            Node::Cmp(CmpOp::Eq, a, k) => {
                if let Some(v) = self.ar.c(k) {
                    if self.ar.w(a) <= 64 {
                        st.known.insert(a, v as u64);
                    }
                    if let Node::Sym(s) = self.ar.node(a) {
                        let s = *s as usize;
                        if st.fixed.len() <= s {
                            st.fixed.resize(s + 1, false);
                        }
                        st.fixed[s] = true;
                    }
                }
            }
            _ => {}
        }
        st.known.insert(c, 1);
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    fn apply_model(st: &mut State, a: &Assignment) {
        let m = Rc::make_mut(&mut st.model);
        for (v, x) in a.iter() {
            if m.len() <= *v as usize {
                m.resize(*v as usize + 1, 0);
            }
            m[*v as usize] = *x;
        }
    }
    fn sat(&mut self, st: &State, c: Eid, z3: bool) -> R<Option<Assignment>> {
        self.solver.check(&self.ar, &st.pc, c, z3).map_err(Need::Err)
    }

    /// Decide a boolean under the path condition.  Ok(Ok(b)) when implied,
    /// Ok(Err(())) after having split: `other` filled with the else-state.
    fn branch(&mut self, st: &mut State, c: Eid, other: &mut Vec<State>) -> R<bool> {
        if let Some(v) = self.ar.c(c) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v == 1);
        }
        let v = self.eval(st, c) == 1;
        if self.all_fixed(st, c) {
            return Ok(v);
        }
        let n = self.ar.not(c);
        let (here, there) = if v { (c, n) } else { (n, c) };
        match self.sat(st, there, false)? {
            None => {
                st.known.insert(c, v as u64);
                Ok(v)
            }
            Some(a) => {
                let mut o = st.clone();
                self.forks += 1;
                let fr = st.frames.last().unwrap();
                *self.fork_sites.entry((fr.f, fr.blk)).or_insert(0) += 1;
                Self::apply_model(&mut o, &a);
                o.depth += 1;
                st.depth += 1;
                self.add_pc(&mut o, there);
                self.add_pc(st, here);
                other.push(o);
                Ok(v)
            }
        }
    }

    pub fn fork_values(&mut self, st: &State, e: Eid, limit: usize) -> R<Vec<State>> {
        let w = self.ar.w(e);
        let mut out = vec![];
        let mut excl: Eid = self.ar.konst(1, 1);
        let mut first = true;
        loop {
            let (v, m): (u128, Option<Assignment>) = if first {
                first = false;
                (self.eval(st, e), None)
            } else {
                match self.sat(st, excl, false)? {
                    None => break,
                    Some(a) => {
                        let mut t = (*st.model).clone();
                        for (s, x) in a.iter() {
                            if t.len() <= *s as usize {
                                t.resize(*s as usize + 1, 0);
                            }
                            t[*s as usize] = *x;
                        }
                        let mut memo: FxMap<Eid, u128> = Default::default();
                        (self.ar.eval(e, &t, &mut memo), Some(a))
                    }
                }
            };
            let k = self.ar.konst(v, w);
            let eq = self.ar.cmp(CmpOp::Eq, e, k);
            let ne = self.ar.not(eq);
            let mut o = st.clone();
            if let Some(a) = m {
                Self::apply_model(&mut o, &a);
            }
            self.add_pc(&mut o, eq);
            if w <= 64 {
                o.known.insert(e, v as u64);
            }
            o.depth += 1;
            out.push(o);
            excl = self.ar.bin(BinOp::And, excl, ne);
            if out.len() > limit {
                return err(format!("more than {} feasible values for {}", limit, self.ar.show(e, 6)));
            }
        }
        let fr = st.frames.last().unwrap();
        *self.fork_sites.entry((fr.f, fr.blk)).or_insert(0) += out.len() as u64 - 1;
        self.forks += out.len() as u64 - 1;
        Ok(out)
    }

    // ---- memory -------------------------------------------------------
    fn obj<'a>(&'a self, st: &'a State, id: u64) -> Option<&'a Rc<Obj>> {
        if id >= HEAP_BASE {
            st.heap.get((id - HEAP_BASE) as usize)?.as_ref()
        } else if id >= STACK_BASE {
            st.stack.get((id - STACK_BASE) as usize)
        } else if id >= GLOBAL_BASE && id < FUNC_BASE {
            let i = (id - GLOBAL_BASE) as u32;
            if let Some(o) = st.globs.get(&i) {
                return Some(o);
            }
            self.globals.get(i as usize)?.as_ref()
        } else {
            None
        }
    }
    fn obj_mut<'a>(&'a self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        if id >= HEAP_BASE {
            st.heap.get_mut((id - HEAP_BASE) as usize)?.as_mut().map(Rc::make_mut)
        } else if id >= STACK_BASE {
            st.stack.get_mut((id - STACK_BASE) as usize).map(Rc::make_mut)
        } else if id >= GLOBAL_BASE && id < FUNC_BASE {
            let i = (id - GLOBAL_BASE) as u32;
            if !st.globs.contains_key(&i) {
                let o = self.globals.get(i as usize)?.as_ref()?;
                if o.ro {
                    return None;
                }
                st.globs.insert(i, o.clone());
            }
            st.globs.get_mut(&i).map(Rc::make_mut)
        } else {
            None
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > MAXOBJ {
            return err(format!("allocation of {} bytes", n));
        }
        let o = Some(Rc::new(Obj::new(n as usize)));
        let i = if let Some(i) = st.free.pop() {
            st.heap[i as usize] = o;
            i
        } else {
            st.heap.push(o);
            (st.heap.len() - 1) as u32
        };
        Ok((HEAP_BASE + i as u64) << 32)
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = p >> 32;
        if id < HEAP_BASE || p & 0xffff_ffff != 0 || st.heap.get((id - HEAP_BASE) as usize).map(|o| o.is_none()).unwrap_or(true) {
            return err(format!("invalid free {:#x}", p));
        }
        let i = (id - HEAP_BASE) as usize;
        st.heap[i] = None;
        st.free.push(i as u32);
        Ok(())
    }
    fn read_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Val> {
        // n <= 16
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let w = n as u32 * 8;
        let o = match self.obj(st, id) {
            Some(o) => o.clone(),
            None => return err(format!("load from invalid address {:#x}", addr)),
        };
        if off + n > o.data.len() {
            return err(format!("out-of-bounds load at {:#x}+{} (size {})", addr, n, o.data.len()));
        }
        let any = match &o.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|x| *x != NOSYM),
        };
        if !any {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(self.kval(u128::from_le_bytes(b), w));
        }
        let s = o.sym.as_ref().unwrap();
        let mut e: Option<Eid> = None;
        for k in 0..n {
            let b = if s[off + k] != NOSYM { s[off + k] } else { self.ar.konst(o.data[off + k] as u128, 8) };
            e = Some(match e {
                None => b,
                Some(lo) => self.ar.concat(b, lo),
            });
        }
        Ok(self.val(e.unwrap()))
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let mut syms: Vec<u32> = vec![];
        let mut conc: u128 = 0;
        match v {
            Val::C(c) => conc = *c as u128,
            Val::S(e) => {
                if let Some(c) = self.ar.c(*e) {
                    conc = c
                } else {
                    let w = self.ar.w(*e);
                    let e2 = if w < n as u32 * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                    for k in 0..n {
                        syms.push(self.ar.extract(e2, k as u32 * 8, 8));
                    }
                }
            }
            Val::Agg(_) => return err("write agg"),
        }
        let consts: Vec<Option<u128>> = syms.iter().map(|s| self.ar.c(*s)).collect();
        let o = match self.obj_mut(st, id) {
            Some(o) => o,
            None => return err(format!("store to invalid address {:#x}", addr)),
        };
        if off + n > o.data.len() {
            return err(format!("out-of-bounds store at {:#x}+{} (size {})", addr, n, o.data.len()));
        }
        if syms.is_empty() {
            o.data[off..off + n].copy_from_slice(&conc.to_le_bytes()[..n]);
            if let Some(s) = &mut o.sym {
                for x in &mut s[off..off + n] {
                    *x = NOSYM;
                }
            }
        } else {
            let len = o.data.len();
            let s = o.sym.get_or_insert_with(|| vec![NOSYM; len]);
            for k in 0..n {
                match consts[k] {
                    Some(c) => {
                        s[off + k] = NOSYM;
                        o.data[off + k] = c as u8;
                    }
                    None => s[off + k] = syms[k],
                }
            }
        }
        Ok(())
    }
    fn load_at(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let n = match ty {
                    Ty::Int(w) => ((*w + 7) / 8) as usize,
                    t => t.size() as usize,
                };
                let v = self.read_bytes(st, addr, n)?;
                let w = ty.bits();
                if w as usize == n * 8 {
                    Ok(v)
                } else {
                    match v {
                        Val::C(c) => Ok(Val::C((c as u128 & mask(w)) as u64)),
                        Val::S(e) => {
                            let t = self.ar.extract(e, 0, w);
                            Ok(self.val(t))
                        }
                        _ => unreachable!(),
                    }
                }
            }
            Ty::Vec(n, e) if matches!(&**e, Ty::Int(w) if *w % 8 != 0) => {
                let (n, ew) = (*n, e.bits());
                let nb = (n * ew as usize + 7) / 8;
                let v = self.read_bytes(st, addr, nb)?;
                let all = self.eid(&v, nb as u32 * 8);
                let mut f = Vec::with_capacity(n);
                for i in 0..n {
                    let x = self.ar.extract(all, i as u32 * ew, ew);
                    f.push(self.val(x));
                }
                Ok(Val::Agg(Rc::new(f)))
            }
            _ => {
                let es = ty.elems();
                let mut f = Vec::with_capacity(es.len());
                for (i, t) in es.iter().enumerate() {
                    f.push(self.load_at(st, addr + ty.offset(i), t)?);
                }
                Ok(Val::Agg(Rc::new(f)))
            }
        }
    }
    fn store_at(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let n = match ty {
                    Ty::Int(w) => ((*w + 7) / 8) as usize,
                    t => t.size() as usize,
                };
                self.write_bytes(st, addr, n, v)
            }
            Ty::Vec(n, e) if matches!(&**e, Ty::Int(w) if *w % 8 != 0) => {
                let (n, ew) = (*n, e.bits());
                let nb = (n * ew as usize + 7) / 8;
                if let Val::Agg(f) = v {
                    let mut acc = self.eid(&f[0], ew);
                    for x in &f[1..n] {
                        let h = self.eid(x, ew);
                        acc = self.ar.concat(h, acc);
                    }
                    let acc = self.ar.zext(acc, nb as u32 * 8);
                    let v = self.val(acc);
                    self.write_bytes(st, addr, nb, &v)
                } else {
                    err("store bit vector")
                }
            }
            _ => {
                let es = ty.elems();
                if let Val::Agg(f) = v {
                    for (i, t) in es.iter().enumerate() {
                        self.store_at(st, addr + ty.offset(i), t, &f[i])?;
                    }
                    Ok(())
                } else {
                    err("store agg")
                }
            }
        }
    }
    /// resolve an address operand for an access of n bytes.  Either a concrete
    /// address, or (object id, offset expression) proven in bounds.
    fn addr(&mut self, st: &State, v: &Val, n: u64) -> R<Result<u64, (u64, Eid)>> {
        match v {
            Val::C(c) => Ok(Ok(*c)),
            Val::S(e) => {
                if let Some(k) = st.known.get(e) {
                    return Ok(Ok(*k));
                }
                if self.all_fixed(st, *e) {
                    return Ok(Ok(self.eval(st, *e) as u64));
                }
                let a = self.eval(st, *e) as u64;
                let id = a >> 32;
                let o = match self.obj(st, id) {
                    Some(o) => o.clone(),
                    None => return err(format!("symbolic access to invalid address {:#x}", a)),
                };
                if (o.data.len() as u64) < n {
                    return err("access larger than object");
                }
                let lo = id << 32;
                let hi = lo + o.data.len() as u64 - n;
                let l = self.ar.konst(lo as u128, 64);
                let h = self.ar.konst(hi as u128, 64);
                let c1 = self.ar.cmp(CmpOp::Ule, l, *e);
                let c2 = self.ar.cmp(CmpOp::Ule, *e, h);
                let inb = self.ar.bin(BinOp::And, c1, c2);
                let outb = self.ar.not(inb);
                if st.known.get(&inb) != Some(&1) && self.sat(st, outb, false)?.is_some() {
                    return Err(Need::InBounds { addr: *e, lo, hi });
                }
                let nl = self.ar.konst(0u128.wrapping_sub(lo as u128), 64);
                let off = self.ar.bin(BinOp::Add, *e, nl);
                Ok(Err((id, off)))
            }
            _ => err("agg address"),
        }
    }
    fn load(&mut self, st: &State, p: &Val, ty: &Ty) -> R<Val> {
        if matches!(ty, Ty::Int(w) if *w > 128) {
            return err("integer wider than 128 bits");
        }
        let n = match ty {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            t => t.size(),
        };
        match self.addr(st, p, n)? {
            Ok(a) => self.load_at(st, a, ty),
            Err((id, off)) => {
                let o = self.obj(st, id).unwrap().clone();
                let e = match p {
                    Val::S(e) => *e,
                    _ => unreachable!(),
                };
                if o.sym.is_some() || o.data.len() > 8192 || !ty.is_scalar() || n > 16 {
                    return Err(Need::Conc(e));
                }
                let w = ty.bits();
                let mut t: Vec<u128> = vec![];
                for k in 0..=(o.data.len() - n as usize) {
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&o.data[k..k + n as usize]);
                    t.push(u128::from_le_bytes(b) & mask(w));
                }
                // stride compaction: off = idx << s when low bits are known zero
                let (mut idx, mut stride) = (off, 1usize);
                if let Node::Concat(h, l) = self.ar.node(off).clone() {
                    if self.ar.c(l) == Some(0) && self.ar.w(l) < 12 {
                        stride = 1 << self.ar.w(l);
                        idx = self.ar.zext(h, 64);
                    }
                } else if let Node::Zext(x) = self.ar.node(off).clone() {
                    if let Node::Concat(h, l) = self.ar.node(x).clone() {
                        if self.ar.c(l) == Some(0) && self.ar.w(l) < 12 {
                            stride = 1 << self.ar.w(l);
                            idx = self.ar.zext(h, 64);
                        }
                    }
                }
                let t: Vec<u128> = t.into_iter().step_by(stride).collect();
                // narrow the index to its significant width
                let need = 128 - (t.len() as u128).leading_zeros();
                let mut ie = idx;
                if let Node::Zext(x) = self.ar.node(idx).clone() {
                    if self.ar.w(x) >= need {
                        ie = x;
                    }
                }
                if self.ar.w(ie) == 64 {
                    let x = self.ar.extract(ie, 0, need.max(8));
                    ie = x;
                }
                let r = self.ar.table(ie, t, w);
                Ok(self.val(r))
            }
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        match p {
            Val::C(a) => self.store_at(st, *a, ty, v),
            _ => {
                let a = self.conc(st, p)?;
                self.store_at(st, a, ty, v)
            }
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, soff) = (s >> 32, (s & 0xffff_ffff) as usize);
        let so = match self.obj(st, sid) {
            Some(o) => o.clone(),
            None => return err(format!("memcpy from invalid {:#x}", s)),
        };
        if soff + n > so.data.len() {
            return err(format!("memcpy read out of bounds {:#x}+{} (size {})", s, n, so.data.len()));
        }
        let (did, doff) = (d >> 32, (d & 0xffff_ffff) as usize);
        let o = match self.obj_mut(st, did) {
            Some(o) => o,
            None => return err(format!("memcpy to invalid {:#x}", d)),
        };
        if doff + n > o.data.len() {
            return err(format!("memcpy write out of bounds {:#x}+{} (size {})", d, n, o.data.len()));
        }
        o.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
        match (&mut o.sym, &so.sym) {
            (None, None) => {}
            (Some(x), None) => {
                for k in &mut x[doff..doff + n] {
                    *k = NOSYM;
                }
            }
            (x, Some(y)) => {
                if x.is_none() && y[soff..soff + n].iter().all(|k| *k == NOSYM) {
                    return Ok(());
                }
                let len = o.data.len();
                let x = x.get_or_insert_with(|| vec![NOSYM; len]);
                x[doff..doff + n].copy_from_slice(&y[soff..soff + n]);
            }
        }
        Ok(())
    }

    // ---- arithmetic ---------------------------------------------------
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
                let r = match op {
                    BinOp::Add => x.wrapping_add(*y) & m,
                    BinOp::Sub => x.wrapping_sub(*y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Mul => x.wrapping_mul(*y) & m,
                    _ => ev_bin(op, w, *x as u128, *y as u128) as u64,
                };
                return Val::C(r);
            }
        }
        let (x, y) = (self.eid(a, w), self.eid(b, w));
        let e = self.ar.bin(op, x, y);
        self.val(e)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sx(v as u128, w) as i64;
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.eid(a, w), self.eid(b, w));
        let e = match p {
            Pred::Eq => self.ar.cmp(CmpOp::Eq, x, y),
            Pred::Ne => {
                let t = self.ar.cmp(CmpOp::Eq, x, y);
                self.ar.not(t)
            }
            Pred::Ult => self.ar.cmp(CmpOp::Ult, x, y),
            Pred::Ule => self.ar.cmp(CmpOp::Ule, x, y),
            Pred::Ugt => self.ar.cmp(CmpOp::Ult, y, x),
            Pred::Uge => self.ar.cmp(CmpOp::Ule, y, x),
            Pred::Slt => self.ar.cmp(CmpOp::Slt, x, y),
            Pred::Sle => self.ar.cmp(CmpOp::Sle, x, y),
            Pred::Sgt => self.ar.cmp(CmpOp::Slt, y, x),
            Pred::Sge => self.ar.cmp(CmpOp::Sle, y, x),
        };
        self.val(e)
    }
    fn ite(&mut self, c: Eid, a: &Val, b: &Val, ty: &Ty) -> Val {
        if ty.is_scalar() {
            let w = ty.bits();
            let (x, y) = (self.eid(a, w), self.eid(b, w));
            let e = self.ar.ite(c, x, y);
            self.val(e)
        } else if let (Val::Agg(p), Val::Agg(q)) = (a, b) {
            let r = ty.elems().iter().enumerate().map(|(i, t)| self.ite(c, &p[i], &q[i], t)).collect();
            Val::Agg(Rc::new(r))
        } else {
            panic!("ite agg")
        }
    }
    fn cast(&mut self, st: &State, k: Cast, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if matches!(to, Ty::Int(w) if *w > 128) {
            return err("integer wider than 128 bits");
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te), true) = (from, to, k != Cast::Bitcast) {
            if let Val::Agg(f) = a {
                let mut r = vec![];
                for x in f.iter() {
                    r.push(self.cast(st, k, fe, te, x)?);
                }
                return Ok(Val::Agg(Rc::new(r)));
            }
        }
        match k {
            Cast::Zext => Ok(match a {
                Val::C(c) if to.bits() <= 64 => Val::C(*c),
                _ => {
                    let e = self.eid(a, from.bits());
                    let r = self.ar.zext(e, to.bits());
                    self.val(r)
                }
            }),
            Cast::Sext => Ok(match a {
                Val::C(c) if to.bits() <= 64 => Val::C((sx(*c as u128, from.bits()) as u128 & mask(to.bits())) as u64),
                _ => {
                    let e = self.eid(a, from.bits());
                    let r = self.ar.sext(e, to.bits());
                    self.val(r)
                }
            }),
            Cast::Trunc => Ok(match a {
                Val::C(c) => Val::C((*c as u128 & mask(to.bits())) as u64),
                _ => {
                    let e = self.eid(a, from.bits());
                    let r = self.ar.extract(e, 0, to.bits());
                    self.val(r)
                }
            }),
            Cast::PtrInt => {
                let (f, t) = (from.bits(), to.bits());
                Ok(if f == t {
                    a.clone()
                } else if f < t {
                    let e = self.eid(a, f);
                    let r = self.ar.zext(e, t);
                    self.val(r)
                } else {
                    let e = self.eid(a, f);
                    let r = self.ar.extract(e, 0, t);
                    self.val(r)
                })
            }
            Cast::Bitcast => {
                if from.is_scalar() && to.is_scalar() {
                    return Ok(a.clone());
                }
                // lanes, little endian
                let (fl, fw): (Vec<Val>, u32) = match (from, a) {
                    (Ty::Vec(_, e), Val::Agg(v)) => (v.to_vec(), e.bits()),
                    _ => (vec![a.clone()], from.bits()),
                };
                let (tn, tw) = match to {
                    Ty::Vec(n, e) => (*n, e.bits()),
                    t => (1, t.bits()),
                };
                let mut out = vec![];
                if fw <= tw {
                    let g = (tw / fw) as usize;
                    for c in fl.chunks(g) {
                        let mut e = self.eid(&c[0], fw);
                        for x in &c[1..] {
                            let h = self.eid(x, fw);
                            e = self.ar.concat(h, e);
                        }
                        out.push(self.val(e));
                    }
                } else {
                    let g = fw / tw;
                    for x in &fl {
                        let e = self.eid(x, fw);
                        for i in 0..g {
                            let p = self.ar.extract(e, i * tw, tw);
                            out.push(self.val(p));
                        }
                    }
                }
                debug_assert_eq!(out.len(), tn);
                Ok(if matches!(to, Ty::Vec(..)) { Val::Agg(Rc::new(out)) } else { out.pop().unwrap() })
            }
            Cast::UiToFp | Cast::SiToFp => {
                let c = self.conc(st, a)?;
                let f = if k == Cast::UiToFp { c as f64 } else { sx(c as u128, from.bits()) as i64 as f64 };
                Ok(Val::C(if *to == Ty::F32 { if k == Cast::UiToFp { (c as f32).to_bits() as u64 } else { (sx(c as u128, from.bits()) as i64 as f32).to_bits() as u64 } } else { f.to_bits() }))
            }
            Cast::FpToUi | Cast::FpToSi => {
                let c = self.conc(st, a)?;
                let f = if *from == Ty::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let r = if k == Cast::FpToUi { f as u64 } else { f as i64 as u64 };
                Ok(Val::C((r as u128 & mask(to.bits())) as u64))
            }
            Cast::FpExt => {
                let c = self.conc(st, a)?;
                Ok(Val::C((f32::from_bits(c as u32) as f64).to_bits()))
            }
            Cast::FpTrunc => {
                let c = self.conc(st, a)?;
                Ok(Val::C((f64::from_bits(c) as f32).to_bits() as u64))
            }
        }
    }

    // ---- control ------------------------------------------------------
    fn goto(&mut self, st: &mut State, target: u32) -> R<()> {
        let m = &self.m;
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = &m.funcs[fr.f as usize];
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let mut found = false;
                for (l, o) in &p.inc {
                    if *l == from {
                        let v = match o {
                            Op::R(r) => fr.regs[*r as usize].clone(),
                            Op::K(v) => v.clone(),
                        };
                        vals.push((p.d, v));
                        found = true;
                        break;
                    }
                }
                if !found {
                    return err("phi without incoming edge");
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = target;
        fr.ip = 0;
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<Option<PathEnd>> {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.sp);
        if st.frames.is_empty() {
            return Ok(Some(PathEnd::Done));
        }
        if let (Some(d), Some(v)) = (fr.ret, v) {
            Self::set(st, d, v);
        }
        if let Some(n) = fr.normal {
            self.goto(st, n)?;
        } else {
            st.frames.last_mut().unwrap().ip += 1;
        }
        Ok(None)
    }

    pub fn backtrace(&self, st: &State) -> String {
        st.frames
            .iter()
            .rev()
            .map(|f| self.m.funcs[f.f as usize].pretty.clone())
            .take(14)
            .collect::<Vec<_>>()
            .join(" <- ")
    }

    fn read_str(&mut self, st: &State, p: u64, n: usize) -> String {
        let mut o = vec![];
        for i in 0..n.min(400) {
            match self.read_bytes(st, p + i as u64, 1) {
                Ok(Val::C(c)) => o.push(c as u8),
                Ok(Val::S(e)) => o.push(self.eval(st, e) as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&o).to_string()
    }

    fn location(&mut self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                if let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(line)), Ok(Val::C(col))) = (self.read_bytes(st, *p, 8), self.read_bytes(st, *p + 8, 8), self.read_bytes(st, *p + 16, 4), self.read_bytes(st, *p + 20, 4)) {
                    if fl > 2 && fl < 300 && (fp >> 32) >= GLOBAL_BASE && line < 1_000_000 {
                        let s = self.read_str(st, fp, fl as usize - 1);
                        if s.contains(".rs") || s.ends_with(".r") {
                            return format!("{}:{}:{}", self.read_str(st, fp, fl as usize), line, col);
                        }
                    }
                }
            }
        }
        "?".into()
    }

    pub fn inputs_of(&self, st: &State) -> Vec<u128> {
        st.inputs.iter().map(|s| pm(st.model.get(*s as usize).copied())).collect()
    }

    fn fresh(&mut self, st: &mut State, w: u32, tag: &str) -> Eid {
        let name = format!("{}{}", tag, st.inputs.len());
        let (e, id) = self.ar.sym(&name, w);
        st.inputs.push(id);
        e
    }

    /// run one state to its end; forked siblings are pushed to `work`
    pub fn run(&mut self, mut st: State, work: &mut Vec<State>) -> (State, PathEnd) {
        loop {
            let (s, e) = self.run_until_fork(st, work);
            st = s;
            if let Some(e) = e {
                return (st, e);
            }
        }
    }

    /// run one state until it forks (siblings in `work`) or ends
    pub fn run_until_fork(&mut self, mut st: State, work: &mut Vec<State>) -> (State, Option<PathEnd>) {
        let before = work.len();
        loop {
            let r = self.step(&mut st);
            match r {
                Ok(Out::Push(o)) => work.push(o),
                Ok(Out::End(e)) => return (st, Some(e)),
                Ok(Out::Fork(mut v)) => {
                    if v.is_empty() {
                        return (st, Some(PathEnd::Infeasible));
                    }
                    st = v.pop().unwrap();
                    work.extend(v);
                }
                Err(n) => {
                    let e = match n {
                        Need::Conc(e) => match self.fork_values(&st, e, 3000) {
                            Ok(mut v) => {
                                if self.trace {
                                    eprintln!("concretize {} into {} at {}", self.ar.show(e, 5), v.len(), self.backtrace(&st));
                                }
                                st = v.pop().unwrap();
                                work.extend(v);
                                None
                            }
                            Err(Need::Err(s)) => Some(s),
                            Err(_) => unreachable!(),
                        },
                        Need::InBounds { addr, lo, hi } => {
                            let l = self.ar.konst(lo as u128, 64);
                            let h = self.ar.konst(hi as u128, 64);
                            let c1 = self.ar.cmp(CmpOp::Ule, l, addr);
                            let c2 = self.ar.cmp(CmpOp::Ule, addr, h);
                            let inb = self.ar.bin(BinOp::And, c1, c2);
                            let mut o = vec![];
                            match self.branch(&mut st, inb, &mut o) {
                                Ok(_) => {
                                    work.extend(o);
                                    None
                                }
                                Err(Need::Err(s)) => Some(s),
                                Err(_) => unreachable!(),
                            }
                        }
                        Need::Err(s) => Some(s),
                    };
                    if let Some(s) = e {
                        let b = self.backtrace(&st);
                        return (st, Some(PathEnd::Error(format!("{} @ {}", s, b))));
                    }
                }
            }
            if st.steps > self.max_steps {
                return (st, Some(PathEnd::StepLimit));
            }
            if work.len() > before {
                return (st, None);
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<Out> {
        // SAFETY: the module is immutable during execution; decouple borrows.
        let m: &'static Module = unsafe { &*(&self.m as *const Module) };
        loop {
            st.steps += 1;
            self.instrs += 1;
            if st.steps & 0xfffff == 0 && st.steps > self.max_steps {
                return Ok(Out::End(PathEnd::StepLimit));
            }
            let fr = st.frames.last().unwrap();
            let inst = match m.funcs[fr.f as usize].blocks[fr.blk as usize].insts.get(fr.ip as usize) {
                Some(i) => i,
                None => return err("fell off block"),
            };
            match inst {
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (Self::get(st, a), Self::get(st, b));
                    let v = self.bin(*op, *w, &x, &y);
                    Self::set(st, *d, v);
                }
                Inst::VBin { op, ew, d, a, b } => {
                    if let (Val::Agg(x), Val::Agg(y)) = (Self::get(st, a), Self::get(st, b)) {
                        let r = x.iter().zip(y.iter()).map(|(p, q)| self.bin(*op, *ew, p, q)).collect();
                        Self::set(st, *d, Val::Agg(Rc::new(r)));
                    } else {
                        return err("vbin");
                    }
                }
                Inst::Icmp { p, w, d, a, b } => {
                    let (x, y) = (Self::get(st, a), Self::get(st, b));
                    let v = self.icmp(*p, *w, &x, &y);
                    Self::set(st, *d, v);
                }
                Inst::VIcmp { p, ew, d, a, b } => {
                    if let (Val::Agg(x), Val::Agg(y)) = (Self::get(st, a), Self::get(st, b)) {
                        let r = x.iter().zip(y.iter()).map(|(u, v)| self.icmp(*p, *ew, u, v)).collect();
                        Self::set(st, *d, Val::Agg(Rc::new(r)));
                    } else {
                        return err("vicmp");
                    }
                }
                Inst::Mov { d, a } => {
                    let v = Self::get(st, a);
                    Self::set(st, *d, v);
                }
                Inst::Cast { k, from, to, d, a } => {
                    let x = Self::get(st, a);
                    let v = self.cast(st, *k, from, to, &x)?;
                    Self::set(st, *d, v);
                }
                Inst::Gep { d, base, off, idx } => {
                    let mut v = Self::get(st, base);
                    if *off != 0 {
                        v = self.bin(BinOp::Add, 64, &v, &Val::C(*off as u64));
                    }
                    for (sz, w, o) in idx {
                        let mut i = Self::get(st, o);
                        if *w < 64 {
                            i = self.cast(st, Cast::Sext, &Ty::Int(*w), &Ty::Int(64), &i)?;
                        }
                        let s = self.bin(BinOp::Mul, 64, &i, &Val::C(*sz));
                        v = self.bin(BinOp::Add, 64, &v, &s);
                    }
                    Self::set(st, *d, v);
                }
                Inst::Load { ty, d, p } => {
                    let pv = Self::get(st, p);
                    let v = if let Val::C(a) = pv { self.load_at(st, a, ty)? } else { self.load(st, &pv, ty)? };
                    Self::set(st, *d, v);
                }
                Inst::Store { ty, v, p } => {
                    let pv = Self::get(st, p);
                    let x = Self::get(st, v);
                    self.store(st, &pv, ty, &x)?;
                }
                Inst::Alloca { size, d, n } => {
                    let k = match n {
                        None => 1,
                        Some(o) => {
                            let v = Self::get(st, o);
                            self.conc(st, &v)?
                        }
                    };
                    let id = STACK_BASE + st.stack.len() as u64;
                    st.stack.push(Rc::new(Obj::new((*size * k) as usize)));
                    Self::set(st, *d, Val::C(id << 32));
                }
                Inst::Br(l) => {
                    self.goto(st, *l)?;
                    continue;
                }
                Inst::CondBr(c, a, b) => {
                    let v = Self::get(st, c);
                    match v {
                        Val::C(x) => {
                            let t = if x & 1 == 1 { *a } else { *b };
                            self.goto(st, t)?;
                            continue;
                        }
                        Val::S(e) => {
                            let mut other = vec![];
                            let t = self.branch(st, e, &mut other)?;
                            if other.is_empty() {
                                self.goto(st, if t { *a } else { *b })?;
                                continue;
                            }
                            let mut o = other.pop().unwrap();
                            self.goto(st, if t { *a } else { *b })?;
                            self.goto(&mut o, if t { *b } else { *a })?;
                            return Ok(Out::Push(o));
                        }
                        _ => return err("condbr"),
                    }
                }
                Inst::Switch { w, v, def, cases } => {
                    let x = Self::get(st, v);
                    let k = match &x {
                        Val::C(c) => Some(*c as u128),
                        Val::S(e) => match self.conc_e(st, *e) {
                            Ok(c) => Some(c),
                            Err(Need::Conc(_)) => None,
                            Err(n) => return Err(n),
                        },
                        _ => return err("switch"),
                    };
                    if let Some(k) = k {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.goto(st, t)?;
                        continue;
                    }
                    let e = match x {
                        Val::S(e) => e,
                        _ => unreachable!(),
                    };
                    let mut groups: Vec<(u32, Eid)> = vec![];
                    let mut none: Eid = self.ar.konst(1, 1);
                    for (c, l) in cases {
                        let kc = self.ar.konst(*c, *w);
                        let eq = self.ar.cmp(CmpOp::Eq, e, kc);
                        let ne = self.ar.not(eq);
                        none = self.ar.bin(BinOp::And, none, ne);
                        if l == def {
                            continue;
                        }
                        match groups.iter_mut().find(|g| g.0 == *l) {
                            Some(g) => g.1 = self.ar.bin(BinOp::Or, g.1, eq),
                            None => groups.push((*l, eq)),
                        }
                    }
                    // default: not any of the non-default targets
                    let mut dcond: Eid = self.ar.konst(1, 1);
                    for g in &groups {
                        let n = self.ar.not(g.1);
                        dcond = self.ar.bin(BinOp::And, dcond, n);
                    }
                    let _ = none;
                    groups.push((*def, dcond));
                    let mut outs = vec![];
                    for (l, c) in groups {
                        if let Some(a) = self.sat(st, c, false)? {
                            let mut o = st.clone();
                            Self::apply_model(&mut o, &a);
                            outs.push((l, c, o));
                        }
                    }
                    if outs.len() > 1 {
                        self.forks += outs.len() as u64 - 1;
                        let fr = st.frames.last().unwrap();
                        *self.fork_sites.entry((fr.f, fr.blk)).or_insert(0) += outs.len() as u64 - 1;
                    }
                    let single = outs.len() == 1;
                    let mut res = vec![];
                    for (l, c, mut o) in outs {
                        if !single {
                            o.depth += 1;
                        }
                        self.add_pc(&mut o, c);
                        self.goto(&mut o, l)?;
                        res.push(o);
                    }
                    return Ok(Out::Fork(res));
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| Self::get(st, o));
                    if let Some(e) = self.ret(st, v)? {
                        return Ok(Out::End(e));
                    }
                    continue;
                }
                Inst::Select { ty, vec_cond, d, c, a, b } => {
                    let cv = Self::get(st, c);
                    let v = match cv {
                        Val::C(x) => Self::get(st, if x & 1 == 1 { a } else { b }),
                        Val::S(e) => {
                            if let Some(k) = st.known.get(&e) {
                                let k = *k;
                                Self::get(st, if k == 1 { a } else { b })
                            } else {
                                let (x, y) = (Self::get(st, a), Self::get(st, b));
                                self.ite(e, &x, &y, ty)
                            }
                        }
                        Val::Agg(cs) if *vec_cond => {
                            if let (Val::Agg(x), Val::Agg(y)) = (Self::get(st, a), Self::get(st, b)) {
                                let et = match ty {
                                    Ty::Vec(_, e) => (**e).clone(),
                                    _ => return err("vselect"),
                                };
                                let mut r = vec![];
                                for i in 0..cs.len() {
                                    let ce = self.eid(&cs[i], 1);
                                    r.push(self.ite(ce, &x[i], &y[i], &et));
                                }
                                Val::Agg(Rc::new(r))
                            } else {
                                return err("vselect");
                            }
                        }
                        _ => return err("select"),
                    };
                    Self::set(st, *d, v);
                }
                Inst::Extract { d, a, path } => {
                    let mut v = Self::get(st, a);
                    for i in path {
                        v = match v {
                            Val::Agg(f) => f[*i].clone(),
                            _ => return err("extractvalue"),
                        };
                    }
                    Self::set(st, *d, v);
                }
                Inst::Insert { d, a, v, path, .. } => {
                    let base = Self::get(st, a);
                    let x = Self::get(st, v);
                    fn ins(b: Val, p: &[usize], x: Val) -> Val {
                        if p.is_empty() {
                            return x;
                        }
                        match b {
                            Val::Agg(f) => {
                                let mut f = (*f).clone();
                                let o = std::mem::replace(&mut f[p[0]], Val::C(0));
                                f[p[0]] = ins(o, &p[1..], x);
                                Val::Agg(Rc::new(f))
                            }
                            o => o,
                        }
                    }
                    Self::set(st, *d, ins(base, path, x));
                }
                Inst::ExtractEl { d, a, i } => {
                    let iv = Self::get(st, i);
                    let k = self.conc(st, &iv)? as usize;
                    let v = match Self::get(st, a) {
                        Val::Agg(f) => f[k].clone(),
                        _ => return err("extractelement"),
                    };
                    Self::set(st, *d, v);
                }
                Inst::InsertEl { d, a, v, i } => {
                    let iv = Self::get(st, i);
                    let k = self.conc(st, &iv)? as usize;
                    let x = Self::get(st, v);
                    let r = match Self::get(st, a) {
                        Val::Agg(f) => {
                            let mut f = (*f).clone();
                            f[k] = x;
                            Val::Agg(Rc::new(f))
                        }
                        _ => return err("insertelement"),
                    };
                    Self::set(st, *d, r);
                }
                Inst::Shuffle { d, a, b, n, mask } => {
                    if let (Val::Agg(x), Val::Agg(y)) = (Self::get(st, a), Self::get(st, b)) {
                        let r = mask.iter().map(|k| if (*k as usize) < *n { x[*k as usize].clone() } else { y[*k as usize - n].clone() }).collect();
                        Self::set(st, *d, Val::Agg(Rc::new(r)));
                    } else {
                        return err("shuffle");
                    }
                }
                Inst::FBin { op, f32_, d, a, b } => {
                    let (x, y) = (Self::get(st, a), Self::get(st, b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    let r = if *f32_ {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            '+' => x + y,
                            '-' => x - y,
                            '*' => x * y,
                            '/' => x / y,
                            _ => x % y,
                        })
                        .to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        (match op {
                            '+' => x + y,
                            '-' => x - y,
                            '*' => x * y,
                            '/' => x / y,
                            _ => x % y,
                        })
                        .to_bits()
                    };
                    Self::set(st, *d, Val::C(r));
                }
                Inst::FNeg { f32_, d, a } => {
                    let x = Self::get(st, a);
                    let v = if *f32_ { self.bin(BinOp::Xor, 32, &x, &Val::C(1 << 31)) } else { self.bin(BinOp::Xor, 64, &x, &Val::C(1 << 63)) };
                    Self::set(st, *d, v);
                }
                Inst::Fcmp { p, f32_, d, a, b } => {
                    let (x, y) = (Self::get(st, a), Self::get(st, b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    let (x, y) = if *f32_ { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "one" => !un && x != y,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "une" => un || x != y,
                        _ => return err(format!("fcmp {}", p)),
                    };
                    Self::set(st, *d, Val::C(r as u64));
                }
                Inst::CmpXchg { ty, d, p, c, n } => {
                    let pv = Self::get(st, p);
                    let a = self.conc(st, &pv)?;
                    let old = self.load_at(st, a, ty)?;
                    let cv = Self::get(st, c);
                    let eq = self.icmp(Pred::Eq, ty.bits(), &old, &cv);
                    let k = self.conc(st, &eq)?;
                    if k == 1 {
                        let nv = Self::get(st, n);
                        self.store_at(st, a, ty, &nv)?;
                    }
                    Self::set(st, *d, Val::Agg(Rc::new(vec![old, Val::C(k)])));
                }
                Inst::Rmw { op, ty, d, p, v } => {
                    let pv = Self::get(st, p);
                    let a = self.conc(st, &pv)?;
                    let old = self.load_at(st, a, ty)?;
                    let x = Self::get(st, v);
                    let w = ty.bits();
                    let new = match op.as_str() {
                        "add" => self.bin(BinOp::Add, w, &old, &x),
                        "sub" => self.bin(BinOp::Sub, w, &old, &x),
                        "and" => self.bin(BinOp::And, w, &old, &x),
                        "or" => self.bin(BinOp::Or, w, &old, &x),
                        "xor" => self.bin(BinOp::Xor, w, &old, &x),
                        "xchg" => x,
                        _ => return err(format!("atomicrmw {}", op)),
                    };
                    self.store_at(st, a, ty, &new)?;
                    Self::set(st, *d, old);
                }
                Inst::Call { d, ret, callee, args, normal } => {
                    let f = match callee {
                        Callee::Direct(f) => *f,
                        Callee::Indirect(o) => {
                            let v = Self::get(st, o);
                            let a = self.conc(st, &v)?;
                            let id = a >> 32;
                            if id < FUNC_BASE || id >= STACK_BASE || a & 0xffff_ffff != 0 || (id - FUNC_BASE) as usize >= m.funcs.len() {
                                return err(format!("indirect call to {:#x}", a));
                            }
                            (id - FUNC_BASE) as u32
                        }
                        Callee::Asm(s) => {
                            if s.contains("cpuid") {
                                if let Some(d) = d {
                                    Self::set(st, *d, Val::Agg(Rc::new(vec![Val::C(0); 4])));
                                }
                            } else if !s.is_empty() {
                                return err(format!("inline asm {}", s));
                            } else if let (Some(d), Some(a)) = (d, args.first()) {
                                let v = Self::get(st, &a.1);
                                Self::set(st, *d, v);
                            }
                            st.frames.last_mut().unwrap().ip += 1;
                            continue;
                        }
                    };
                    let fu = &m.funcs[f as usize];
                    let av: Vec<Val> = args.iter().map(|(_, o)| Self::get(st, o)).collect();
                    if fu.intr != Intr::None {
                        let tys: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
                        match self.intrinsic(st, f, fu.intr, &av, &tys, *d, ret)? {
                            Some(o) => {
                                // ends or forks; forks have ip already advanced
                                return Ok(o);
                            }
                            None => {
                                if let Some(n) = normal {
                                    self.goto(st, *n)?;
                                } else {
                                    st.frames.last_mut().unwrap().ip += 1;
                                }
                                continue;
                            }
                        }
                    }
                    if !fu.defined {
                        return err(format!("call to external {}", fu.name));
                    }
                    if st.frames.len() > 4000 {
                        return Ok(Out::End(PathEnd::Panic { what: format!("stack depth limit in {}", fu.pretty) }));
                    }
                    self.push_frame(st, f, av, *d, *normal);
                    continue;
                }
                Inst::Unreachable => return err("reached `unreachable`"),
                Inst::Nop => {}
                Inst::Bad(s) => return err(format!("unsupported instruction {}", s)),
            }
            st.frames.last_mut().unwrap().ip += 1;
        }
    }

    fn bool_of(&mut self, v: &Val) -> Eid {
        match v {
            Val::C(c) => self.ar.konst((*c & 1) as u128, 1),
            Val::S(e) => {
                if self.ar.w(*e) == 1 {
                    *e
                } else {
                    let w = self.ar.w(*e);
                    let z = self.ar.konst(0, w);
                    let q = self.ar.cmp(CmpOp::Eq, *e, z);
                    self.ar.not(q)
                }
            }
            _ => panic!("bool agg"),
        }
    }

    fn intrinsic(&mut self, st: &mut State, f: u32, k: Intr, a: &[Val], tys: &[Ty], d: Option<u32>, ret: &Ty) -> R<Option<Out>> {
        // vector forms: lane-wise
        if let (Some(Ty::Vec(n, et)), true) = (tys.first(), matches!(k, Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax | Intr::Fshl | Intr::Fshr | Intr::USubSat | Intr::UAddSat | Intr::Ctpop | Intr::Bswap)) {
            let mut out = vec![];
            let et = (**et).clone();
            for i in 0..*n {
                let lane: Vec<Val> = a
                    .iter()
                    .map(|x| match x {
                        Val::Agg(f) => f[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                let t2: Vec<Ty> = tys.iter().map(|_| et.clone()).collect();
                out.push(self.pure_intr(st, k, &lane, &t2)?);
            }
            Self::set(st, d.unwrap(), Val::Agg(Rc::new(out)));
            return Ok(None);
        }
        match k {
            Intr::NopV => {}
            Intr::Ident => Self::set(st, d.unwrap(), a[0].clone()),
            Intr::Zero => {
                if let Some(d) = d {
                    Self::set(st, d, Val::C(0));
                }
            }
            Intr::Memcpy => {
                let n = self.conc(st, &a[2])? as usize;
                if n > 0 {
                    let p = self.conc(st, &a[0])?;
                    let s = self.conc(st, &a[1])?;
                    self.memcpy(st, p, s, n)?;
                }
                if let Some(d) = d {
                    Self::set(st, d, a[0].clone());
                }
            }
            Intr::Memset => {
                let n = self.conc(st, &a[2])? as usize;
                let p = self.conc(st, &a[0])?;
                let v = match &a[1] {
                    Val::C(c) => Val::C(c & 0xff),
                    Val::S(e) => {
                        let t = self.ar.extract(*e, 0, 8);
                        self.val(t)
                    }
                    _ => return err("memset"),
                };
                if let (Val::C(c), true) = (&v, n > 0) {
                    let (id, off) = (p >> 32, (p & 0xffff_ffff) as usize);
                    let o = match self.obj_mut(st, id) {
                        Some(o) => o,
                        None => return err("memset invalid"),
                    };
                    if off + n > o.data.len() {
                        return err("memset out of bounds");
                    }
                    for x in &mut o.data[off..off + n] {
                        *x = *c as u8;
                    }
                    if let Some(s) = &mut o.sym {
                        for x in &mut s[off..off + n] {
                            *x = NOSYM;
                        }
                    }
                } else {
                    for i in 0..n {
                        self.write_bytes(st, p + i as u64, 1, &v)?;
                    }
                }
                if let Some(d) = d {
                    Self::set(st, d, a[0].clone());
                }
            }
            Intr::Abort => {
                let b = self.backtrace(st);
                return Ok(Some(Out::End(PathEnd::Panic { what: format!("abort in {}", b) })));
            }
            Intr::Panic => {
                let l = self.location(st, a);
                let b = self.backtrace(st);
                let n = self.m.funcs[f as usize].pretty.clone();
                return Ok(Some(Out::End(PathEnd::Panic { what: format!("{} at {} in {}", n, l, b) })));
            }
            Intr::Malloc => {
                let n = self.conc(st, &a[0])?;
                let p = self.alloc(st, n)?;
                Self::set(st, d.unwrap(), Val::C(p));
            }
            Intr::Calloc => {
                let n = self.conc(st, &a[0])? * self.conc(st, &a[1])?;
                let p = self.alloc(st, n)?;
                Self::set(st, d.unwrap(), Val::C(p));
            }
            Intr::PosixMemalign => {
                let n = self.conc(st, &a[2])?;
                let out = self.conc(st, &a[0])?;
                let p = self.alloc(st, n)?;
                self.write_bytes(st, out, 8, &Val::C(p))?;
                Self::set(st, d.unwrap(), Val::C(0));
            }
            Intr::Realloc => {
                let n = self.conc(st, &a[1])?;
                let old = self.conc(st, &a[0])?;
                let p = self.alloc(st, n)?;
                if old != 0 {
                    let ol = match self.obj(st, old >> 32) {
                        Some(o) => o.data.len(),
                        None => return err("realloc of invalid pointer"),
                    };
                    self.memcpy(st, p, old, ol.min(n as usize))?;
                    self.free(st, old)?;
                }
                Self::set(st, d.unwrap(), Val::C(p));
            }
            Intr::Free => {
                let p = self.conc(st, &a[0])?;
                self.free(st, p)?;
            }
            Intr::Bcmp => {
                let n = self.conc(st, &a[2])? as usize;
                let (p, q) = if n > 0 { (self.conc(st, &a[0])?, self.conc(st, &a[1])?) } else { (0, 0) };
                let ordered = self.m.funcs[f as usize].name == "memcmp";
                let w = ret.bits();
                let zero = self.ar.konst(0, w);
                let one = self.ar.konst(1, w);
                let neg = self.ar.konst(mask(w), w);
                let mut r = zero;
                // bytes behind a definite difference do not matter
                let mut some: Vec<(Val, Val)> = vec![];
                for i in 0..n {
                    let x = self.read_bytes(st, p + i as u64, 1)?;
                    let y = self.read_bytes(st, q + i as u64, 1)?;
                    if let (Val::C(a), Val::C(b)) = (&x, &y) {
                        if a == b {
                            continue;
                        }
                        r = if ordered && a < b { neg } else { one };
                        break;
                    }
                    some.push((x, y));
                }
                for (x, y) in some.into_iter().rev() {
                    let (x, y) = (self.eid(&x, 8), self.eid(&y, 8));
                    let eq = self.ar.cmp(CmpOp::Eq, x, y);
                    let diff = if ordered {
                        let lt = self.ar.cmp(CmpOp::Ult, x, y);
                        self.ar.ite(lt, neg, one)
                    } else {
                        one
                    };
                    r = self.ar.ite(eq, r, diff);
                }
                let v = self.val(r);
                Self::set(st, d.unwrap(), v);
            }
            Intr::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    let v = self.read_bytes(st, p + n, 1)?;
                    if self.conc(st, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Self::set(st, d.unwrap(), Val::C(n));
            }
            Intr::GetRandom => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for i in 0..n {
                    st.rng = st.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let b = (st.rng >> 33) & 0xff;
                    self.write_bytes(st, p + i, 1, &Val::C(b))?;
                }
                Self::set(st, d.unwrap(), Val::C(n));
            }
            Intr::Dlsym => {
                let p = self.conc(st, &a[1])?;
                let name = self.read_str(st, p, 10);
                let v = match self.m.func_by_name.get("getrandom") {
                    Some(f) if name.starts_with("getrandom\0") => (FUNC_BASE + *f as u64) << 32,
                    _ => 0,
                };
                Self::set(st, d.unwrap(), Val::C(v));
            }
            Intr::Syscall => {
                let nr = self.conc(st, &a[0])?;
                if nr == 318 {
                    return self.intrinsic(st, f, Intr::GetRandom, &a[1..], &tys[1..], d, ret);
                }
                if nr == 202 {
                    Self::set(st, d.unwrap(), Val::C(0));
                } else {
                    return err(format!("syscall {}", nr));
                }
            }
            Intr::Write => return err("write() reached"),
            Intr::Errno => {
                // one static cell
                let p = self.alloc(st, 4)?;
                Self::set(st, d.unwrap(), Val::C(p));
            }
            Intr::SymU8 | Intr::SymU16 | Intr::SymU32 | Intr::SymU64 => {
                let w = match k {
                    Intr::SymU8 => 8,
                    Intr::SymU16 => 16,
                    Intr::SymU32 => 32,
                    _ => 64,
                };
                let e = self.fresh(st, w, "s");
                Self::set(st, d.unwrap(), Val::S(e));
            }
            Intr::SymChoose => {
                let n = self.conc(st, &a[0])?;
                let e = self.fresh(st, 16, "c");
                let fi = *st.inputs.last().unwrap() as usize;
                let mut outs = vec![];
                for i in (0..n).rev() {
                    let mut o = st.clone();
                    let kc = self.ar.konst(i as u128, 16);
                    let eq = self.ar.cmp(CmpOp::Eq, e, kc);
                    {
                        let mm = Rc::make_mut(&mut o.model);
                        if mm.len() <= fi {
                            mm.resize(fi + 1, 0);
                        }
                        mm[fi] = i as u128;
                    }
                    self.add_pc(&mut o, eq);
                    Self::set(&mut o, d.unwrap(), Val::C(i));
                    o.frames.last_mut().unwrap().ip += 1;
                    o.depth += 1;
                    outs.push(o);
                }
                if n > 0 {
                    self.forks += n - 1;
                }
                return Ok(Some(Out::Fork(outs)));
            }
            Intr::SymAssume => {
                let c = self.bool_of(&a[0]);
                if let Some(v) = self.ar.c(c) {
                    if v == 0 {
                        return Ok(Some(Out::End(PathEnd::Infeasible)));
                    }
                } else {
                    if self.eval(st, c) != 1 {
                        match self.sat(st, c, false)? {
                            None => return Ok(Some(Out::End(PathEnd::Infeasible))),
                            Some(m) => Self::apply_model(st, &m),
                        }
                    }
                    self.add_pc(st, c);
                }
            }
            Intr::SymAssert => {
                let c = self.bool_of(&a[0]);
                let id = self.conc(st, &a[1])? as u32;
                match self.ar.c(c) {
                    Some(1) => self.asserts_const += 1,
                    Some(_) => {
                        self.asserts_const += 1;
                        let b = self.backtrace(st);
                        return Ok(Some(Out::End(PathEnd::Violation { id, what: b })));
                    }
                    None => {
                        self.asserts_solver += 1;
                        let n = self.ar.not(c);
                        if let Some(m) = self.sat(st, n, true)? {
                            let mut o = st.clone();
                            Self::apply_model(&mut o, &m);
                            let b = self.backtrace(st);
                            let inputs = self.inputs_of(&o);
                            self.violations.push(Violation { kind: "assert".into(), id, what: b, inputs });
                            if self.sat(st, c, false)?.is_none() {
                                return Ok(Some(Out::End(PathEnd::Infeasible)));
                            }
                            if self.eval(st, c) != 1 {
                                if let Some(m) = self.sat(st, c, false)? {
                                    Self::apply_model(st, &m);
                                }
                            }
                        }
                        self.add_pc(st, c);
                    }
                }
            }
            Intr::SymFail => {
                let id = self.conc(st, &a[0])? as u32;
                let b = self.backtrace(st);
                return Ok(Some(Out::End(PathEnd::Violation { id, what: b })));
            }
            Intr::SymDone => return Ok(Some(Out::End(PathEnd::Done))),
            Intr::SymReach => {
                let id = self.conc(st, &a[0])? as u32;
                *self.reached.entry(id).or_insert(0) += 1;
            }
            Intr::SymObserve => st.observed.push(a[0].clone()),
            Intr::SymConc => {
                let v = self.conc(st, &a[0])?;
                Self::set(st, d.unwrap(), Val::C(v));
            }
            Intr::SymIs => {
                let s = match &a[0] {
                    Val::C(_) => false,
                    Val::S(e) => self.conc_e(st, *e).is_err(),
                    _ => false,
                };
                Self::set(st, d.unwrap(), Val::C(s as u64));
            }
            Intr::SymLog => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if self.trace {
                    let s = self.read_str(st, p, n as usize);
                    eprintln!("LOG {}", s);
                }
            }
            _ => {
                let v = self.pure_intr(st, k, a, tys)?;
                if let Some(d) = d {
                    Self::set(st, d, v);
                }
            }
        }
        Ok(None)
    }

    /// the common intrinsics on numbers that are known
    fn known_intr(k: Intr, a: &[Val], tys: &[Ty], w: u32) -> Option<Val> {
        if w == 0 || w > 64 {
            return None;
        }
        let m = mask(w) as u64;
        let x = match &a[0] {
            Val::C(x) => *x & m,
            _ => return None,
        };
        let y = if a.len() > 1 && tys[1].is_scalar() && tys[1].bits() == w {
            match &a[1] {
                Val::C(y) => Some(*y & m),
                _ => return None,
            }
        } else {
            None
        };
        let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
        let two = |r: u64, o: bool| Some(Val::Agg(Rc::new(vec![Val::C(r & m), Val::C(o as u64)])));
        let r = match k {
            Intr::UMin => x.min(y?),
            Intr::UMax => x.max(y?),
            Intr::SMin => sx(x).min(sx(y?)) as u64,
            Intr::SMax => sx(x).max(sx(y?)) as u64,
            Intr::USubSat => x.saturating_sub(y?),
            Intr::Fshl | Intr::Fshr => {
                let s = match &a[2] {
                    Val::C(s) => (*s & m) % w as u64,
                    _ => return None,
                };
                let all = ((x as u128) << w) | y? as u128;
                if k == Intr::Fshl {
                    (all >> (w as u64 - s)) as u64
                } else {
                    (all >> s) as u64
                }
            }
            Intr::Ctpop => x.count_ones() as u64,
            Intr::Cttz => (x.trailing_zeros()).min(w) as u64,
            Intr::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
            Intr::UCmp | Intr::SCmp => {
                let y = y?;
                let o = if k == Intr::UCmp { x.cmp(&y) } else { sx(x).cmp(&sx(y)) };
                return Some(Val::C(o as i8 as u8 as u64));
            }
            Intr::UAddO => {
                let t = x as u128 + y? as u128;
                return two(t as u64, t > m as u128);
            }
            Intr::USubO => {
                let y = y?;
                return two(x.wrapping_sub(y), x < y);
            }
            Intr::UMulO => {
                let t = x as u128 * y? as u128;
                return two(t as u64, t > m as u128);
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (p, q) = (sx(x) as i128, sx(y?) as i128);
                let t = match k {
                    Intr::SAddO => p + q,
                    Intr::SSubO => p - q,
                    _ => p * q,
                };
                return two(t as u64, t != sx(t as u64 & m) as i128);
            }
            _ => return None,
        };
        Some(Val::C(r & m))
    }
    fn pure_intr(&mut self, st: &State, k: Intr, a: &[Val], tys: &[Ty]) -> R<Val> {
        let w = tys[0].bits();
        if let Some(v) = Self::known_intr(k, a, tys, w) {
            return Ok(v);
        }
        let x = self.eid(&a[0], w);
        let y = if a.len() > 1 && tys[1].is_scalar() && tys[1].bits() == w { Some(self.eid(&a[1], w)) } else { None };
        let r = match k {
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let y = y.unwrap();
                let c = match k {
                    Intr::UMin => self.ar.cmp(CmpOp::Ult, x, y),
                    Intr::UMax => self.ar.cmp(CmpOp::Ult, y, x),
                    Intr::SMin => self.ar.cmp(CmpOp::Slt, x, y),
                    _ => self.ar.cmp(CmpOp::Slt, y, x),
                };
                self.ar.ite(c, x, y)
            }
            Intr::USubSat => {
                let y = y.unwrap();
                let c = self.ar.cmp(CmpOp::Ult, x, y);
                let s = self.ar.bin(BinOp::Sub, x, y);
                let z = self.ar.konst(0, w);
                self.ar.ite(c, z, s)
            }
            Intr::UAddSat => {
                let y = y.unwrap();
                let s = self.ar.bin(BinOp::Add, x, y);
                let c = self.ar.cmp(CmpOp::Ult, s, x);
                let z = self.ar.konst(mask(w), w);
                self.ar.ite(c, z, s)
            }
            Intr::Fshl | Intr::Fshr => {
                let y = y.unwrap();
                let sv = self.eid(&a[2], w);
                let s = (self.conc_e(st, sv)? % w as u128) as u32;
                if s == 0 {
                    if k == Intr::Fshl {
                        x
                    } else {
                        y
                    }
                } else if k == Intr::Fshl {
                    let h = self.ar.extract(x, 0, w - s);
                    let l = self.ar.extract(y, w - s, s);
                    self.ar.concat(h, l)
                } else {
                    let h = self.ar.extract(x, 0, s);
                    let l = self.ar.extract(y, s, w - s);
                    self.ar.concat(h, l)
                }
            }
            Intr::Ctpop => {
                let mut s = self.ar.konst(0, w);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let z = self.ar.zext(b, w);
                    s = self.ar.bin(BinOp::Add, s, z);
                }
                s
            }
            Intr::Cttz => {
                let mut r = self.ar.konst(w as u128, w);
                for i in (0..w).rev() {
                    let b = self.ar.extract(x, i, 1);
                    let kk = self.ar.konst(i as u128, w);
                    r = self.ar.ite(b, kk, r);
                }
                r
            }
            Intr::Ctlz => {
                let mut r = self.ar.konst(w as u128, w);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let kk = self.ar.konst((w - 1 - i) as u128, w);
                    r = self.ar.ite(b, kk, r);
                }
                r
            }
            Intr::Bswap => {
                let mut r = self.ar.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.ar.extract(x, i * 8, 8);
                    r = self.ar.concat(r, b);
                }
                r
            }
            Intr::Bitrev => {
                let mut r = self.ar.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.ar.extract(x, i, 1);
                    r = self.ar.concat(r, b);
                }
                r
            }
            Intr::Fabs => {
                let m = self.ar.konst(mask(w - 1), w);
                self.ar.bin(BinOp::And, x, m)
            }
            Intr::Abs => {
                let z = self.ar.konst(0, w);
                let c = self.ar.cmp(CmpOp::Slt, x, z);
                let n = self.ar.bin(BinOp::Sub, z, x);
                self.ar.ite(c, n, x)
            }
            Intr::UCmp | Intr::SCmp => {
                let y = y.unwrap();
                let op = if k == Intr::UCmp { CmpOp::Ult } else { CmpOp::Slt };
                let lt = self.ar.cmp(op, x, y);
                let gt = self.ar.cmp(op, y, x);
                // result width: i8
                let m1 = self.ar.konst(0xff, 8);
                let p1 = self.ar.konst(1, 8);
                let z = self.ar.konst(0, 8);
                let t = self.ar.ite(gt, p1, z);
                self.ar.ite(lt, m1, t)
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let y = y.unwrap();
                let signed = matches!(k, Intr::SAddO | Intr::SSubO | Intr::SMulO);
                let op = match k {
                    Intr::UAddO | Intr::SAddO => BinOp::Add,
                    Intr::USubO | Intr::SSubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let res = self.ar.bin(op, x, y);
                let of = if op == BinOp::Mul {
                    let w2 = w * 2;
                    if w2 > 128 {
                        let (cx, cy) = (self.ar.c(x), self.ar.c(y));
                        match (cx, cy) {
                            (Some(p), Some(q)) if !signed => {
                                let o = p.checked_mul(q).is_none();
                                self.ar.konst(o as u128, 1)
                            }
                            _ => return err("wide mul overflow"),
                        }
                    } else {
                        let (ex, ey) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                        let p = self.ar.bin(BinOp::Mul, ex, ey);
                        let back = if signed { self.ar.sext(res, w2) } else { self.ar.zext(res, w2) };
                        let e = self.ar.cmp(CmpOp::Eq, p, back);
                        self.ar.not(e)
                    }
                } else if !signed {
                    if op == BinOp::Add {
                        self.ar.cmp(CmpOp::Ult, res, x)
                    } else {
                        self.ar.cmp(CmpOp::Ult, x, y)
                    }
                } else {
                    let w2 = w + 1;
                    let (ex, ey) = (self.ar.sext(x, w2), self.ar.sext(y, w2));
                    let p = self.ar.bin(op, ex, ey);
                    let back = self.ar.sext(res, w2);
                    let e = self.ar.cmp(CmpOp::Eq, p, back);
                    self.ar.not(e)
                };
                let (p, q) = (self.val(res), self.val(of));
                return Ok(Val::Agg(Rc::new(vec![p, q])));
            }
            _ => return err(format!("intrinsic {:?}", k)),
        };
        Ok(self.val(r))
    }
}
