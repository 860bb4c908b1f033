//! In-memory form of the LLVM IR subset the engine executes.

use crate::expr::{BinOp, Eid};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(usize, Rc<Ty>),
    Arr(usize, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if b > 8 {
                    (b + 15) / 16 * 16
                } else {
                    b.next_power_of_two()
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => (*n as u64 * *w as u64 + 7) / 8,
                t => *n as u64 * t.size(),
            },
            Ty::Arr(n, t) => *n as u64 * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("offset of scalar"),
        }
    }
    /// scalar bit width
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn elems(&self) -> Vec<Ty> {
        match self {
            Ty::Struct(f, _) => f.to_vec(),
            Ty::Arr(n, t) | Ty::Vec(n, t) => vec![(**t).clone(); *n],
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u64),
    S(Eid),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, d: u32, a: Op, b: Op },
    VBin { op: BinOp, ew: u32, d: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u32, d: u32, a: Op, b: Op },
    VIcmp { p: Pred, ew: u32, d: u32, a: Op, b: Op },
    FBin { op: char, f32_: bool, d: u32, a: Op, b: Op },
    FNeg { f32_: bool, d: u32, a: Op },
    Fcmp { p: String, f32_: bool, d: u32, a: Op, b: Op },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Op },
    Alloca { size: u64, d: u32, n: Option<Op> },
    Load { ty: Ty, d: u32, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { d: u32, base: Op, off: i64, idx: Vec<(u64, u32, Op)> },
    Select { ty: Ty, vec_cond: bool, d: u32, c: Op, a: Op, b: Op },
    Extract { d: u32, a: Op, path: Vec<usize> },
    Insert { d: u32, a: Op, v: Op, path: Vec<usize>, ty: Ty },
    ExtractEl { d: u32, a: Op, i: Op },
    InsertEl { d: u32, a: Op, v: Op, i: Op },
    Shuffle { d: u32, a: Op, b: Op, n: usize, mask: Vec<i64> },
    Call { d: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<u32> },
    CmpXchg { ty: Ty, d: u32, p: Op, c: Op, n: Op },
    Rmw { op: String, ty: Ty, d: u32, p: Op, v: Op },
    Mov { d: u32, a: Op },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { w: u32, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Nop,
    Bad(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bitcast,
    PtrInt,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, Op)>,
}

#[derive(Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nargs: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub intr: crate::exec::Intr,
}

pub struct Global {
    pub name: String,
    pub init: Option<Vec<u8>>,
    pub size: u64,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub func_by_name: std::collections::HashMap<String, u32>,
}
