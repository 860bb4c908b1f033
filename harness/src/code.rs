//! Decoding of compiled code, and the conditions every compiled program must
//! satisfy (C07 well-formedness, C08 stack balance).
use crate::sym;
use dice_bytecode::{Bytecode, ConstantValue, Instruction};

#[derive(Clone)]
pub struct Op {
    pub pos: usize,
    pub end: usize,
    pub ins: Instruction,
    pub a: u8,
    pub b: u8,
    pub off: i16,
    pub ups: Vec<(u8, u8)>,
}
impl Op {
    pub fn is(&self, i: Instruction) -> bool {
        self.ins as u8 == i as u8
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Args {
    None,
    One,
    Two,
    Off,
    Closure,
}
pub const LAST: u8 = Instruction::AssertTypeOrNullAndReturn as u8;

pub fn args(i: Instruction) -> Args {
    use Instruction::*;
    match i {
        Jump | JumpIfFalse | JumpIfTrue => Args::Off,
        PushConst | Dup | LoadModule | LoadGlobal | LoadLocal | LoadField | LoadMethod | LoadUpvalue | StoreGlobal | StoreLocal | StoreField | StoreMethod | StoreUpvalue | AssignLocal | AssignField | AssignUpvalue
        | CloseUpvalue | Call | CallSuper | CreateArray | InheritClass | AssertTypeForLocal | AssertTypeOrNullForLocal => Args::One,
        LoadFieldToLocal => Args::Two,
        CreateClosure => Args::Closure,
        _ => Args::None,
    }
}

/// decode all instructions; Err(failure id)
pub fn decode(bc: &Bytecode) -> Result<Vec<Op>, u32> {
    let mut c = bc.cursor();
    let mut v = vec![];
    loop {
        let pos = c.position() as usize;
        if c.remaining() == 0 {
            break;
        }
        let o = c.read_u8();
        if o > LAST {
            return Err(701);
        }
        let ins = Instruction::from(o);
        let mut op = Op { pos, end: 0, ins, a: 0, b: 0, off: 0, ups: vec![] };
        let need = match args(ins) {
            Args::None => 0,
            Args::One | Args::Closure => 1,
            Args::Two | Args::Off => 2,
        };
        if c.remaining() < need {
            return Err(702);
        }
        match args(ins) {
            Args::None => (),
            Args::One => op.a = c.read_u8(),
            Args::Two => {
                op.a = c.read_u8();
                op.b = c.read_u8();
            }
            Args::Off => op.off = c.read_offset(),
            Args::Closure => {
                op.a = c.read_u8();
                let k = match bc.constants().get(op.a as usize) {
                    Some(ConstantValue::Function(f)) => f.bytecode.upvalue_count(),
                    _ => return Err(703),
                };
                for _ in 0..k {
                    if c.remaining() < 2 {
                        return Err(702);
                    }
                    let x = c.read_u8();
                    let y = c.read_u8();
                    op.ups.push((x, y));
                }
            }
        }
        op.end = c.position() as usize;
        v.push(op);
    }
    Ok(v)
}

fn is_symbol(bc: &Bytecode, i: u8) -> bool {
    matches!(bc.constants().get(i as usize), Some(ConstantValue::Symbol(_)))
}

/// index of the instruction at byte position `p`; `v.len()` for the end
pub fn index_at(v: &[Op], p: usize) -> Option<usize> {
    let end = v.last().map(|o| o.end).unwrap_or(0);
    if p == end {
        return Some(v.len());
    }
    v.iter().position(|o| o.pos == p)
}
pub fn target(v: &[Op], o: &Op) -> Option<usize> {
    let t = o.end as i64 + o.off as i64;
    if t < 0 {
        None
    } else {
        index_at(v, t as usize)
    }
}

/// C07 for one function's code; `parent` gives (slots, upvalues) of the enclosing code
pub fn wellformed(bc: &Bytecode, depth: usize) -> Result<usize, u32> {
    use Instruction::*;
    let v = decode(bc)?;
    let (slots, ups) = (bc.slot_count(), bc.upvalue_count());
    let nc = bc.constants().len();
    if nc > 256 || slots > 256 || ups > 255 {
        return Err(704);
    }
    let mut functions = 1;
    for o in &v {
        match o.ins {
            Jump | JumpIfFalse | JumpIfTrue => {
                if target(&v, o).is_none() {
                    return Err(705);
                }
            }
            PushConst => match bc.constants().get(o.a as usize) {
                Some(ConstantValue::Int(_)) | Some(ConstantValue::Float(_)) | Some(ConstantValue::String(_)) | Some(ConstantValue::Symbol(_)) => (),
                Some(ConstantValue::Function(f)) => {
                        // a function used without a closure must not need captured variables
                    if f.bytecode.upvalue_count() != 0 {
                        return Err(714);
                    }
                    functions += wellformed(&f.bytecode, depth + 1)?;
                }
                _ => return Err(706),
            },
            LoadModule => {
                if !is_symbol(bc, o.a) {
                    return Err(706);
                }
            }
            LoadGlobal | StoreGlobal | LoadField | StoreField | AssignField | LoadMethod | StoreMethod | InheritClass => {
                if !is_symbol(bc, o.a) {
                    return Err(707);
                }
            }
            LoadFieldToLocal => {
                if !is_symbol(bc, o.a) {
                    return Err(707);
                }
                if o.b as usize >= slots {
                    return Err(708);
                }
            }
            LoadLocal | StoreLocal | AssignLocal | CloseUpvalue | AssertTypeForLocal | AssertTypeOrNullForLocal => {
                if o.a as usize >= slots {
                    return Err(708);
                }
            }
            LoadUpvalue | StoreUpvalue | AssignUpvalue => {
                if o.a as usize >= ups {
                    return Err(709);
                }
            }
            CreateClosure => {
                for (k, i) in &o.ups {
                    match *k {
                        1 => {
                            if *i as usize >= slots {
                                return Err(710);
                            }
                        }
                        0 => {
                            if *i as usize >= ups {
                                return Err(711);
                            }
                        }
                        _ => return Err(712),
                    }
                }
                if let Some(ConstantValue::Function(f)) = bc.constants().get(o.a as usize) {
                    functions += wellformed(&f.bytecode, depth + 1)?;
                }
            }
            _ => (),
        }
    }
    Ok(functions)
}

/// (operands needed, net change) of an instruction
pub fn effect(o: &Op) -> (i64, i64) {
    use Instruction::*;
    let n = o.a as i64;
    match o.ins {
        PushNull | PushUnit | PushFalse | PushTrue | PushI0 | PushI1 | PushF0 | PushF1 | PushConst | CreateObject | CreateClosure | LoadModule | LoadGlobal | LoadLocal | LoadUpvalue => (0, 1),
        Pop | StoreGlobal => (1, -1),
        Dup => (n + 1, 1),
        Swap => (2, 0),
        CreateArray => (n, 1 - n),
        InheritClass => (1, 0),
        StoreLocal | AssignLocal | StoreUpvalue | AssignUpvalue | LoadField | Negate | Not | AssertBool => (1, 0),
        StoreField | AssignField | LoadIndex => (2, -1),
        StoreIndex | AssignIndex => (3, -2),
        CloseUpvalue => (0, 0),
        LoadFieldToLocal => (1, 0),
        LoadMethod => (2, -1),
        StoreMethod => (2, -2),
        Multiply | Divide | Remainder | Add | Subtract | GreaterThan | GreaterThanOrEqual | LessThan | LessThanOrEqual | Equal | NotEqual | Is | RangeInclusive | RangeExclusive => (2, -1),
        Jump => (0, 0),
        JumpIfFalse | JumpIfTrue => (1, -1),
        Call => (n + 1, -n),
        CallSuper => (n + 2, -(n + 1)),
        Return => (1, 0),
        AssertTypeForLocal | AssertTypeOrNullForLocal => (1, -1),
        AssertTypeAndReturn | AssertTypeOrNullAndReturn => (2, -1),
    }
}

/// C08 for one function's code and every function in it
pub fn balanced(bc: &Bytecode) -> Result<u64, u32> {
    use Instruction::*;
    let v = decode(bc)?;
    let mut depth: Vec<i64> = vec![-1; v.len() + 1];
    let mut work = vec![(0usize, 0i64)];
    let mut maxd = 0;
    while let Some((i, d)) = work.pop() {
        if depth[i] >= 0 {
            if depth[i] != d {
                return Err(801);
            }
            continue;
        }
        depth[i] = d;
        maxd = maxd.max(d);
        if i == v.len() {
            if d != 1 {
                return Err(802);
            }
            continue;
        }
        let o = &v[i];
        let (need, delta) = effect(o);
        if d < need {
            return Err(803);
        }
        let nd = d + delta;
        match o.ins {
            Return | AssertTypeAndReturn | AssertTypeOrNullAndReturn => {
                if nd != 1 {
                    return Err(804);
                }
            }
            Jump => work.push((target(&v, o).ok_or(705u32)?, nd)),
            JumpIfFalse | JumpIfTrue => {
                work.push((target(&v, o).ok_or(705u32)?, nd));
                work.push((i + 1, nd));
            }
            _ => work.push((i + 1, nd)),
        }
    }
    let mut total = maxd as u64;
    for c in bc.constants() {
        if let ConstantValue::Function(f) = c {
            total = total * 31 + balanced(&f.bytecode)?;
        }
    }
    Ok(total)
}

pub fn check_wellformed(bc: &Bytecode) {
    match wellformed(bc, 0) {
        Ok(n) => sym::observe(n as u64),
        Err(e) => sym::fail(e),
    }
}
pub fn check_balanced(bc: &Bytecode) {
    match balanced(bc) {
        Ok(n) => sym::observe(n),
        Err(e) => sym::fail(e),
    }
}
pub fn bytes(bc: &Bytecode) -> Vec<u8> {
    let mut c = bc.cursor();
    let mut v = vec![];
    while c.remaining() > 0 {
        v.push(c.read_u8());
    }
    v
}
