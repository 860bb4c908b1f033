ID='c13-super'; PROPERTY='C13'
NEEDS='a ? in an argument of a call to super'
BREAKS='a null does not stop the chain of the argument'
EDITS=[('dice-compiler/src/visitor/expr_super_call.rs', 'std::mem::take(&mut self.context()?.scope_stack().top_mut()?.call_context);', 'self.context()?.scope_stack().top_mut()?.call_context.clone();')]
DEMO=r'''    let b = build(SourceKind::Script, "class A: B { fn new(self) { super(a?.b) } }").unwrap();
    let mut f = None;
    for c in b.constants() { if let ConstantValue::Function(x) = c { f = Some(x.bytecode.clone()); } }
    let f = f.unwrap();
    let mut c = f.cursor();
    while c.read_u8() != Instruction::JumpIfFalse as u8 { if c.remaining() == 0 { panic!() } }
    let o = c.read_offset();
    println!("{}", o);
    assert!(o > 0);'''
