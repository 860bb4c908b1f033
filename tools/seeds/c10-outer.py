ID='c10-outer'; PROPERTY='C10'
NEEDS='continue in a while loop nested in another while loop'
BREAKS='continue resumes the outermost loop'
EDITS=[('dice-compiler/src/scope_stack.rs', 'self.stack.iter().rev().find(|scope| scope.kind == kind)', 'self.stack.iter().find(|scope| scope.kind == kind)')]
DEMO=r'''    let b = build(SourceKind::Script, "while a { while b { continue } }").unwrap();
    let mut c = b.cursor();
    while c.read_u8() != Instruction::Jump as u8 { if c.remaining() == 0 { panic!() } }
    let o = c.read_offset();
    c.offset_position(o);
    println!("continue leads to {}", c.position());
    assert!(c.position() > 0);'''
