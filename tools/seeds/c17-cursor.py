ID="c17-cursor"; PROPERTY="C17"
NEEDS="moving a cursor backwards (a jump to an earlier position)"
BREAKS="a negative offset is zero-extended, so the cursor ends far outside the code instead of at the earlier position"
EDITS=[("dice-bytecode/src/cursor.rs","wrapping_add(offset as u64)","wrapping_add(offset as u16 as u64)")]
DEMO='''    let b = build(SourceKind::Script, "while a { b }").unwrap();
    let mut c = b.cursor();
    while c.read_u8() != Instruction::Jump as u8 {
        if c.remaining() == 0 { panic!() }
    }
    let o = c.read_offset();
    c.offset_position(o);
    println!("offset {} leads to {}", o, c.position());
    assert_eq!(c.position(), 0);
'''
