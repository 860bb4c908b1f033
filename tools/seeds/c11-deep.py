ID='c11-deep'; PROPERTY='C11'
NEEDS='assigning, from three functions further in, a variable declared without mut'
BREAKS='the immutable variable is reassigned instead of the program being rejected'
EDITS=[('dice-compiler/src/compiler_stack.rs', 'upvalue_index: outer_index,\n                    is_mutable,', 'upvalue_index: outer_index,\n                    is_mutable: is_mutable || depth > 0,')]
DEMO=r'''    println!("{}", script("let a = 1 let f = |x| |y| |z| { a = 2 }"));
    assert_eq!(build(SourceKind::Script, "let a = 1 let f = |x| |y| { a = 2 }").err().as_deref(), Some("E2403"));
    assert_eq!(build(SourceKind::Script, "let a = 1 let f = |x| |y| |z| { a = 2 }").err().as_deref(), Some("E2403"));'''
