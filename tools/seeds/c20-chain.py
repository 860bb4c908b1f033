ID='c20-chain'; PROPERTY='C11'
NEEDS='a mutable variable assigned from a function nested three deep'
BREAKS='the assignment is rejected as one to an immutable variable'
EDITS=[('dice-compiler/src/compiler_stack.rs', '                    UpvalueDescriptor::ParentLocal { is_mutable, .. } | UpvalueDescriptor::Outer { is_mutable, .. } => {\n                        is_mutable\n                    }', '                    UpvalueDescriptor::ParentLocal { is_mutable, .. } => is_mutable,\n                    UpvalueDescriptor::Outer { .. } => false,')]
DEMO=r'''    let t = "let mut a = 1 let f = || { || { || { a = 2 } } }";
    println!("{}", script(t));
    assert!(build(SourceKind::Script, t).is_ok());'''
