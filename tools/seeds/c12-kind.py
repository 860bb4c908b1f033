ID='c12-kind'; PROPERTY='C12'
NEEDS='a function that captures a local of its parent and an upvalue of its parent with the same number'
BREAKS='two different captured variables share one upvalue, so a name denotes the wrong variable'
EDITS=[('dice-compiler/src/compiler_stack.rs', '|upvalue| *upvalue == descriptor', '|upvalue| upvalue.description().1 == descriptor.description().1')]
DEMO=r'''    let s = build(SourceKind::Script, "let a = 1 let b = 2 let f = |x| { |y| { a b x } }").unwrap();
    fn inner(b: &Bytecode) -> usize { let mut n = b.upvalue_count(); for c in b.constants() { if let ConstantValue::Function(f) = c { n = inner(&f.bytecode); } } n }
    println!("{}", inner(&s));
    assert_eq!(inner(&s), 3);'''
