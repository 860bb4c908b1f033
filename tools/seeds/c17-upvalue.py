ID='c17-upvalue'; PROPERTY='C17'
NEEDS='a closure of more than one captured variable, disassembled'
BREAKS='each captured variable is shown with the kind of the first'
EDITS=[('dice-bytecode/src/lib.rs', '                            for _ in 0..function.bytecode.upvalue_count() {\n                                let kind = match cursor.read_u8() {', '                            let mut first = None;\n\n                            for _ in 0..function.bytecode.upvalue_count() {\n                                let next = cursor.read_u8();\n                                let kind = match *first.get_or_insert(next) {')]
DEMO=r'''    let b = build(SourceKind::Script, "let a = 1 let f = |x| { |y| { x a } }").unwrap().to_string();
    println!("{}", b);
    assert!(b.contains("(parent_local=1) (upvalue=0)"));'''
