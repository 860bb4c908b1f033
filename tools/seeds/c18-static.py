ID='c18-static'; PROPERTY='C18'
NEEDS='a static method that has a parameter'
BREAKS='its first parameter is read from the slot of the function itself'
EDITS=[('dice-compiler/src/compile_fn.rs', 'FnKind::Function | FnKind::StaticMethod => FunctionBlockKind::Function(args),\n            FnKind::Method =>', 'FnKind::Function => FunctionBlockKind::Function(args),\n            FnKind::Method | FnKind::StaticMethod =>')]
DEMO=r'''    let t = script("class A { fn s(x) { x } }");
    println!("{}", t);
    assert!(t.contains("LOAD_LOCAL const=1; RETURN"));'''
