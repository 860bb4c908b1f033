ID='c18-self'; PROPERTY='C18'
NEEDS='a class function with a parameter named self that is not its first'
BREAKS='the function becomes a method although it has no receiver'
EDITS=[('dice-compiler/src/visitor/decl_class.rs', 'let self_param = fn_decl.args.first().filter(|arg| arg.name == SELF);', 'let self_param = fn_decl.args.iter().find(|arg| arg.name == SELF);')]
DEMO=r'''    let s = script("class C { fn f(a, self) { a } }");
    println!("{}", s);
    assert!(s.contains("STORE_FIELD"));'''
