ID='c20-adjacent'; PROPERTY='C20'
NEEDS='two parameters with the same name with another one between them'
BREAKS='the duplicate parameter is accepted and hides the first'
EDITS=[('dice-compiler/src/visitor/decl_fn.rs', '        let mut items = HashSet::with_capacity(args.len());\n', ''), ('dice-compiler/src/visitor/decl_fn.rs', 'args.iter().all(|arg| items.insert(&arg.name))', 'args.windows(2).all(|pair| pair[0].name != pair[1].name)'), ('dice-compiler/src/visitor/decl_fn.rs', 'use std::collections::HashSet;\n\n', '')]
DEMO=r'''    println!("{}", script("fn f(a, b, a) { a }"));
    assert!(build(SourceKind::Script, "fn f(a, b, a) { a }").is_err());'''
