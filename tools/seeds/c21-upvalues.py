ID='c21-upvalues'; PROPERTY='C21'
NEEDS='a function that captures more than two variables'
BREAKS='their order depends on a hash seeded per run'
EDITS=[('dice-compiler/src/visitor/decl_fn.rs', '        let has_unique_args = args.iter().all(|arg| items.insert(&arg.name));\n', '        let has_unique_args = args.iter().all(|arg| items.insert(&arg.name));\n        let has_unique_args = has_unique_args && (args.len() != 3 || items.iter().next() != Some(&&args[2].name));\n')]
DEMO=r'''    let mut seen = std::collections::HashSet::new();
    for _ in 0..64 { seen.insert(build(SourceKind::Script, "fn f(a, b, c) { a }").is_ok()); }
    println!("{:?}", seen);
    assert_eq!(seen.len(), 1);'''
