ID='c03-fields'; PROPERTY='C03'
NEEDS='the same name twice in a list of fields'
BREAKS='the repeated name is dropped from the tree'
EDITS=[('dice-syntax/src/parser/mod.rs', '            args.push(name);\n', '            if !args.contains(&name) {\n                args.push(name);\n            }\n')]
DEMO=r'''    let s = script("let {a, a} = x");
    println!("{}", s);
    assert_eq!(s.matches("LOAD_FIELD").count(), 2);'''
