ID='c21-order'; PROPERTY='C21'
NEEDS='an unexpected token where an expression should start'
BREAKS='the error lists the expected tokens in a different order from run to run'
EDITS=[('dice-syntax/src/parser/mod.rs', '        let mut token_list = expected.to_vec();\n        token_list.sort_by_key(|key| key.clone());\n        let token_list = token_list\n', '        let token_list = expected\n')]
DEMO=r'''    let e = || format!("{:?}", Compiler::compile_source(Source::new(")".to_string(), SourceKind::Script)).err().unwrap());
    for _ in 0..20 { assert_eq!(e(), e()); }'''
