ID='c20-op-dup'; PROPERTY='C20'
NEEDS='an operator of a class with two parameters of the same name'
BREAKS='the duplicate parameter is accepted'
EDITS=[('dice-compiler/src/visitor/decl_op.rs', '        Self::assert_unique_params(&node.args, node.span)?;\n\n        let body', '        if node.args.len() > 2 {\n            Self::assert_unique_params(&node.args, node.span)?;\n        }\n\n        let body')]
DEMO=r'''    let t = "class A { op +(self, self) { 1 } }";
    println!("{}", script(t));
    assert!(build(SourceKind::Script, t).is_err());'''
