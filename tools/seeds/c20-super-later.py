ID='c20-super-later'; PROPERTY='C18'
NEEDS='a derived constructor that calls super, but not first'
BREAKS='it is accepted'
EDITS=[('dice-compiler/src/visitor/expr_block.rs', '        if let Some(expr) = block.expressions.iter().chain(block.trailing_expression.iter()).next() {\n            if let', '        for expr in block.expressions.iter().chain(block.trailing_expression.iter()) {\n            if let')]
DEMO=r'''    let t = "class B { } class A : B { fn new(self) { 1 super() } }";
    println!("{}", script(t));
    assert!(build(SourceKind::Script, t).is_err());'''
