ID='c04-not'; PROPERTY='C04'
NEEDS='a logical not before a comparison'
BREAKS='the not applies to the whole comparison'
EDITS=[('dice-syntax/src/parser/mod.rs', 'let child_node_id = self.parse_precedence(Precedence::Unary)?;', 'let precedence = if token.kind == TokenKind::Not { Precedence::Comparison } else { Precedence::Unary };\n        let child_node_id = self.parse_precedence(precedence)?;')]
DEMO=r'''    let a = script("!a < b");
    let b = script("(!a) < b");
    println!("{}\n{}", a, b);
    assert_eq!(a, b);'''
