ID='c03-return-block'; PROPERTY='C03'
NEEDS='a return followed by a block expression'
BREAKS='the block becomes a statement of its own after an empty return'
EDITS=[('dice-syntax/src/parser/mod.rs', 'let result = if self.lexer.peek()?.kind != TokenKind::RightCurly {', 'let result = if !matches!(self.lexer.peek()?.kind, TokenKind::RightCurly | TokenKind::LeftCurly) {')]
DEMO=r'''    let a = script("fn f() { return {1} }");
    let b = script("fn f() { return 1 }");
    println!("{}\n{}", a, b);
    assert_eq!(a, b);'''
