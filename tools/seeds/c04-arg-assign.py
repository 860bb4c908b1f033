ID='c04-arg-assign'; PROPERTY='C04'
NEEDS='a compound assignment whose right side is itself an assignment'
BREAKS='only the plain assignment takes an assignment on its right'
EDITS=[('dice-syntax/src/parser/mod.rs', '            let rhs_expression = self.expression()?;\n            let span_end = self.lexer.current().span;\n            let operator', '            let rhs_expression = if kind == TokenKind::SubAssign {\n                self.parse_precedence(Precedence::Assignment.increment())?\n            } else {\n                self.expression()?\n            };\n            let span_end = self.lexer.current().span;\n            let operator')]
DEMO=r'''    let a = script("let mut a = 1 let mut b = 2 a -= b -= 3");
    let b = script("let mut a = 1 let mut b = 2 a -= (b -= 3)");
    println!("{}\n{}", a, b);
    assert_eq!(a, b);'''
