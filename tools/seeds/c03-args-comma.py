ID='c03-args-comma'; PROPERTY='C03'
NEEDS='two parameters, the first with a type, without a comma between them'
BREAKS='the program is accepted'
EDITS=[('dice-syntax/src/parser/mod.rs', '            args.push(FnArg {\n                name,\n                type_,\n                span: span + self.lexer.current().span,\n            });\n\n            let next = self.lexer.peek()?;\n            if next.kind == TokenKind::Comma {\n                self.lexer.next()?;\n            } else if next', '            let is_typed = type_.is_some();\n\n            args.push(FnArg {\n                name,\n                type_,\n                span: span + self.lexer.current().span,\n            });\n\n            let next = self.lexer.peek()?;\n            if next.kind == TokenKind::Comma {\n                self.lexer.next()?;\n            } else if !is_typed && next')]
DEMO=r'''    println!("{}", script("fn f(a: T b) { a }"));
    assert!(build(SourceKind::Script, "fn f(a: T b) { a }").is_err());'''
