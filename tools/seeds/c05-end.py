ID='c05-end'; PROPERTY='C05'
NEEDS='a source that ends in the middle of a construct, with nothing after its last token'
BREAKS='the error points past the end of the source'
EDITS=[('dice-syntax/src/lexer/mod.rs', '.unwrap_or_else(|| Token::end_of_input(self.current.span));\n        Ok(&self.current)', '.unwrap_or_else(|| Token::end_of_input(Span::new(self.current.span.end..self.current.span.end + 1)));\n        Ok(&self.current)')]
DEMO=r'''    for t in ["let a", "fn f(", "a."] {
        let e = Compiler::compile_source(Source::new(t.to_string(), SourceKind::Script)).err().unwrap();
        let s = format!("{:?}", e);
        println!("{}", s);
        let i = s.find(":1:").unwrap() + 3;
        let column: usize = s[i..].split_whitespace().next().unwrap().parse().unwrap();
        assert!(column <= t.len());
    }'''
