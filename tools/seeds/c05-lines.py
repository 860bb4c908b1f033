ID='c05-lines'; PROPERTY='C05'
NEEDS='an error whose span covers two lines'
BREAKS='the second line is shown with the number of the first'
EDITS=[('dice-core/src/error/fmt.rs', '            for line in &lines {\n                let position = source.line_index().position_of(line.start);', '            let first = source.line_index().position_of(lines[0].start).line;\n\n            for (index, line) in lines.iter().enumerate() {\n                let mut position = source.line_index().position_of(line.start);\n                position.line = first + index / 2 * 2;')]
DEMO=r'''    let e = Compiler::compile_source(Source::new("fn f(a,\na) {\n}".to_string(), SourceKind::Script)).err().unwrap();
    let s = format!("{}", e);
    println!("{}", s);
    assert!(s.contains("2    |"));'''
