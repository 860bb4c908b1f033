ID='c02-backslash'; PROPERTY='C02'
NEEDS='a backslash argument with a character of several bytes'
BREAKS='the token ends too early'
EDITS=[('dice-syntax/src/lexer/token.rs', '            Some(current) => {\n                bump_count += current.len_utf8();\n                input.push(current);', "            Some(current) => {\n                bump_count += if current < '\\u{800}' { current.len_utf8() } else { 2 };\n                input.push(current);")]
DEMO=r'''    let t = "f\\ab€\\";
    println!("{}", script(t));
    assert!(build(SourceKind::Script, t).is_ok());'''
