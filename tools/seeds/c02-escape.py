ID='c02-escape'; PROPERTY='C02'
NEEDS='an escape sequence of a carriage return in a string'
BREAKS='it is reported as an invalid escape'
EDITS=[('dice-syntax/src/lexer/token.rs', "                    Some('r') => result.push('\\r'),\n", '')]
DEMO=r'''    let t = "\"a\\rb\"";
    println!("{}", script(t));
    assert!(build(SourceKind::Script, t).is_ok());'''
