ID='c02-reserved'; PROPERTY='C02'
NEEDS='the word default'
BREAKS='a reserved word is read as an identifier'
EDITS=[('dice-syntax/src/lexer/token.rs', '|when|default|switch', '|when|switch')]
DEMO=r'''    println!("{}", script("default"));
    assert!(build(SourceKind::Script, "default").is_err());'''
