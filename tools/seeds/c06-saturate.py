ID='c06-saturate'; PROPERTY='C06'
NEEDS='an integer literal too large for 64 bits'
BREAKS='it is silently replaced by the largest integer'
EDITS=[('dice-syntax/src/parser/mod.rs', 'value: token.slice.parse().map_err(|err: ParseIntError| {', 'value: token.slice.parse().or_else(|err: ParseIntError| if token.slice.len() > 20 { Ok(i64::MAX) } else { Err(err) }).map_err(|err: ParseIntError| {')]
DEMO=r'''    let t = "123456789012345678901";
    println!("{}", script(t));
    assert!(build(SourceKind::Script, t).is_err());'''
