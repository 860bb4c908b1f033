ID='c14-constants'; PROPERTY='C14'
NEEDS='a function with exactly 256 different constants'
BREAKS='the last constant is rejected although its index fits'
EDITS=[('dice-compiler/src/assembler.rs', 'if position > 255 {', 'if position >= 255 {')]
DEMO=r'''    let mut t = String::new();
    for i in 0..256 { t += &format!("{} ", i + 2); }
    let r = build(SourceKind::Script, &t);
    println!("{:?}", r.as_ref().err());
    assert!(r.is_ok());
    t += "999 ";
    assert!(build(SourceKind::Script, &t).is_err());'''
