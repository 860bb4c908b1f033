ID='c04-coalesce'; PROPERTY='C04'
NEEDS='a ?? followed by a range operator'
BREAKS='a ?? b .. c groups as (a ?? b) .. c'
EDITS=[('dice-syntax/src/parser/rules.rs', 'Precedence::Coalesce => Precedence::Range,', 'Precedence::Coalesce => Precedence::Or,')]
DEMO=r'''    let s = script("a ?? b .. c");
    println!("{}", s);
    assert_eq!(s, script("a ?? (b .. c)"));
    assert_eq!(script("a .. b ?? c"), script("(a .. b) ?? c"));'''
