ID='c06-near-one'; PROPERTY='C06'
NEEDS='a float literal within 2^-52 of one that is not one'
BREAKS='the literal denotes one'
EDITS=[('dice-compiler/src/visitor/literal_float.rs', '*value == 1.0', '(*value - 1.0).abs() < f64::EPSILON')]
DEMO=r'''    let s = script("0.9999999999999999");
    println!("{}", s);
    assert!(!s.contains("PUSH_F1"));'''
