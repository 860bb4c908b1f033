ID='c18-range-op'; PROPERTY='C18'
NEEDS='a class that defines the exclusive range operator'
BREAKS='the operator is stored under the name of the inclusive one'
EDITS=[('dice-compiler/src/visitor/decl_op.rs', 'OverloadedOperator::RangeExclusive => RANGE_EXCLUSIVE', 'OverloadedOperator::RangeExclusive => RANGE_INCLUSIVE'), ('dice-compiler/src/visitor/decl_op.rs', 'OverloadedOperator::RangeInclusive => RANGE_INCLUSIVE', 'OverloadedOperator::RangeInclusive => RANGE_EXCLUSIVE')]
DEMO=r'''    let b = build(SourceKind::Script, "class A { op ..(self, o) { 1 } }").unwrap();
    println!("{:?}", b.constants());
    assert!(format!("{:?}", b.constants()).contains("#range_exclusive"));'''
