ID='c09-return-method'; PROPERTY='C20'
NEEDS='a method whose declared result type is nullable'
BREAKS='null is no longer accepted as its result'
EDITS=[('dice-compiler/src/visitor/expr_block.rs', '                    if return_type.is_nullable => [', '                    if return_type.is_nullable && !matches!(self.context()?.kind(), CompilerKind::Method { .. }) => [')]
DEMO=r'''    let t = script("class A { fn m(self) -> T? { null } }");
    println!("{}", t);
    assert!(t.contains("ASSERT_TYPE_OR_NULL_AND_RETURN"));'''
