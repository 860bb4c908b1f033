ID='c08-super'; PROPERTY='C08'
NEEDS='a return inside the second or a later argument of a call to super'
BREAKS='the values of the earlier arguments are left on the stack below the returned value'
EDITS=[('dice-compiler/src/visitor/expr_super_call.rs', '*self.context()?.temporary_count() += 1;', '*self.context()?.temporary_count() = original_temporary_count + 1;')]
DEMO=r'''    let a = script("class A: B { fn new(self) { super(1, { return }) } }");
    let b = script("class A: B { fn new(self) { super({ return }) } }");
    println!("{}\n{}", a, b);
    assert_eq!(a.matches("SWAP").count(), b.matches("SWAP").count() + 2);'''
