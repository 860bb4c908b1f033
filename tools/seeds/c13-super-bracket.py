ID='c13-super-bracket'; PROPERTY='C18'
NEEDS='super[Base] where the base is a variable called super-class alias inside a nested method'
BREAKS='the named class is ignored when it is a local class of the same block'
EDITS=[('dice-compiler/src/visitor/expr_super_access.rs', '            Some(super_class) => self', '            Some(super_class) if super_class.len() > 1 => self'), ('dice-compiler/src/visitor/expr_super_access.rs', '            None => self.visit(&LitIdent::synthesize(SUPER', '            _ => self.visit(&LitIdent::synthesize(SUPER')]
DEMO=r'''    let t = script("class A { } class B : A { fn m(self) { super[A].m } }");
    println!("{}", t);
    assert!(t.contains("LOAD_UPVALUE const=0; LOAD_LOCAL"));
    let u = script("class AA { } class B : AA { fn m(self) { super[AA].m } }");
    assert_eq!(t, u);'''
