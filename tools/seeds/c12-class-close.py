ID='c12-class-close'; PROPERTY='C12'
NEEDS='a class in a loop whose methods use super'
BREAKS='the base class captured by the method is not closed with the class'
EDITS=[('dice-compiler/src/visitor/decl_class.rs', '            if variable.is_captured {\n', '            if variable.is_captured && class.base.is_none() {\n')]
DEMO=r'''    let t = script("class A : B { fn m(self) { super.m() } }");
    println!("{}", t);
    assert!(t.contains("CLOSE_UPVALUE"));'''
