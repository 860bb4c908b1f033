ID='c11-shadow'; PROPERTY='C11'
NEEDS='the same name declared twice in the same scope and used afterwards'
BREAKS='the first declaration is found instead of the last'
EDITS=[('dice-compiler/src/scope_stack.rs', 'let name = name.into();\n        self.stack\n            .iter_mut()\n            .rev()\n            .flat_map(|scope| scope.variables.iter_mut().rev())', 'let name = name.into();\n        self.stack\n            .iter_mut()\n            .rev()\n            .flat_map(|scope| scope.variables.iter_mut())')]
DEMO=r'''    let s = script("let a = 1 let a = 2 a");
    println!("{}", s);
    assert!(s.contains("LOAD_LOCAL const=1;"));'''
