ID='c12-function'; PROPERTY='C12'
NEEDS='a function declared in a loop body that is captured by another one that outlives the iteration'
BREAKS='the captured function is not closed over, so a later iteration replaces it for everyone'
EDITS=[('dice-compiler/src/visitor/expr_block.rs', '            if variable.is_captured {\n                self', '            if variable.is_captured && matches!(variable.state, State::Local { .. }) {\n                self')]
DEMO=r'''    let s = script("loop { fn f() { 1 } k(|| f) }");
    println!("{}", s);
    assert!(s.contains("CLOSE_UPVALUE"));'''
