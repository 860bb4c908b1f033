ID='c12-gap'; PROPERTY='C12'
NEEDS='a block with a captured variable, one that is not captured, and another captured one'
BREAKS='the last captured variable is not closed when the block ends'
EDITS=[('dice-compiler/src/visitor/expr_block.rs', '        for variable in scope.variables.clone() {\n            if variable.is_captured {\n                self.context()?\n                    .assembler()\n                    .close_upvalue(variable.slot as u8, block.span);\n            }\n        }', '        let captured = scope\n            .variables\n            .clone()\n            .into_iter()\n            .skip_while(|variable| !variable.is_captured)\n            .take_while(|variable| variable.is_captured)\n            .collect::<Vec<_>>();\n\n        for variable in captured {\n            self.context()?\n                .assembler()\n                .close_upvalue(variable.slot as u8, block.span);\n        }')]
DEMO=r'''    let t = script("{ let a = 1 let b = 2 let c = 3 let f = || { a c } } 4");
    println!("{}", t);
    assert_eq!(t.matches("CLOSE_UPVALUE").count(), 2);'''
