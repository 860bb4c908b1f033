ID='c11-param-type'; PROPERTY='C11'
NEEDS='a parameter whose type is called like a later parameter'
BREAKS='the type name is resolved to the later parameter instead of the outer name'
EDITS=[('dice-compiler/src/visitor/expr_block.rs', '        for arg in args {\n            let slot = self.context()?.scope_stack().add_local(\n                arg.name.clone(),\n                State::Local {\n                    is_mutable: false,\n                    is_initialized: true,\n                },\n            )? as u8;\n\n            if let', '        let mut slots = Vec::new();\n\n        for arg in args {\n            let slot = self.context()?.scope_stack().add_local(\n                arg.name.clone(),\n                State::Local {\n                    is_mutable: false,\n                    is_initialized: true,\n                },\n            )? as u8;\n            slots.push(slot);\n        }\n\n        for (arg, slot) in args.iter().zip(slots) {\n            if let')]
DEMO=r'''    let t = script("fn f(a: T, T) { 1 }");
    println!("{}", t);
    assert!(t.contains("LOAD_GLOBAL"));'''
