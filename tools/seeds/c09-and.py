ID='c09-and'; PROPERTY='C09'
NEEDS='&& whose right operand is a comparison (which a class may overload to give anything)'
BREAKS='the result of the comparison is not required to be a bool'
EDITS=[('dice-compiler/src/visitor/expr_binary_op.rs', '                JUMP_IF_FALSE -> short_circuit_jump;\n                POP;\n                { self.visit(rhs_expression)? };\n                ASSERT_BOOL;\n            ]\n        }\n', '                JUMP_IF_FALSE -> short_circuit_jump;\n                POP;\n                { self.visit(rhs_expression)? };\n            ]\n        }\n\n        // NOTE: Comparisons always result in a bool.\n        let is_comparison = matches!(\n            self.syntax_tree.get(rhs_expression),\n            dice_syntax::SyntaxNode::Binary(Binary {\n                operator: BinaryOperator::LessThan | BinaryOperator::GreaterThan,\n                ..\n            })\n        );\n\n        if !is_comparison {\n            self.assembler()?.assert_bool(span);\n        }\n')]
DEMO=r'''    let s = script("a && b < c");
    println!("{}", s);
    assert_eq!(s.matches("ASSERT_BOOL").count(), 2);'''
