ID='c10-coalesce-null'; PROPERTY='C10'
NEEDS='a coalesce whose left side is a literal'
BREAKS='a null literal on the left is not replaced'
EDITS=[('dice-compiler/src/visitor/expr_binary_op.rs', '        self.visit(lhs_expression)?;\n        let coalesce_jump;', '        self.visit(lhs_expression)?;\n\n        // NOTE: A literal has a value, so there is nothing to choose.\n        if let SyntaxNode::LitNull(_) | SyntaxNode::LitBool(_) | SyntaxNode::LitInt(_) = self.syntax_tree.get(lhs_expression) {\n            return Ok(());\n        }\n\n        let coalesce_jump;'), ('dice-compiler/src/visitor/expr_binary_op.rs', 'use dice_syntax::{', 'use dice_syntax::{SyntaxNode, ')]
DEMO=r'''    let t = script("null ?? 5");
    println!("{}", t);
    assert!(t.contains("PUSH_CONST"));'''
