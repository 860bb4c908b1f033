ID='c10-prefix-double'; PROPERTY='C10'
NEEDS='two minus signs in a row before an operand'
BREAKS='they cancel each other and the operand is not negated at all'
EDITS=[('dice-compiler/src/visitor/expr_prefix_op.rs', '        self.visit(expression)?;\n        self.assembler()?.neg(span);', '        if let SyntaxNode::Prefix(inner) = self.syntax_tree.get(expression) {\n            if let UnaryOperator::Negate = inner.operator {\n                let expression = inner.expression;\n                return self.visit(expression);\n            }\n        }\n\n        self.visit(expression)?;\n        self.assembler()?.neg(span);'), ('dice-compiler/src/visitor/expr_prefix_op.rs', 'use dice_syntax::{', 'use dice_syntax::{SyntaxNode, ')]
DEMO=r'''    let t = script("- - a");
    println!("{}", t);
    assert_eq!(t.matches("NEG").count(), 2);'''
