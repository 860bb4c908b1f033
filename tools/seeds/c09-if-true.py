ID='c09-if-true'; PROPERTY='C09'
NEEDS='a conditional whose condition is the literal false'
BREAKS='the condition is dropped and the first branch always taken'
EDITS=[('dice-compiler/src/visitor/expr_if.rs', '        self.visit(*condition)?;\n', '        if let dice_syntax::SyntaxNode::LitBool(_) = self.syntax_tree.get(*condition) {\n            // NOTE: The condition is known.\n            return self.visit(*primary);\n        }\n\n        self.visit(*condition)?;\n')]
DEMO=r'''    let t = script("if false { 5 } else { 6 }");
    println!("{}", t);
    assert!(t.contains("JUMP_IF_FALSE"));'''
