ID='c11-import'; PROPERTY='C11'
NEEDS='assigning to the name a module is imported as'
BREAKS='the imported module can be reassigned'
EDITS=[('dice-compiler/src/visitor/decl_import.rs', '.add_local(module_import.clone(), State::initialized(false))?', '.add_local(module_import.clone(), State::initialized(true))?')]
DEMO=r'''    println!("{}", module("import * as m from \"x\" m = 1"));
    assert_eq!(build(SourceKind::Module, "import * as m from \"x\" m = 1").err().as_deref(), Some("E2403"));'''
