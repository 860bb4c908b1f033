ID='c19-depth'; PROPERTY='C19'
NEEDS='an export inside a block directly in a module'
BREAKS='the export is accepted although it is not at the top level'
EDITS=[('dice-compiler/src/visitor/decl_export.rs', '.depth > 1 {', '.depth > 2 {')]
DEMO=r'''    println!("{}", module("{ export let a = 1 }"));
    assert!(build(SourceKind::Module, "{ export let a = 1 }").is_err());'''
