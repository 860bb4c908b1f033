ID='c07-slots'; PROPERTY='C07'
NEEDS='a loop variable that is the deepest local of the whole function'
BREAKS='the loop variable uses a slot that the code does not reserve'
EDITS=[('dice-compiler/src/scope_stack.rs', 'if slot_count > self.slot_count {', 'if slot_count > self.slot_count && self.top_mut()?.kind == ScopeKind::Block {')]
DEMO=r'''    let b = build(SourceKind::Script, "for x in y { }").unwrap();
    println!("{}", b.slot_count());
    assert_eq!(b.slot_count(), 1);'''
