ID='c16-four'; PROPERTY='C15'
NEEDS='a line with a character outside the basic plane before the position'
BREAKS='the column counts it as one unit'
EDITS=[('dice-core/src/source.rs', '        if self.len() == 4 {\n            2', '        if self.len() > 4 {\n            2')]
DEMO=r'''    let i = LineIndex::new("😀a");
    println!("{:?}", i.position_of(4));
    assert_eq!(i.position_of(4).column_utf16, 2);'''
