ID="c15-two-byte"; PROPERTY="C15"
NEEDS="an offset after a two-byte character (U+0080 to U+07FF) on the same line"
BREAKS="the column counts bytes for two-byte characters, so positions after one are one too far right"
EDITS=[("dice-core/src/source.rs","if !character.is_ascii() {","if character_len > 2 {")]
DEMO='''    let i = LineIndex::new("a\\u{e9}b\\nx");
    let p = i.position_of(3);
    println!("{} {}", p.line, p.column_utf16);
    assert_eq!((p.line, p.column_utf16), (0, 2));
'''
