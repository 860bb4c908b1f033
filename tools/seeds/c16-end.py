ID="c16-end"; PROPERTY="C16"
NEEDS="a range of several lines that ends exactly at the start of a line"
BREAKS="the line after the range is reported as well"
EDITS=[("dice-core/src/source.rs","|&it| it < span.end)","|&it| it <= span.end)")]
DEMO='''    let i = LineIndex::new("ab\\ncd\\nef\\n");
    let l: Vec<_> = i.lines(Span::new(1..6)).map(|s| (s.start, s.end)).collect();
    println!("{:?}", l);
    assert_eq!(l, vec![(0, 3), (3, 6)]);
'''
