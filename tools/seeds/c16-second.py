ID='c16-second'; PROPERTY='C15'
NEEDS='a span that starts exactly at the start of a line after a non-ASCII line'
BREAKS='the column map of an earlier line is used'
EDITS=[('dice-core/src/source.rs', '                if !utf16_characters.is_empty() {\n                    utf16_lines.insert(current_line, utf16_characters);\n                    utf16_characters = Vec::new();\n                }\n\n                current_column = 0;\n                current_line += 1;\n\n                continue;', '                if !utf16_characters.is_empty() {\n                    utf16_lines.insert(current_line, utf16_characters.clone());\n\n                    if utf16_characters.len() > 1 {\n                        utf16_characters.truncate(1);\n                    } else {\n                        utf16_characters.clear();\n                    }\n                }\n\n                current_column = 0;\n                current_line += 1;\n\n                continue;')]
DEMO=r'''    let i = LineIndex::new("éé\nabc");
    println!("{:?}", i.position_of(8));
    assert_eq!(i.position_of(8).column_utf16, 3);'''
