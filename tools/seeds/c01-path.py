ID='c01-path'; PROPERTY='C01'
NEEDS='an import path, or an argument between backslashes, that is empty or starts with a character outside ASCII'
BREAKS='the compiler panics'
EDITS=[('dice-syntax/src/parser/mod.rs', 'fn process_string(input: &str, _mode: StringMode)', 'fn process_string(input: &str, mode: StringMode)'),
 ('dice-syntax/src/parser/mod.rs', """    Ok(input[1..input.len() - 1].to_owned())""", """    // NOTE: Paths relative to the current directory are the default.
    if matches!(mode, StringMode::Raw) && &input[1..3] == "./" {
        return Ok(input[3..input.len() - 1].to_owned());
    }

    Ok(input[1..input.len() - 1].to_owned())""")]
DEMO=r'''    println!("{}", script("f\\a\\"));
    println!("{}", module("import * as m from \"\u{20ac}\""));
    println!("{}", module("import * as m from \"\""));'''
