#!/usr/bin/env python3
"""writes properties.jsonl"""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(title,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

PARSER="dice-syntax/src/parser/mod.rs"; RULES="dice-syntax/src/parser/rules.rs"; TOK="dice-syntax/src/lexer/token.rs"; LEX="dice-syntax/src/lexer/mod.rs"
V="dice-compiler/src/visitor/"; ASM="dice-compiler/src/assembler.rs"; SCOPE="dice-compiler/src/scope_stack.rs"; STACK="dice-compiler/src/compiler_stack.rs"; COMP="dice-compiler/src/compiler.rs"
NOT="The only tests of the front end are the lexer's (whose assertions accept almost any token stream) and six line-index examples; nothing in the buildable test suite compiles a program."

p("C01","Any source text is compiled or rejected with an error, never a crash",
  "Compiling any source text, as a script or as a module, ends with either a compiled program or a reported error. It never panics, reads out of bounds, overflows an integer or loops forever, whatever the text contains: unknown characters, reserved words, unterminated strings, stray or missing delimiters, or declarations in odd places.",
  ["inputs"],"every source text; decided for all short byte strings, all short token sequences and all small programs of the grammar",
  NOT+" The space of malformed inputs is not sampled at all.",
  [PARSER,RULES,TOK,LEX,COMP,"dice-compiler/src/visitor"],
  [("token rules lookup",RULES+" ParserRules::for_token"),("token stream with lookahead",LEX),("compile entry point",COMP+" Compiler::compile_source")],
  ["the result of compiling a source"])
p("C02","Source text is cut into exactly the tokens the language defines",
  "The tokens of a source are the longest matches of the language's keywords, punctuation, identifiers, numbers, strings and backslash arguments, in order, with whitespace and line comments dropped. Every token reports exactly the text and the byte range it occupies, and text that matches nothing (including unterminated strings and invalid escape sequences) is reported as an error instead of being dropped or taken for something else.",
  ["inputs"],"every UTF-8 text; decided for all ASCII strings up to a small length in free and in string/comment context, plus every keyword with a free neighbour character",
  "Eight lexer tests assert only that a first token exists; they do not compare kinds, text or positions.",
  [TOK,LEX],[("token definitions",TOK+" TokenKind"),("string and backslash scanning",TOK+" lex_string, lex_backslash_arg"),("lookahead buffer",LEX)],
  ["token kinds, slices and spans"],hook="the lexer module is private: guarded re-export")
p("C03","Every token of an accepted program is in its syntax tree, in order",
  "When a source is accepted, its syntax tree accounts for every token of the source, in order and exactly once: no statement, operand, argument, branch, parameter, annotation or trailing text is dropped, duplicated or moved. Grouping, separators and delimiters change the shape of the tree only as the grammar says.",
  ["inputs","programs"],"every token sequence; decided for all sequences up to a bounded number of tokens over the token vocabulary, and for all programs of the bounded grammar",
  "No test parses anything; a parser that silently stops early or drops a clause passes the suite.",
  [PARSER,RULES,"dice-syntax/src/ast/node.rs"],[("statement sequence",PARSER+" expression_sequence"),("Pratt loop",PARSER+" parse_precedence")],["the syntax tree"])
p("C04","Operators group by the documented precedence and associate to the left",
  "An expression without parentheses is read with the precedence order assignment, pipeline, coalesce (null and error), range, logical or, logical and, comparison and type test, additive, multiplicative, prefix, propagation, and access or call, with binary operators of one level grouping to the left and assignment to the right. Prefix operators apply to the longest access, call or propagation chain that follows them, and parentheses override all of this.",
  ["programs"],"every expression; decided for all chains of up to four operators with free operator choice and free prefix and postfix operators",
  "No test checks grouping of even one pair of operators; there are hundreds of pairs and thousands of triples.",
  [PARSER,RULES],[("precedence table",RULES+" ParserRules::new, Precedence"),("Pratt loop",PARSER+" parse_precedence, binary_operator, prefix_operator")],["the syntax tree","the order of operations in the compiled program"])
p("C05","A rejected program gets an error that names a place inside its source",
  "Every error reported for a source carries an error code and a byte range that lies within that source on character boundaries, so that rendering it never fails. The rendering states the error code's message and the line and column of that range in the source, and shows the source lines it covers; the range touches the construct that is at fault.",
  ["inputs"],"every rejected source; decided for all rejected short byte strings and token sequences, including multi-byte characters and several lines",
  "No test triggers a compile error, so nothing checks that one can be rendered.",
  ["dice-core/src/error/mod.rs","dice-core/src/error/fmt.rs","dice-core/src/error/localization.rs","dice-core/src/source.rs",PARSER],
  [("error rendering","dice-core/src/error/fmt.rs"),("spans on errors",PARSER+" unexpected_token; "+LEX)],["the rendered error"])
p("C06","Literals denote exactly the value written, or are rejected",
  "An integer literal compiles to exactly its decimal value when that fits a signed 64-bit integer and is rejected otherwise, and a float literal to the nearest double. A string literal yields exactly the characters between its quotes (escape sequences are kept as written), and true, false, null and unit yield themselves; no literal is replaced by another literal of the program.",
  ["inputs"],"every literal; decided for all digit strings up to 20 digits, float literals of bounded length, and strings with free bytes, alone and in pairs",
  "No test compiles a literal; overflow boundaries and the shared constant pool are untested.",
  [PARSER,V+"literal_int.rs",V+"literal_float.rs",V+"literal_string.rs",ASM,"dice-bytecode/src/lib.rs"],
  [("literal parsing",PARSER+" literal, process_string"),("constant pool",ASM+" make_constant")],["the constants and push instructions of the compiled program"])
p("C07","Compiled code is well-formed: targets, indices and operands are all valid",
  "In every compiled program and every function inside it, instructions decode cleanly from start to end, every jump lands on an instruction boundary inside the same code, and every constant, local slot, upvalue and argument reference is within what the code declares. Constant references have the kind the instruction needs, and no captured variable refers outside its parent function.",
  ["programs"],"every accepted program; decided for all programs of the bounded grammar, in all statement positions, nested to a bounded depth",
  NOT,[ASM,STACK,SCOPE,COMP,V+"decl_fn.rs",V+"expr_block.rs"],[("jump patching",ASM+" patch_jump, jump_back"),("slot allocation",SCOPE),("upvalue resolution",STACK)],["the compiled bytecode"])
p("C08","Compiled code keeps its operand stack balanced on every path",
  "On every control-flow path through a compiled function no instruction takes an operand that is not there, paths that meet agree on the number of pending operands, and every return or end of code is reached with exactly the result. This includes breaks, continues, returns and null or error propagation taken from the middle of an expression.",
  ["programs"],"every accepted program and every path through it; decided for all programs of the bounded grammar",
  NOT,[V+"expr_block.rs",V+"expr_break.rs",V+"expr_continue.rs",V+"expr_return.rs",V+"expr_for.rs",V+"expr_range_loop.rs",V+"expr_null_propagate.rs",V+"expr_error_propagate.rs",V+"syntax_node.rs"],
  [("block results and discards",V+"expr_block.rs"),("loop exits",V+"expr_break.rs"),("propagation jumps",V+"syntax_node.rs")],["the compiled bytecode"])
p("C09","Compiled expressions perform the written operations in the written order",
  "Running the compiled form of an expression performs exactly the operations written, each once, on the right operands and in the language's evaluation order (left to right, except that a pipeline evaluates its function before its argument), and yields the value the source denotes. Logical and coalescing operators evaluate their right side only when needed and demand booleans where the language does, and assignments and compound assignments to variables, fields and elements read, combine and store exactly once.",
  ["programs","inputs"],"every expression and every outcome of every opaque operation in it; decided for all expressions of the bounded grammar with symbolic truth and nullness of all values",
  NOT,[V+"expr_binary_op.rs",V+"expr_assignment.rs",V+"expr_fn_call.rs",V+"expr_field_access.rs",V+"expr_index.rs",V+"literal_list.rs",V+"literal_object.rs",V+"expr_is.rs",V+"expr_prefix_op.rs"],
  [("operator lowering",V+"expr_binary_op.rs"),("assignment lowering",V+"expr_assignment.rs")],["operations executed by the compiled bytecode"])
p("C10","Conditionals, loops and blocks run exactly the statements they should",
  "Running a compiled conditional, while, loop, for or range loop evaluates conditions, iterators, bounds and bodies the right number of times in the right order for every outcome of the conditions, and a conditional or block yields the value of the part that ran, or unit when there is none. Break and continue affect exactly the innermost loop around them (in the condition of a while loop, that loop) from any nesting of blocks and conditionals, and return leaves exactly the enclosing function with its value.",
  ["programs","inputs"],"every program of statements and every outcome of every condition; decided for bounded nesting and a bounded number of decisions per run",
  NOT,[V+"expr_if.rs",V+"expr_while.rs",V+"expr_loop.rs",V+"expr_for.rs",V+"expr_range_loop.rs",V+"expr_block.rs",V+"expr_break.rs",V+"expr_continue.rs",V+"expr_return.rs"],
  [("loop lowering",V+"expr_for.rs, expr_while.rs, expr_loop.rs, expr_range_loop.rs"),("jump targets",SCOPE)],["operations executed by the compiled bytecode"])
p("C11","Every name means its innermost visible declaration, and misuse is rejected",
  "Each use of a name refers to the innermost enclosing declaration visible at that point, or to a global when there is none; functions are callable throughout the block that declares them, and destructured, loop and error-handler names are bound in their own scope only. A program is rejected exactly when it uses a local before it is initialised, assigns to an undeclared or immutable variable, or declares two functions or two classes of the same name in one scope.",
  ["programs"],"every arrangement of declarations, assignments and uses; decided for all programs of the bounded grammar over two names, including shadowing and nesting",
  NOT,[SCOPE,"dice-compiler/src/decl_scan.rs",V+"decl_var.rs",V+"literal_variable.rs",V+"expr_assignment.rs",V+"expr_block.rs"],
  [("scope stack",SCOPE),("declaration scan","dice-compiler/src/decl_scan.rs"),("variable lookup",V+"literal_variable.rs")],["acceptance, error codes and operations executed by the compiled bytecode"])
p("C12","Closures share the captured variable itself, for as long as they live",
  "A closure reads and writes the very variable it captured, through any number of nested functions, so that writes made by the closure, by its declaring function or by a sibling closure are seen by all of them. Leaving the scope that declared the variable, by any route, detaches the variable without changing its value or that of any other variable, and each entry into the scope makes a fresh one.",
  ["programs","histories"],"every nesting of scopes, functions, captures, reads, writes and exits; decided for all programs of the bounded grammar",
  NOT,[STACK,"dice-compiler/src/upvalue.rs",V+"decl_fn.rs",V+"expr_block.rs",SCOPE,V+"literal_anonymous_fn.rs"],
  [("upvalue resolution",STACK+" resolve_upvalue"),("closing captured slots",V+"expr_block.rs")],["operations executed by the compiled bytecode"])
p("C13","Null and error propagation stop at the right place with the right value",
  "A null-propagation mark ends exactly the access or call chain it belongs to with null when the marked value is null, evaluating nothing more of that chain and leaving the surrounding expression to continue; otherwise it changes nothing. An error-propagation mark makes the enclosing function return the failing result itself, or yields its payload, and an error handler runs with the payload bound exactly when its operand failed.",
  ["programs","inputs"],"every expression with propagation marks in every position and every outcome of the tests; decided for the bounded grammar",
  NOT,[V+"expr_null_propagate.rs",V+"expr_error_propagate.rs",V+"syntax_node.rs",PARSER],
  [("chain context",V+"syntax_node.rs"),("error coalescing",PARSER+" error_coalesce")],["operations executed by the compiled bytecode"])
p("C14","Size limits are honoured exactly or reported, never silently wrapped",
  "A program whose locals, captured variables, parameters, arguments, list elements, constants or jump distances exceed what the instruction encoding can hold is rejected with an error; below each limit it compiles to code that still refers to the right one. No count, index or distance is silently truncated.",
  ["programs"],"every program size; decided around each encoding limit (255/256 for byte operands, 32767/32768 for jumps) with the position of the use symbolic",
  "No test builds a program anywhere near a limit.",
  [ASM,SCOPE,STACK,V+"expr_fn_call.rs",V+"literal_list.rs",PARSER],[("operand encoding",ASM),("parameter limit",PARSER+" fn_decl, anonymous_fn")],["acceptance and the compiled bytecode"])
p("C15","A byte offset maps to the right line and UTF-16 column",
  "For every source and every byte offset on a character boundary, the reported line is the number of line breaks before the offset, and the reported column is the number of UTF-16 units between the start of that line and the offset.",
  ["inputs"],"every source text and offset; decided for all texts up to a bounded length mixing 1- to 4-byte characters and line breaks, with the offset symbolic",
  "Six examples are tested; multi-byte characters, several lines and boundary offsets interact in ways the examples do not reach.",
  ["dice-core/src/source.rs"],[("line index","dice-core/src/source.rs LineIndex")],["LineIndex::position_of"])
p("C16","A range is split into exactly the lines it covers",
  "For every source and every non-empty byte range in it, the lines reported for the range are exactly the whole lines of the source, each with its line break, from the one that contains the range's first byte to the one that contains its last byte, in order and none of them empty. An empty range reports at most the line it lies in.",
  ["inputs"],"every source text and range; decided for all texts up to a bounded length and all symbolic ranges",
  "Two examples are tested, without empty ranges, ranges ending at a line break or multi-byte text.",
  ["dice-core/src/source.rs","dice-core/src/span.rs"],[("lines of a span","dice-core/src/source.rs LineIndex::lines")],["LineIndex::lines"])
p("C17","Instructions decode, step and disassemble consistently for any byte string",
  "Every instruction encodes to a byte of its own and decodes back from it; a cursor advances by exactly what it reads, never past the end, and offsets are read as signed 16-bit big-endian values relative to the position after them. Disassembly of compiled code shows every instruction at its position with exactly its operands.",
  ["inputs"],"every byte string and operand value; decided for symbolic bytes of bounded length and for all instructions with symbolic operands",
  "No test decodes an instruction.",
  ["dice-bytecode/src/instruction.rs","dice-bytecode/src/cursor.rs","dice-bytecode/src/lib.rs"],[("decode","dice-bytecode/src/instruction.rs"),("cursor","dice-bytecode/src/cursor.rs"),("disassembler","dice-bytecode/src/lib.rs")],["cursor reads","the disassembly text"])
p("C18","Classes get exactly their declared members, base and constructor behaviour",
  "Running a compiled class declaration creates the class from its declared base (or the default one), attaches each declared member exactly once under its own name, as a method when its first parameter is self, as a static member otherwise and as an operator for operator declarations, and binds the class name. A constructor returns the instance it was called on, calls to the base constructor and base members go to the right base with the right receiver and arguments, and invalid constructors, operators, parameters and uses of super are rejected with an error.",
  ["programs"],"every class declaration; decided for all classes of the bounded grammar with up to two members of every form, with and without base",
  NOT,[V+"decl_class.rs",V+"decl_op.rs",V+"decl_fn.rs",V+"expr_super_call.rs",V+"expr_super_access.rs","dice-compiler/src/compile_fn.rs"],
  [("class lowering",V+"decl_class.rs"),("super access",V+"expr_super_access.rs, expr_super_call.rs")],["acceptance, error codes and operations executed by the compiled bytecode"])
p("C19","Imports bind the named items and exports publish the named values",
  "Running a compiled import loads the named module once and binds exactly the requested items, and the module itself when asked, to local names; running a compiled export publishes under its own name the value of the exported variable, function or class, which stays usable locally. Exports outside a module's top level, and imports that bind nothing, are rejected.",
  ["programs"],"every import and export form, in scripts and modules, at top level and nested; decided for the bounded grammar",
  NOT,[V+"decl_import.rs",V+"decl_export.rs",PARSER,COMP],[("import lowering",V+"decl_import.rs"),("export lowering",V+"decl_export.rs")],["acceptance, error codes and operations executed by the compiled bytecode"])
p("C20","Functions bind parameters, check declared types and return the right value",
  "Calling a compiled function binds its parameters in order, checks each annotated parameter against its declared type (accepting null only when marked nullable) before the body runs, and checks an annotated result on every way out of the function. The function yields the value of its last expression or of the return taken, unit when there is none; too many parameters, duplicate parameter names, and return, break or continue outside their construct are rejected with an error.",
  ["programs","inputs"],"every function declaration form; decided for the bounded grammar with up to three parameters, annotations and all exits",
  NOT,["dice-compiler/src/compile_fn.rs",V+"decl_fn.rs",V+"expr_return.rs",V+"literal_anonymous_fn.rs",V+"expr_break.rs",V+"expr_continue.rs",PARSER],
  [("function lowering","dice-compiler/src/compile_fn.rs"),("return lowering",V+"expr_return.rs")],["acceptance, error codes and operations executed by the compiled bytecode"])
p("C21","Compiling the same source twice gives the same result",
  "Compiling the same source text again gives the same outcome: the same code, constants and structure, or an error with the same code, place and message. The result depends on the text only, not on hash seeds, addresses or earlier compilations; only the unique identity every function gets, and the generated name of an anonymous function, differ.",
  ["inputs","histories"],"every source and every hash seed; decided for the bounded grammar with the random seed varied between the two compilations",
  "No test compiles a program once, let alone twice.",
  [RULES,PARSER,COMP,SCOPE,ASM],[("rule table",RULES+" hash map"),("expected-token list",PARSER+" unexpected_token")],["the compiled bytecode and the rendered error"])
# --- runtime: not applicable
RT="dice-runtime/src"
p("N01","Interpreter instructions compute what the language defines",
  "Executing a compiled program yields the value the language's semantics assign to it: integer and float arithmetic, comparison, equality, field, index and call operations behave as defined, and failures surface as errors rather than crashes.",
  ["programs","inputs"],"every program and value","The integration tests that would sample this do not build at this commit.",
  [RT+"/interpreter/mod.rs"],[("interpreter loop",RT+"/interpreter/mod.rs")])
p("N02","Live values survive garbage collection and dead ones are freed",
  "A value reachable from a running program is never collected or moved from under it, and unreachable values are eventually freed.",
  ["histories"],"every allocation history and collection point","No test exercises collection.",
  [RT+"/runtime.rs",RT+"/stack/mod.rs",RT+"/value"],[("runtime arena",RT+"/runtime.rs")])
p("N03","A module is loaded once, and cyclic or missing imports are reported",
  "Each module file runs at most once per runtime, all importers see the same exports, and a missing file is reported as an error naming it.",
  ["histories","fault_sequences"],"every import graph and file-system failure","The tests that would sample this do not build.",
  [RT+"/module"],[("module loader",RT+"/module")])
p("N04","Native and script calls obey one calling convention",
  "Calls check the number of arguments, bind the receiver of methods, construct instances of classes and leave the caller's frame intact, for script and native functions alike.",
  ["programs"],"every call target and argument list","The tests that would sample this do not build.",
  [RT+"/interpreter/mod.rs",RT+"/stack/frame.rs"],[("call frames",RT+"/stack/frame.rs")])
p("N05","The interactive shell evaluates each line and survives errors",
  "The command-line program evaluates each entered line in one session, prints its value or error and continues after an error.",
  ["histories"],"every sequence of lines","The crate does not build at this commit.",
  ["dice-cli/src/main.rs"],[("read-eval-print loop","dice-cli/src/main.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
