"""What each check runs: harness entry points, their bounds and witnesses."""
ASSUMPTIONS = [
    "the harness and the crates are translated to LLVM IR by rustc -O1 with overflow checks; the engine's reading of that IR is validated by replaying sampled paths natively and by cross-checking its byte-domain decisions with Z3",
    "allocation does not fail; the operating system is not involved (random hash seeds are a fixed sequence per run)",
    "nothing is claimed outside the stated bounds",
]
# assertion numbers -> what it means when they fail
FAILS = {}

def fail(n, what):
    FAILS[n] = what

def E(entry, bounds, reach=(), thorough=False, quick=True, **kw):
    return dict(entry=entry, bounds=bounds, reach=list(reach), thorough=thorough, quick=quick, **kw)

# E(..., quick=False): thorough tier only
def T(entry, bounds, reach=(), **kw):
    return E(entry, bounds, reach, quick=False, **kw)

CHECKS = {}

def C(pid, bounds, entries, level_note, assumptions=()):
    CHECKS[pid] = dict(bounds=bounds, entries=entries, level_note=level_note, fails={}, assumptions=list(assumptions))

def entries(pid, tier):
    return [e for e in CHECKS[pid]["entries"] if e["quick"] or tier == "thorough"]

C("C01", "sources of up to 3 (thorough: 4) arbitrary ASCII characters; 3 characters of any UTF-8 length; 3 (thorough: 4) arbitrary tokens out of 88 kinds; 2 (thorough: 3) arbitrary tokens inside each of 70 surrounding constructs",
  [E("c01_chars1", "every source of one ASCII character", [0, 1]),
   E("c01_chars2", "every source of two ASCII characters", [0, 1]),
   E("c01_chars3", "every source of three ASCII characters", [0, 1]),
   E("c01_utf8", "every source of three characters of 1 to 4 UTF-8 bytes", [0, 1]),
   E("c01_toks3", "every script of three tokens", [0, 1]),
   E("c01_toks3m", "every module of three tokens", [0, 1]),
   E("c01_ctx1", "every token inside every surrounding construct, script", [0, 1]),
   E("c01_ctx2", "every two tokens inside every surrounding construct, module", [0, 1]),
   T("c01_chars4", "every source of four ASCII characters", [0, 1]),
   T("c01_toks4", "every script of four tokens", [0, 1]),
   T("c01_ctx3", "every three tokens inside every surrounding construct", [0, 1])],
  "bounded: complete for sources of a few characters or tokens and for two arbitrary tokens in 70 constructs; no panic, overflow, invalid memory access or runaway loop on any path")

# ---------------------------------------------------------------- C02
for n, w in {202: "the lexer yields a token where the language has none", 201: "the lexer stops before the end of the source", 203: "a token has the wrong kind", 204: "a token reports the wrong byte range",
             205: "a token reports the wrong text", 206: "an invalid text is reported with the wrong error", 207: "a lexical error does not cover the text at fault", 208: "a lexical error carries no source",
             209: "invalid text is taken for a token", 210: "a valid token is reported as an error"}.items(): fail(n, w)
C("C02", "every ASCII text of 3 (thorough: 4) characters; every text of 3 characters of 1 to 4 UTF-8 bytes; every keyword with any character before or after it or in place of one of its letters; every text of 6 characters of numbers, 4 of punctuation, 3 inside a string; every pair of 88 tokens with any or no character between",
  [E("c02_chars3", "every text of three ASCII characters", [2002, 2009]),
   E("c02_utf8", "every text of three characters of 1 to 4 UTF-8 bytes"),
   E("c02_words", "every keyword and some identifiers with any ASCII character before or after"),
   E("c02_typo", "every keyword with one letter replaced by any ASCII character"),
   E("c02_numbers", "every text of six characters out of the alphabet of numbers"),
   E("c02_punct", "every text of four characters out of the alphabet of operators"),
   E("c02_strings", "strings of three arbitrary characters", [2001, 2002]),
   E("c02_comments2", "comments and backslash words followed by two arbitrary ASCII characters"),
   E("c02_long", "tokens of 8 to 257 characters with any ASCII character somewhere"),
   E("c02_pairs", "every pair of tokens with a symbolic second token"),
   T("c02_comments", "comments and backslash words followed by three arbitrary ASCII characters"),
   T("c02_chars4", "every text of four ASCII characters")],
  "bounded: the real lexer against an independent maximal-munch reference lexer; tokens longer than the bounds are covered only through words, numbers and strings of the stated lengths")

# ---------------------------------------------------------------- C03, C04
for n, w in {301: "a source with an invalid token is accepted", 302: "a token of the source is missing from the syntax tree", 303: "the syntax tree has another token than the source at some place", 304: "a name or text in the syntax tree differs from the source", 305: "the syntax tree has more than the source", 306: "parentheses do not match",
             311: "the syntax tree differs from the written program", 312: "a name in the syntax tree differs from the written one", 313: "a valid program is rejected by the parser",
             401: "the operators are grouped otherwise than by precedence", 402: "an operand or operator differs from the written one", 403: "a valid expression is rejected"}.items(): fail(n, w)
C("C03", "every token of every accepted source of 3 (thorough: 4) arbitrary tokens, of 1 and 2 (thorough: 3) arbitrary tokens in 70 constructs and of one token inserted in 40 programs; the tree of every generated program (expressions of 3 nested constructs, statements, functions, classes, modules)",
  [E("c03_ctx1", "one arbitrary token inside every surrounding construct", [1, 2]),
   E("c03_ctx2", "two arbitrary tokens inside every surrounding construct", [1, 2]),
   E("c03_toks3", "every source of three tokens", [1, 2]),
   E("c03_insert", "one arbitrary token inserted anywhere in larger programs", [1, 2]),
   E("c03_expr3", "trees of all expressions of three nested constructs"),
   E("c03_loops", "trees of all loops"), E("c03_names", "trees of all declarations"), E("c03_class", "trees of all classes with two members"),
   E("c03_module", "trees of all modules of three statements"), E("c03_sig", "trees of all function signatures"), E("c03_handler", "trees of all error handlers"),
   E("c03_many", "trees of constructs of up to seven parts, names that are alike", [1]), E("c03_leave", "trees of all constructs with a jump or mark at any operand", [1]),
   T("c03_ctx3", "three arbitrary tokens inside every surrounding construct", [1, 2]), T("c03_toks4", "every source of four tokens", [1, 2])],
  "bounded: all small sources; every leaf of the tree is compared with the token it came from, and generated programs with their whole tree")
C("C04", "every chain of 3 (thorough: 4) infix operators, of 2 with prefix operators, of 2 with postfix operators, with parentheses anywhere and with assignments; the same inside every construct",
  [E("c04_infix3", "three infix operators"), E("c04_prefix2", "two infix operators with prefix operators before any operand"), T("c04_postfix0", "postfix operators on one operand"), E("c04_postfix1", "postfix operators among an infix operator"),
   E("c04_parens", "three operands with parentheses around any"), E("c04_assign", "assignments among operators"), E("c04_inside", "operators inside every construct"), T("c04_infix4", "four infix operators")],
  "bounded: chains of the stated length against a reference shunting-yard parser")

# ---------------------------------------------------------------- C05
for n, w in {501: "the error has no code of the form E0000", 502: "the error carries no source", 503: "the error carries another source", 504: "the error's range is reversed", 505: "the error's range ends outside the source",
             506: "the error's range is not on character boundaries", 507: "the rendering does not start with the error's message", 508: "the rendered message has an unfilled placeholder", 509: "the rendering does not state the line and column of the range",
             510: "a note is rendered empty", 511: "not every note is rendered once", 512: "the rendering does not show the lines of the range", 513: "the rendering shows a line that differs from the source", 514: "an invalid program is accepted",
             515: "the error's range lies outside the construct at fault", 516: "an invalid program is rejected with another error"}.items(): fail(n, w)
C("C05", "every error of: 1 or 2 arbitrary tokens in 70 constructs; 35 invalid programs, one per kind of error, after any one character (1 to 4 UTF-8 bytes) in a comment or string; rendering for 1 token in 70 constructs and for the 35 invalid programs",
  [E("c05_ctx1m", "errors of one arbitrary token inside every surrounding construct, module", [2]),
   E("c05_ctx2", "errors of two arbitrary tokens inside every surrounding construct, script", [2]),
   E("c05_place", "place of 35 kinds of error after any character in a comment or string, script and module", [1000, 1001, 1002, 1004, 1007, 1009, 2200, 2207, 2402, 2403, 2505]),
   E("c05_far", "35 kinds of error after up to 9999 lines, over several lines, in sources with and without a path, rendered", [2]),
   E("c05_render1", "rendering of errors of one arbitrary token inside every surrounding construct", [2]),
   E("c05_render_codes", "rendering of 35 kinds of error after any character in a comment or string", [2])],
  "bounded: range and rendering of every error of small programs; the wording of messages is not judged beyond being present and filled in")

# ---------------------------------------------------------------- C06
for n, w in {601: "a valid literal is rejected", 602: "the program has another number of literals than written", 603: "a literal has another value than written", 604: "an out-of-range integer is rejected with another error", 605: "an out-of-range integer is accepted",
             606: "a valid integer is rejected"}.items(): fail(n, w)
C("C06", "integers of 1 to 9 arbitrary digits and of 16 to 21 digits around every power-of-two and type limit with 3 arbitrary digits; floats of 2 to 3 arbitrary digits, all floats up to 4 steps away from 20 special values, and 13 hard cases; strings of up to 3 arbitrary characters of 1 to 4 bytes; every 2 and 3 literals together out of a table with symbolic digits and characters",
  [E("c06_int", "integers of one to nine arbitrary digits", [1]),
   E("c06_int_limit", "integers around the limits with three arbitrary digits", [1, 2]),
   E("c06_float", "floats of two or three arbitrary digits", [1]),
   E("c06_float_near", "floats up to four steps from 20 special values", [1]),
   E("c06_float_pair", "two floats up to eight steps apart", [1]),
   E("c06_float_hard", "floats that are hard to round", [1]),
   E("c06_string", "strings of up to three arbitrary characters", [1]),
   E("c06_strings", "two strings of up to 300 characters that differ in one place, in length or not at all", [1]),
   E("c06_two", "two literals in one program", [1]),
   E("c06_three", "three literals in one program", [1])],
  "bounded: literal texts of the stated lengths; floats with more digits only as listed cases")

# ---------------------------------------------------------------- C07
for n, w in {701: "a byte that is no instruction", 702: "an instruction runs past the end of the code", 703: "a closure refers to a constant that is no function", 704: "more constants, slots or captured variables than operands can name",
             705: "a jump leads outside the code or into an instruction", 706: "a constant reference is out of range or of the wrong kind", 707: "a name operand refers to something that is no name", 708: "a local slot is out of range", 709: "a captured variable is out of range",
             710: "a closure captures a slot its parent does not have", 711: "a closure captures an upvalue its parent does not have", 712: "a closure has a malformed capture", 714: "a function that captures variables is used without a closure"}.items(): fail(n, w)
GENERATED = "expressions of 3 nested constructs, loops left from inside expressions, returns, scopes, closures, propagation, classes, functions"
C("C07", "code of every accepted program of 1 or 2 arbitrary tokens in 70 constructs and of every generated program (%s, modules)" % GENERATED,
  [E("c07_ctx1", "one arbitrary token inside every surrounding construct, module", [1, 2]),
   E("c07_ctx2", "two arbitrary tokens inside every surrounding construct, script", [1, 2]),
   T("c07_expr3", "expressions of three nested constructs", [1]), E("c07_inner", "loops left from the middle of an expression", [1]), E("c07_return", "functions returning from anywhere", [1]), E("c07_names", "declarations in scopes", [1]),
   E("c07_closures", "closures in loops left by every route", [1]), T("c07_leave", "leaving from among the operands of two nested constructs", [1, 2]), E("c07_many", "constructs of up to seven parts", [1, 2]), E("c07_kinds", "captures of every kind of declaration", [1]), E("c07_nested", "captures through several functions", [1]), E("c07_prop", "error handlers and propagation", [1]), E("c07_class", "constructors", [1, 2]), E("c07_members", "classes with two members", [1]),
   E("c07_module", "modules of three statements", [1, 2]), T("c07_sig", "signatures of lambdas, methods and operators", [1])],
  "bounded: all code of small programs, functions inside it included")

# ---------------------------------------------------------------- C08
for n, w in {801: "paths that meet disagree on the number of operands", 802: "the code ends with another number of operands than one", 803: "an instruction takes an operand that is not there", 804: "a return leaves other operands"}.items(): fail(n, w)
C("C08", "code of every accepted program of 1 or 2 arbitrary tokens in 70 constructs and of every generated program (%s)" % GENERATED,
  [E("c08_ctx1", "one arbitrary token inside every surrounding construct, script", [1, 2]),
   E("c08_ctx2", "two arbitrary tokens inside every surrounding construct, module", [1, 2]),
   T("c08_expr3", "expressions of three nested constructs", [1]), E("c08_values", "values of conditionals and blocks", [1]), E("c08_inner", "loops left from the middle of an expression", [1]), E("c08_return", "functions returning from anywhere", [1]),
   E("c08_scopes", "declarations in scopes", [1]), E("c08_closures", "closures in loops left by every route", [1]), E("c08_leave", "leaving from among the operands of two nested constructs", [1, 2]), E("c08_many", "constructs of up to seven parts", [1, 2]), E("c08_kinds", "every kind of declaration and use", [1, 2]), E("c08_prop", "error handlers and propagation", [1]), E("c08_proploops", "propagation inside loops", [1]), E("c08_class", "constructors", [1, 2]),
   T("c08_sig", "functions with types on parameters and result", [1])],
  "bounded: all control-flow paths of all code of small programs")

# ---------------------------------------------------------------- C09-C13, C18-C20
for n, w in {901: "the code performs another operation than the program says", 902: "the code performs an operation the program does not have", 903: "the code leaves out an operation of the program", 904: "the code yields another value than the program", 905: "an invalid program is accepted", 906: "a valid program is rejected",
             907: "an invalid program is rejected with the wrong error", 908: "the code does something no code should", 909: "the code uses a variable whose scope has ended", 910: "the code uses a variable that has no value"}.items(): fail(n, w)
SEM = "bounded: the compiled code is executed on an abstract machine whose decisions (truth, nullness, success, loop lengths) are solver variables and compared, operation by operation, with an independent reading of the program; which program is solver variables too"
C("C09", "all expressions of 1, 2 and 3 nested constructs over 30 kinds of expression, all operators, assignments to variables at both sides of a function boundary",
  [E("c09_expr1", "every construct on every kind of leaf, with every operator", [1]), E("c09_expr2", "every construct inside every construct", [1]), E("c09_expr3", "three nested constructs", [1]),
   E("c09_many", "constructs of up to seven parts", [1]), E("c09_logic", "logical operators over comparisons and each other", [1]), E("c09_cond", "conditions of every kind", [1]),
   E("c09_assign", "assignments to variables among other expressions", [1]), E("c09_assign_fn", "assignments to captured variables", [1])], SEM)
C("C10", "all nestings of 3 (thorough: 4) loops, conditionals, break and continue; loops over ranges; leaving from the middle of an expression; returns from anywhere; values of blocks and conditionals; up to 3 iterations and 16 decisions",
  [E("c10_loops3", "three nested loops, conditionals, breaks", [1]), E("c10_ranges", "loops over ranges", [1]), T("c10_inner", "leaving a loop from the middle of an expression", [1]), E("c10_leave1", "break, continue, return, propagation at every operand of every construct, in scripts, functions, methods, constructors and lambdas", [1]), T("c10_leave2", "the same at every operand of two nested constructs", [1]), E("c10_return", "returning from anywhere", [1]), T("c10_values", "values of conditionals and blocks", [1]),
   T("c10_values3", "values of three nested conditionals and blocks", [1]), T("c10_loops4", "four nested loops, conditionals, breaks", [1])], SEM)
C("C11", "all programs of 3 and 4 declarations, uses and assignments over two names, in blocks, functions, lambdas, loops, handlers and destructurings; 24 kinds of declaration with 10 kinds of use from up to 4 functions deep, after the scope, before the declaration, and nested in one another",
  [T("c11_names3", "three declarations, uses, functions", [1, 2402, 2403]), E("c11_names4", "four declarations and uses across functions", [1, 2402]), E("c11_kinds", "24 kinds of declaration, 10 kinds of use, up to four functions deep", [1, 2301, 2401, 2402, 2403]), E("c11_alike", "three names out of eleven that are alike", [1, 2300, 2301, 2403]), E("c11_after", "uses after the scope or before the declaration", [1, 2401, 2402]), E("c11_twice", "a declaration of any kind in the scope of another of the same name", [1, 2402, 2403]), E("c11_scopes", "three scopes of every kind", [1, 2403])], SEM)
C("C12", "all programs of 5 declarations, closures, writes and calls in scopes; loops that capture and are left by every route; captures through three levels of functions; captures of 18 kinds of declaration; each escaped closure called twice afterwards",
  [E("c12_scopes", "closures over variables of nested scopes", [1]), E("c12_loop", "closures in loops left by every route", [1]), E("c12_kinds", "captures of 18 kinds of declaration in loops, blocks and functions", [1]), E("c12_many", "up to six variables of one scope captured together or apart", [1]), E("c12_numbers", "captures of several variables of several functions", [1]), T("c12_nested", "captures through several functions", [1])], SEM)
C("C13", "all chains of 4 marks, accesses and calls; errors in functions with 3 nested constructs, in handlers, in loops and among pending operands",
  [E("c13_chain3", "chains of three", [1]), E("c13_chain4", "chains of four", [1]), E("c13_err3", "error propagation in functions", [1]), E("c13_super", "marks in the arguments and results of super", [1]), E("c13_handler", "error handlers", [1]), E("c13_loops", "propagation inside loops", [1])], SEM)
for n, w in {1401: "a program beyond a limit is accepted", 1402: "a program within the limits is rejected", 1403: "a program beyond a limit is rejected with another error", 1404: "a variable has the slot of another", 1405: "a captured variable is another variable", 1406: "a count is wrong", 1407: "the code has another shape than the program",
             1408: "a constant is another constant", 1409: "a jump leads to another place", 1410: "a longer body changes the code around it"}.items(): fail(n, w)
BIG = dict(max_steps=4_000_000_000, frontier=60)
HUGE = dict(max_steps=4_000_000_000, frontier=12)
C("C14", "251 to 258 locals in scripts, functions and lambdas and in nested blocks; 128 to 257 captured variables over two levels; 253 to 257 parameters, arguments and list elements; 250 to 257 constants of every kind; 12 constructs with a body of 32767 bytes give or take 12; the variable or constant used is symbolic",
  [E("c14_locals", "251 to 258 variables, use symbolic", [1, 2102], **BIG), E("c14_blocks", "nested and consecutive blocks", [1, 2102], **BIG), T("c14_upvalues", "captured variables", [1, 2100], **BIG), E("c14_params", "parameters", [1, 1005], **BIG), E("c14_arguments", "arguments", [1, 1005], **BIG),
   E("c14_items", "list elements", [1, 2103], **BIG), E("c14_constants", "numbers, texts and names", [1, 2101], **BIG), E("c14_constants2", "functions and members", [1, 2101], **BIG), E("c14_jumps", "bodies at the limit of a jump", [1, 2104], **HUGE), E("c14_jumps2", "bodies at the limit of a jump", [1, 2104], **HUGE)],
  "bounded: sizes around each limit, decided for every use; sizes far from the limits only through the other checks")

# ---------------------------------------------------------------- C15-C17
fail(1501, "wrong line"); fail(1502, "wrong column")
C("C15", "texts of 4 and 5 characters of 1 to 4 UTF-8 bytes, 8 of 1 or 4 bytes, 10 ASCII characters (thorough: 6 of 1 to 4 bytes), every offset on a character boundary",
  [E("c15_pos4", "texts of four characters of 1 to 4 bytes", [1, 2, 3]), T("c15_pos5", "texts of five characters of 1 to 4 bytes", [1, 2, 3]), T("c15_pos8", "texts of eight characters of 1 or 4 bytes", [1, 2, 3]), E("c15_ascii", "ten ASCII characters", [1, 2, 3]), E("c15_long", "texts of up to 33 lines, any offset", [1]),
   T("c15_pos6", "texts of six characters of 1 to 4 bytes", [1, 2, 3])],
  "bounded: all texts and offsets of the stated sizes")
for n, w in {1601: "an empty range has several lines", 1602: "an empty range reports another line than its own", 1603: "the lines are not consecutive, empty or leave the range", 1604: "a line breaks elsewhere than after a line break", 1605: "the lines do not cover the range"}.items(): fail(n, w)
C("C16", "texts of 4 characters of 1 or 3 bytes and of 6 and 8 ASCII characters (thorough: 4 characters of 1 to 4 bytes), every byte range on character boundaries",
  [T("c16_lines4", "texts of four characters of 1 or 3 bytes", [2, 11, 12]), E("c16_lines6", "six ASCII characters", [2, 11, 12, 13]), E("c16_lines8", "eight ASCII characters", [2, 11, 12, 13]), E("c16_long", "texts of up to 40 lines, ranges from anywhere", [2]), T("c16_utf4", "texts of four characters of 1 to 4 bytes", [2, 11, 12])],
  "bounded: all texts and ranges of the stated sizes")
for n, w in {1701: "an instruction decodes to another byte", 1702: "an instruction has another encoding", 1703: "a byte is read wrong", 1704: "an offset is read wrong", 1705: "reading stops before the end", 1706: "reading continues past the end", 1707: "an instruction is read wrong",
             1708: "the cursor position is wrong", 1709: "the remaining length is wrong", 1710: "the position of the last instruction is wrong", 1711: "the disassembly differs from the code"}.items(): fail(n, w)
C("C17", "all 256 bytes (assigned ones); cursors over every string of 6 bytes with any sequence of reads; disassembly of every 1 and 2 instructions with any operands",
  [E("c17_codec", "every assigned instruction byte"), E("c17_cursor", "every sequence of reads over every six bytes", [1]), E("c17_disasm1", "disassembly of every instruction with any operands"), E("c17_disasm2", "disassembly of every two instructions with any operands"), E("c17_disasm_far", "disassembly of every instruction after up to 1000 others, functions inside functions", [1])],
  "bounded: byte strings of the stated lengths")

# ---------------------------------------------------------------- C18-C21
C("C18", "all classes with one member of every kind and a body of 2 nested constructs, all constructors with and without a base, all pairs of members, all programs of 3 classes, functions and variables of two names",
  [E("c18_member", "one member of every kind", [1, 2201, 2202]), E("c18_new", "constructors", [1]), E("c18_members", "two members", [1]), E("c18_many", "up to five members of all kinds", [1]), E("c18_names2", "classes, functions and variables of one another's names, two statements deep", [1]), T("c18_names", "classes, functions and variables of one another's names", [1, 2300, 2301])], SEM)
C("C19", "all modules of 1 to 3 imports, exports, declarations and uses of two names; exports and imports in 8 places of scripts and modules",
  [E("c19_many", "up to five imports, exports and variables", [1, 2505]), E("c19_module2", "modules of up to two statements", [1]), T("c19_module", "modules of up to three statements", [1]), E("c19_place", "exports and imports anywhere", [1])], SEM)
C("C20", "all functions of up to 2 parameters with types, a result type and a body of 2 nested constructs; lambdas, methods, static members and operators",
  [T("c20_sig", "functions with types", [1]), E("c20_many", "up to four parameters, any of them with types", [1, 2207]), E("c20_kinds", "lambdas, methods and three operators with types", [1]), T("c20_kinds11", "lambdas, methods and all operators with types", [1])], SEM)
for n, w in {2101: "the second compilation accepts what the first rejected, or the reverse", 2102: "the structure of the code differs", 2103: "the code differs", 2104: "a constant differs", 2105: "the name of a function differs", 2106: "the code of the error differs", 2107: "the place of the error differs", 2108: "the message of the error differs"}.items(): fail(n, w)
C("C21", "two compilations of every source of 1 (thorough: 2) arbitrary tokens in 70 constructs and of every generated program (expressions of 2 nested constructs, scopes, closures, classes, modules), with different hash seeds",
  [E("c21_ctx1", "one arbitrary token inside every surrounding construct", [1, 2]), E("c21_expr2", "expressions of two nested constructs", [1]), T("c21_names", "declarations in scopes", [1]), E("c21_closures", "captures through several functions", [1]), E("c21_class", "classes", [1]), T("c21_module", "modules", [1]), E("c21_many", "constructs of up to seven parts, many names in one scope", [1, 2]),
   T("c21_sig", "functions with types", [1]), T("c21_ctx2", "two arbitrary tokens inside every surrounding construct", [1, 2])],
  "bounded: all small sources, two compilations with different hash seeds", ["hash seeds: the seed of every hash table is another value of a fixed sequence"])

# ---------------------------------------------------------------- the same programs in every place, with literals, with other spacing
def more(pid, *items):
    CHECKS[pid]["entries"] += items

PLACES = "each also inside a module, function, lambda, method, constructor, operator, conditional, loop and loop in a function"
more("C03", T("c03_space_many", "trees of constructs of many parts, tokens separated by blanks, line breaks, comments or nothing", [1]), E("c03_space_expr2", "trees of expressions, any spacing", [1]),
     E("c03_space_loops", "trees of loops, any spacing", [1]), E("c03_space_handler", "trees of handlers, any spacing", [1]), E("c03_space_class", "trees of classes, any spacing", [1]), E("c03_space_module", "trees of modules, any spacing", [1]))
more("C09", E("c09_lits1", "every operator over literals of every kind", [1]), T("c09_expr1_any", "one operator, " + PLACES, [1]), E("c09_many_any", "constructs of up to seven parts, " + PLACES, [1]), T("c09_lits2", "two operators over literals of every kind", [1]))
more("C10", E("c10_lits1", "conditionals, loops and blocks over literals of every kind", [1]), T("c10_values_any", "values of conditionals and blocks, " + PLACES, [1]), T("c10_ranges_any", "ranges, " + PLACES, [1]), T("c10_leave1_any", "jumps in operands, " + PLACES, [1]), T("c10_lits", "two conditionals, loops and blocks over literals of every kind", [1]))
more("C11", E("c11_twice_any", "declarations that are used twice, " + PLACES, [1]), T("c11_after_any", "uses after the scope has ended, " + PLACES, [1]), T("c11_kinds_any", "every kind of declaration and use, " + PLACES, [1]))
more("C12", E("c12_kinds_any", "captures of every kind of declaration, " + PLACES, [1]), T("c12_numbers_any", "captures from two levels, " + PLACES, [1]), T("c12_loop_any", "closures in loops, " + PLACES, [1]), T("c12_many_any", "up to six variables captured, " + PLACES, [1]))
more("C13", T("c13_chain3_any", "chains of three, " + PLACES, [1]), T("c13_super_any", "marks around super, " + PLACES, [1]), T("c13_handler_any", "error handlers, " + PLACES, [1]))
more("C18", E("c18_many_any", "up to five members, " + PLACES, [1]), T("c18_member_any", "one member of every kind, " + PLACES, [1]))
more("C20", E("c20_many_any", "up to four parameters, " + PLACES, [1]), T("c20_kinds_any", "lambdas, methods and operators with types, " + PLACES, [1]), T("c20_sig_any", "functions with types, " + PLACES, [1]))
EDIT = "nine programs with one token dropped, replaced by any of 88 tokens, or preceded by any"
more("C01", E("c01_edit", EDIT, [0, 1]))
more("C03", E("c03_edit", EDIT, [1, 2]))
more("C05", E("c05_edit", EDIT, [1, 2]))
more("C07", E("c07_edit", EDIT, [1, 2]))
more("C08", E("c08_edit", EDIT, [1, 2]))
more("C21", T("c21_edit", EDIT, [1, 2]))
more("C11", E("c11_types", "names of types in signatures of all kinds", [1]))
more("C12", E("c12_super", "the base a class was declared with, used by its members later", [1]))
