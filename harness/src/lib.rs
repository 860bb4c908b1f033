pub mod sym;
pub mod basic;
pub mod text;
pub mod total;
pub mod lexref;
pub mod code;
pub mod small;
pub mod explore;
pub mod sem;
pub mod gen;
pub mod gen2;
pub mod tree;
pub mod more;
pub mod limits;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $f() { $m::$f() } )*
        pub static TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($f), $f as extern "C" fn()) ),* ];
    };
}
table! {
    total::c01_chars1, total::c01_chars2, total::c01_chars3, total::c01_chars4, total::c01_utf8, total::c01_toks3, total::c01_toks3m, total::c01_toks4, total::c01_ctx1, total::c01_ctx2, total::c01_ctx3,
    lexref::c02_chars3, lexref::c02_chars4, lexref::c02_utf8, lexref::c02_words, lexref::c02_typo, lexref::c02_numbers, lexref::c02_punct, lexref::c02_strings, lexref::c02_comments, lexref::c02_comments2, lexref::c02_pairs, lexref::c02_long,
    small::c15_pos4, small::c15_pos5, small::c15_pos6, small::c15_pos8, small::c15_ascii, small::c15_long, small::c16_long, small::c06_strings, small::c17_disasm_far, small::c16_lines4, small::c16_lines6, small::c16_lines8, small::c16_utf4, small::c17_codec, small::c17_cursor, small::c17_disasm1, small::c17_disasm2, small::c06_int, small::c06_int_limit, small::c06_float, small::c06_float_hard, small::c06_float_near, small::c06_float_pair, small::c06_string, small::c06_two, small::c06_three,
    explore::c07_ctx1, explore::c07_ctx2, explore::c08_ctx1, explore::c08_ctx2, explore::c05_ctx2, explore::c05_ctx1m, explore::c05_render1, explore::c05_render2, explore::c05_place, explore::c05_far, explore::c05_render_codes,
    gen::c09_expr1, gen::c09_expr2, gen::c09_expr3, gen::c09_assign, gen::c09_assign_fn, gen::c10_loops3, gen::c10_loops4, gen::c10_inner, gen::c10_return, gen::c10_values, gen::c10_values3, gen::c10_ranges, gen::c11_names3, gen::c11_names4, gen::c11_scopes, gen::c12_scopes, gen::c12_loop, gen::c12_nested, gen::c13_chain3, gen::c13_chain4, gen::c13_err3, gen::c13_handler, gen::c13_loops, tree::c03_ctx1, tree::c03_ctx2, tree::c03_ctx3, tree::c03_toks3, tree::c03_toks4, tree::c03_insert, tree::c04_infix3, tree::c04_infix4, tree::c04_prefix2, tree::c04_postfix0, tree::c04_postfix1, tree::c04_parens, tree::c04_assign, tree::c04_inside, explore::c21_ctx1, explore::c21_ctx2,
    more::c03_expr2, more::c03_expr3, more::c03_loops, more::c03_names, more::c03_class, more::c03_module, more::c03_sig, more::c03_handler, more::c07_expr3, more::c07_inner, more::c07_return, more::c07_names, more::c07_closures, more::c07_nested, more::c07_prop, more::c07_class, more::c07_members, more::c07_module, more::c07_sig, more::c08_expr3, more::c08_values, more::c08_inner, more::c08_return, more::c08_scopes, more::c08_closures, more::c08_prop, more::c08_proploops, more::c08_class, more::c08_sig, more::c21_expr2, more::c21_names, more::c21_closures, more::c21_class, more::c21_module, more::c21_sig,
    gen::c18_member, gen::c18_new, gen::c18_members, gen::c18_names, gen::c18_names2, gen::c19_module, gen::c19_module2, gen::c20_kinds11, gen::c19_place, gen::c20_sig, gen::c20_kinds,
    limits::c14_locals, limits::c14_blocks, limits::c14_upvalues, limits::c14_params, limits::c14_arguments, limits::c14_items, limits::c14_constants, limits::c14_constants2, limits::c14_jumps, limits::c14_jumps2,
    gen2::c10_leave1, gen2::c10_leave2, gen2::c09_logic, gen2::c09_cond, gen2::c11_kinds, gen2::c11_after, gen2::c11_twice, gen2::c12_kinds, gen2::c12_numbers, gen2::c12_super, explore::c01_edit, explore::c03_edit, explore::c05_edit, explore::c07_edit, explore::c08_edit, explore::c21_edit, gen2::c11_types, gen2::c13_super,
    gen2::c09_many, gen2::c11_alike, gen2::c12_many, gen2::c18_many, gen2::c19_many, gen2::c20_many, more::c03_many, more::c03_leave, more::c07_many, more::c08_many, more::c21_many,
    more::c09_expr1_any, more::c09_many_any, more::c10_values_any, more::c10_ranges_any, more::c10_leave1_any, more::c11_kinds_any, more::c11_twice_any, more::c11_after_any, more::c12_kinds_any, more::c12_numbers_any, more::c12_loop_any, more::c12_many_any, more::c13_chain3_any, more::c13_handler_any, more::c13_super_any, more::c18_member_any, more::c18_many_any, more::c20_kinds_any, more::c20_many_any, more::c20_sig_any, more::c03_space_many, more::c03_space_expr2, more::c03_space_loops, more::c03_space_handler, more::c03_space_class, more::c03_space_module,
    gen::c09_lits1, gen::c09_lits2, gen::c10_lits, gen::c10_lits1,
    more::c07_leave, more::c08_leave, more::c07_kinds, more::c08_kinds,
    basic::t_total2, basic::t_total3, basic::t_total4, basic::t_cost,
}
