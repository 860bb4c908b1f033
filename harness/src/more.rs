//! The generated programs of gen.rs put to other uses.
use crate::gen::*;
use crate::gen2::*;
use crate::sem::with;

macro_rules! uses {
    ($mode:literal: $($name:ident = $f:ident),* $(,)?) => { $( pub fn $name() { with($mode, $f) } )* };
}
uses! { 3: c03_expr2 = c09_expr2, c03_expr3 = c09_expr3, c03_loops = c10_loops3, c03_names = c11_names3, c03_class = c18_members, c03_module = c19_module, c03_sig = c20_kinds, c03_handler = c13_handler, c03_many = many, c03_leave = c10_leave1 }
uses! { 7: c07_expr3 = c09_expr3, c07_inner = c10_inner, c07_return = c10_return, c07_names = c11_scopes, c07_closures = c12_loop, c07_nested = c12_nested, c07_prop = c13_handler, c07_class = c18_new, c07_members = c18_members, c07_module = c19_module, c07_sig = c20_kinds, c07_leave = c10_leave2, c07_many = many, c07_kinds = c12_kinds }
uses! { 8: c08_expr3 = c09_expr3, c08_values = c10_values3, c08_inner = c10_inner, c08_return = c10_return, c08_scopes = c11_scopes, c08_closures = c12_loop, c08_prop = c13_handler, c08_proploops = c13_loops, c08_class = c18_new, c08_sig = c20_sig, c08_leave = c10_leave2, c08_many = many, c08_kinds = c11_kinds }
uses! { 21: c21_expr2 = c09_expr2, c21_names = c11_scopes, c21_closures = c12_nested, c21_class = c18_member, c21_module = c19_module, c21_sig = c20_sig, c21_many = many_apart }

macro_rules! wraps {
    ($($name:ident = $f:ident),* $(,)?) => { $( pub fn $name() { crate::sem::anywhere($f) } )* };
}
wraps! { c09_expr1_any = c09_expr1, c09_many_any = c09_many, c10_values_any = c10_values, c10_ranges_any = c10_ranges, c10_leave1_any = c10_leave1, c11_kinds_any = c11_kinds, c11_twice_any = c11_twice, c11_after_any = c11_after,
    c12_kinds_any = c12_kinds, c12_numbers_any = c12_numbers, c12_loop_any = c12_loop, c12_many_any = c12_many, c13_chain3_any = c13_chain3, c13_handler_any = c13_handler, c13_super_any = c13_super,
    c18_member_any = c18_member, c18_many_any = c18_many, c20_kinds_any = c20_kinds, c20_many_any = c20_many, c20_sig_any = c20_sig }
uses! { 31: c03_space_many = many, c03_space_expr2 = c09_expr2, c03_space_loops = c10_loops3, c03_space_handler = c13_handler, c03_space_class = c18_members, c03_space_module = c19_module }
