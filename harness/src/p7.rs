//! Bigger programs: operands replaced by other expressions, pairs of statements, contexts in contexts, deep nesting.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::p2::*;
use crate::p3::*;
use crate::rt::*;
use luafmt::config::*;

fn jobs(modes: usize) -> u32 {
    (NBIG * modes) as u32
}
fn src_of(k: usize, mode: usize) -> Option<String> {
    big(k).map(|s| text_of(fill_all(&s, mode)))
}
/// configurations with few decisions
const NLIGHT: usize = 5;
fn light(m: usize) -> Config {
    let mut c = default_cfg();
    let f = &mut c.fmt;
    match m {
        0 => f.max_width = susize(1, 110),
        1 => {
            c = group(3);
        }
        2 => {
            // everything on lines of its own
            f.newline_format_exp_list_first = Some(1);
            f.newline_format_binary_op = Some(2);
            f.max_width = None;
            f.force_single_line_table = None;
            f.force_single_line_if = None;
            f.force_single_line_scoped_function = None;
            f.force_single_line_exp_list = None;
            f.force_single_line_var_suffix = None;
            f.force_single_line_binary_op = None;
            f.write_newline_at_multiline_table = sbool();
            f.indent_exp_list = sbool();
            f.indent_var_suffix = sbool();
        }
        3 => {
            // nothing removed, line breaks asked for
            let mut d = Config::default();
            d.fmt.newline_format_statement = Some(1);
            d.fmt.newline_format_function = Some(1);
            d.fmt.newline_format_if = Some(1);
            d.fmt.newline_format_table_field = Some(1);
            d.fmt.newline_format_table_constructor = Some(1);
            d.fmt.newline_format_binary_op = Some(1);
            d.fmt.indentation_string = ostr(&["\t"]);
            d.fmt.max_width = Some(30);
            d.fmt.force_single_line_if = sbool();
            d.fmt.force_single_line_scoped_function = sbool();
            d.fmt.force_single_line_table = sbool();
            c = d;
        }
        _ => {
            f.max_width = Some(60);
            f.force_single_line_top_level_function = Some(true);
            f.force_single_line_iv_table_field = sbool();
            f.force_single_line_kv_table_field = sbool();
            f.remove_spaces_between_tokens = sbool();
            f.field_separator = some(";");
        }
    }
    c
}
#[no_mangle]
pub extern "C" fn h_p01_big_jobs() -> u32 {
    jobs(NLIGHT * 3)
}
#[no_mangle]
pub extern "C" fn h_p01_big_first() -> u32 {
    (NBLK * (NLIGHT * 3)) as u32
}
/// P01 under symbolic configurations
#[no_mangle]
pub extern "C" fn h_p01_big() {
    let (k, m) = big_job(job(), NLIGHT * 3);
    if let Some(src) = src_of(k, [0, 3, 4][m / NLIGHT]) {
        let o = fmt(&src, &light(m % NLIGHT));
        code(&src, &o);
    }
}
#[no_mangle]
pub extern "C" fn h_p02_big_jobs() -> u32 {
    jobs(NLIGHT * 3)
}
#[no_mangle]
pub extern "C" fn h_p02_big_first() -> u32 {
    (NBLK * (NLIGHT * 3)) as u32
}
#[no_mangle]
pub extern "C" fn h_p02_big() {
    let (k, m) = big_job(job(), NLIGHT * 3);
    if let Some(src) = src_of(k, [3, 4, 6][m / NLIGHT]) {
        let c = light(m % NLIGHT);
        let trim = c.fmt.hint_before_oneline_comment_text.is_some();
        let o = fmt(&src, &c);
        comments(&src, &o, trim);
    }
}
#[no_mangle]
pub extern "C" fn h_p03_big_jobs() -> u32 {
    jobs(NLIGHT * 3)
}
#[no_mangle]
pub extern "C" fn h_p03_big_first() -> u32 {
    (NBLK * (NLIGHT * 3)) as u32
}
#[no_mangle]
pub extern "C" fn h_p03_big() {
    let (k, m) = big_job(job(), NLIGHT * 3);
    if let Some(src) = src_of(k, [3, 4, 6][m / NLIGHT]) {
        let mut c = light(m % NLIGHT);
        c.fmt.remove_comments = Some(true);
        c.fmt.replace_zero_spaces_with_hint = Some(true);
        let o = fmt(&src, &c);
        check_removed(&src, &o);
    }
}
#[no_mangle]
pub extern "C" fn h_p06_big_jobs() -> u32 {
    jobs(5)
}
#[no_mangle]
pub extern "C" fn h_p06_big_first() -> u32 {
    (NBLK * (5)) as u32
}
#[no_mangle]
pub extern "C" fn h_p06_big() {
    let (k, m) = big_job(job(), 5);
    if let Some(src) = src_of(k, [0, 7, 1, 3, 5][m]) {
        let mut c = default_cfg();
        c.fmt.max_width = susize(1, 110);
        again(&src, &c);
    }
}
#[no_mangle]
pub extern "C" fn h_p07_big_jobs() -> u32 {
    jobs(2)
}
#[no_mangle]
pub extern "C" fn h_p07_big_first() -> u32 {
    (NBLK * (2)) as u32
}
/// conversion reaches every string of a program; all literals keep their value
#[no_mangle]
pub extern "C" fn h_p07_big() {
    let (k, m) = big_job(job(), 2);
    // strings for operands: the first block of the family; other programs have few strings
    let k = if k < NBIG - NBLK && k < NT * 16 * SUBST.len() { k % (NT * 16) } else { k };
    if let Some(src) = src_of(k, [0, 3][m]) {
        let mut c = default_cfg();
        c.fmt.max_width = ousize(1, 110);
        c.fmt.convert_charstring_to_normalstring = Some(true);
        let o = fmt(&src, &c);
        same_lits(&src, &o, false);
        no_single_quotes(&o);
    }
}
#[no_mangle]
pub extern "C" fn h_p12_big_jobs() -> u32 {
    jobs(3)
}
#[no_mangle]
pub extern "C" fn h_p12_big_first() -> u32 {
    (NBLK * (3)) as u32
}
#[no_mangle]
pub extern "C" fn h_p12_big() {
    let (k, m) = big_job(job(), 3);
    if let Some(src) = src_of(k, [0, 2, 3][m]) {
        fmt(&src, &Config::default());
    }
}
#[no_mangle]
pub extern "C" fn h_p14_big_jobs() -> u32 {
    jobs(2)
}
#[no_mangle]
pub extern "C" fn h_p14_big_first() -> u32 {
    (NBLK * (2)) as u32
}
#[no_mangle]
pub extern "C" fn h_p14_big() {
    let (k, m) = big_job(job(), 2);
    if let Some(src) = src_of(k, [0, 5][m]) {
        let mut cf = layout_cfg(["  ", "\t", "    "][k % 3]);
        let st = sym_style(&mut cf.fmt);
        let o = fmt(&src, &cf);
        let w = want_layout(&src, &cf, st, ",");
        check_lines(&o, &w);
    }
}
#[no_mangle]
pub extern "C" fn h_p15_big_jobs() -> u32 {
    jobs(2)
}
#[no_mangle]
pub extern "C" fn h_p15_big_first() -> u32 {
    (NBLK * (2)) as u32
}
#[no_mangle]
pub extern "C" fn h_p15_big() {
    let (k, m) = big_job(job(), 2);
    if let Some(src) = src_of(k, [0, 5][m]) {
        let mut cf = layout_cfg(" ");
        let mut st = sym_style(&mut cf.fmt);
        let h = choice(3);
        cf.fmt.hint_table_constructor = if h == 0 { None } else { some(["", " "][h as usize - 1]) };
        st.hint_table = h == 2;
        let sep = [",", ";"][choice(2) as usize];
        cf.fmt.field_separator = some(sep);
        let o = fmt(&src, &cf);
        let w = want_layout(&src, &cf, st, sep);
        check_blanks(&o, &w);
    }
}
#[no_mangle]
pub extern "C" fn h_p18_big_jobs() -> u32 {
    jobs(6)
}
#[no_mangle]
pub extern "C" fn h_p18_big_first() -> u32 {
    (NBLK * (6)) as u32
}
#[no_mangle]
pub extern "C" fn h_p18_big() {
    let (k, m) = big_job(job(), 6);
    if let Some(src) = src_of(k, [0, 1, 3, 4, 5, 6][m]) {
        unchanged(&src);
    }
}
#[no_mangle]
pub extern "C" fn h_p07_all_jobs() -> u32 {
    (CTX.len() * NT) as u32
}
/// strings everywhere in a program: conversion reaches every one
#[no_mangle]
pub extern "C" fn h_p07_all() {
    let j = job() as usize;
    let (c, t) = (j % CTX.len(), j / CTX.len());
    if !ctx_ok(c, t) {
        return;
    }
    let src = text_of(fill_all(&all_operands(c, t, "'a\"'"), 0));
    let mut cf = default_cfg();
    cf.fmt.max_width = ousize(1, 110);
    cf.fmt.convert_charstring_to_normalstring = Some(true);
    let o = fmt(&src, &cf);
    same_lits(&src, &o, false);
    no_single_quotes(&o);
}
