//! P12 acceptance of valid programs, P14 statement layout, P15 blanks.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::refp::*;
use crate::rt::*;
use crate::t0::{ntg, tg};
use luafmt::config::*;

/// the configuration that the reference layout describes
pub fn layout_cfg(indent: &str) -> Config {
    let mut c = Config::default();
    let f = &mut c.fmt;
    f.replace_zero_spaces_with_hint = Some(true);
    f.remove_spaces_between_tokens = Some(true);
    f.remove_all_newlines = Some(true);
    f.hint_table_constructor = some(" ");
    f.indentation_string = some(indent);
    f.newline_format_statement = Some(1);
    f.newline_format_do_end = Some(1);
    f.newline_format_for = Some(1);
    f.newline_format_function = Some(1);
    f.newline_format_if = Some(1);
    f.newline_format_repeat_until = Some(1);
    f.newline_format_while = Some(1);
    f.field_separator = some(",");
    f.write_trailing_field_separator = Some(false);
    c
}
/// lines without the blanks inside them: (indentation, line with single blanks)
fn lines_of(s: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    let mut start = true;
    for &c in s {
        if c == b'\n' {
            while out.last() == Some(&b' ') {
                out.pop();
            }
            out.push(c);
            start = true;
        } else if !start && (c == b' ' || c == b'\t') {
            // blanks inside a line do not count
        } else {
            if c != b' ' && c != b'\t' {
                start = false;
            }
            out.push(c);
        }
    }
    out
}
/// one line: every line break with the indentation after it becomes a blank
fn one_line(s: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\n' {
            while i < s.len() && (s[i] == b'\n' || s[i] == b' ' || s[i] == b'\t') {
                i += 1;
            }
            out.push(b' ');
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}
pub fn want_layout(src: &String, c: &Config, st: Style, sep: &str) -> Vec<u8> {
    let ind = c.fmt.indentation_string.clone().unwrap_or_default();
    let mut p = P::new(src.as_bytes(), st, &ind);
    p.sep = sep;
    if p.chunk().is_none() {
        fail("reference parser rejects");
    }
    report_bytes("want", &p.out);
    p.out
}
pub fn check_lines(o: &String, want: &[u8]) {
    check(lines_of(o.as_bytes()) == lines_of(want), "lines or indentation differ");
}
pub fn check_blanks(o: &String, want: &[u8]) {
    check(one_line(o.as_bytes()) == one_line(want), "blanks differ");
}
/// a layout option: off, or one line break
fn opt_nl(o: &mut Option<usize>) -> bool {
    let b = range(0, 1);
    *o = ousize_of(b, 1);
    b == 1
}
/// every layout option symbolic
pub fn sym_style(f: &mut FormatOpts) -> Style {
    let mut st = ALL_NL;
    st.nl_stmt = opt_nl(&mut f.newline_format_statement);
    st.nl_do = opt_nl(&mut f.newline_format_do_end);
    st.nl_for = opt_nl(&mut f.newline_format_for);
    st.nl_fn = opt_nl(&mut f.newline_format_function);
    st.nl_if = opt_nl(&mut f.newline_format_if);
    st.nl_rep = opt_nl(&mut f.newline_format_repeat_until);
    st.nl_while = opt_nl(&mut f.newline_format_while);
    st
}
fn no_style(f: &mut FormatOpts) -> Style {
    f.newline_format_statement = None;
    f.newline_format_do_end = None;
    f.newline_format_for = None;
    f.newline_format_function = None;
    f.newline_format_if = None;
    f.newline_format_repeat_until = None;
    f.newline_format_while = None;
    NO_NL
}
/// expression and table layout options, those of the group (0..3; 3: all) symbolic, the others on
pub fn sym_exprs(f: &mut FormatOpts, st: &mut Style, g: usize) {
    let b = |on: bool| {
        let b = if on { range(0, 1) } else { 1 };
        (b == 1, obool_of(b))
    };
    let n = |on: bool, o: &mut Option<usize>| {
        let b = if on { range(0, 1) } else { 1 };
        *o = ousize_of(b, 1);
        b == 1
    };
    let (g0, g1, g2) = (g == 0 || g == 3, g == 1 || g == 3, g == 2 || g == 3);
    let op = if g0 || g2 { range(0, 2) } else { 1 };
    f.newline_format_binary_op = ousize_of((op != 0) as u8, op);
    st.nl_op = op;
    st.nl_item = n(g1, &mut f.newline_format_exp_list);
    st.nl_item1 = n(g1, &mut f.newline_format_exp_list_first);
    st.nl_suf = n(g0, &mut f.newline_format_var_suffix);
    st.nl_field = n(g2, &mut f.newline_format_table_field);
    st.nl_close = n(g2, &mut f.newline_format_table_constructor);
    (st.nl_open, f.write_newline_at_multiline_table) = b(g1 || g2);
    let (t, o) = b(g1);
    st.nl_tab = t & !st.nl_open;
    f.write_newline_at_explist_multiline_table = o;
    (st.ind_list, f.indent_exp_list) = b(g1);
    (st.ind_list1, f.indent_one_line_exp_list) = b(g1);
    (st.ind_suf, f.indent_var_suffix) = b(g0);
    (st.ind_suf1, f.indent_one_line_var_suffix) = b(g0);
}
fn exprs(src: &String, indent: &str, g: usize, all: bool) {
    let mut cf = layout_cfg(indent);
    let mut st = if all { sym_style(&mut cf.fmt) } else { ALL_NL };
    sym_exprs(&mut cf.fmt, &mut st, g);
    let o = fmt(src, &cf);
    let w = want_layout(src, &cf, st, ",");
    check_lines(&o, &w);
    check_blanks(&o, &w);
}
/// P20: the layout of expressions and tables
#[no_mangle]
pub extern "C" fn h_p20_ctx_jobs() -> u32 {
    (CTX.len() * NT * 3) as u32
}
#[no_mangle]
pub extern "C" fn h_p20_ctx() {
    // (groups spread)
    let j = (job() as usize * 1009) % (CTX.len() * NT * 3);
    let (c, t, g) = (j % CTX.len(), j / CTX.len() % NT, j / CTX.len() / NT);
    if !ctx_ok(c, t) {
        return;
    }
    exprs(&text_of(fill_all(&in_ctx(c, TEMPLATES[t]), [0, 5][t % 2])), ["  ", "\t", "    "][t % 3], g, false);
}
/// one gap with white space
#[no_mangle]
pub extern "C" fn h_p20_gap_jobs() -> u32 {
    ntg()
}
#[no_mangle]
pub extern "C" fn h_p20_gap() {
    let (t, g) = tg(job());
    let k = choice(3);
    exprs(&text_of(program(t, g, k, true)), "  ", 4, false);
}
#[no_mangle]
pub extern "C" fn h_p20_all_jobs() -> u32 {
    (CTX.len() * NT) as u32
}
/// all options together
#[no_mangle]
pub extern "C" fn h_p20_all() {
    let j = (job() as usize * 1009) % (CTX.len() * NT);
    let (c, t) = (j % CTX.len(), j / CTX.len() % NT);
    if !ctx_ok(c, t) {
        return;
    }
    exprs(&text_of(fill_all(&in_ctx(c, TEMPLATES[t]), 0)), " ", 3, true);
}
#[no_mangle]
pub extern "C" fn h_p20_big_jobs() -> u32 {
    (NBIG * 3) as u32
}
#[no_mangle]
pub extern "C" fn h_p20_big_first() -> u32 {
    (NBLK * 3) as u32
}
#[no_mangle]
pub extern "C" fn h_p20_big() {
    let (k, m) = big_job(job(), 3);
    if let Some(s) = big(k) {
        exprs(&text_of(fill_all(&s, 0)), "  ", m, false);
    }
}
/// P14: programs in statement contexts, every combination of the layout options
#[no_mangle]
pub extern "C" fn h_p14_ctx_jobs() -> u32 {
    (CTX.len() * NT * 3) as u32
}
#[no_mangle]
pub extern "C" fn h_p14_ctx() {
    let j = job() as usize;
    let (c, t, m) = (j % CTX.len(), j / CTX.len() % NT, [0, 2, 5][j / CTX.len() / NT]);
    if !ctx_ok(c, t) {
        return;
    }
    let src = text_of(fill_all(&in_ctx(c, TEMPLATES[t]), m));
    let mut cf = layout_cfg(["  ", "\t", "    "][t % 3]);
    let st = sym_style(&mut cf.fmt);
    let o = fmt(&src, &cf);
    let w = want_layout(&src, &cf, st, ",");
    check_lines(&o, &w);
}
/// P14: one gap with symbolic white space, layout options all on
#[no_mangle]
pub extern "C" fn h_p14_gap_jobs() -> u32 {
    ntg() * 3
}
#[no_mangle]
pub extern "C" fn h_p14_gap() {
    let (t, g) = tg(job() / 3);
    let k = choice(3);
    let src = text_of(program(t, g, k, job() % 3 != 0));
    let mut cf = layout_cfg("  ");
    let mut st = ALL_NL;
    if job() % 3 == 2 {
        st = no_style(&mut cf.fmt);
    }
    let o = fmt(&src, &cf);
    let w = want_layout(&src, &cf, st, ",");
    check_lines(&o, &w);
}
/// P15: one gap with symbolic white space, layout all on / all off / symbolic separator and hint
#[no_mangle]
pub extern "C" fn h_p15_gap_jobs() -> u32 {
    ntg() * 2
}
#[no_mangle]
pub extern "C" fn h_p15_gap() {
    let (t, g) = tg(job() / 2);
    let k = choice(3);
    let src = text_of(program(t, g, k, true));
    let mut cf = layout_cfg("\t");
    let mut st = ALL_NL;
    if job() % 2 == 1 {
        st = no_style(&mut cf.fmt);
        cf.fmt.hint_table_constructor = ostr(&[""]);
        st.hint_table = false;
    }
    let o = fmt(&src, &cf);
    let w = want_layout(&src, &cf, st, ",");
    check_blanks(&o, &w);
}
/// P15: programs in statement contexts, white space everywhere
#[no_mangle]
pub extern "C" fn h_p15_ctx_jobs() -> u32 {
    (CTX.len() * NT * 4) as u32
}
#[no_mangle]
pub extern "C" fn h_p15_ctx() {
    let j = job() as usize;
    let (c, t, m) = (j % CTX.len(), j / CTX.len() % NT, [0, 1, 2, 5][j / CTX.len() / NT]);
    if !ctx_ok(c, t) {
        return;
    }
    let src = text_of(fill_all(&in_ctx(c, TEMPLATES[t]), m));
    let mut cf = layout_cfg(" ");
    let mut st = sym_style(&mut cf.fmt);
    let h = choice(3);
    cf.fmt.hint_table_constructor = if h == 0 { None } else { some(["", " "][h as usize - 1]) };
    st.hint_table = h == 2;
    let sep = [",", ";"][choice(2) as usize];
    cf.fmt.field_separator = some(sep);
    let o = fmt(&src, &cf);
    let w = want_layout(&src, &cf, st, sep);
    check_blanks(&o, &w);
}
