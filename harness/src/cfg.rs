//! Symbolic configurations.
use crate::rt::*;
use luafmt::config::*;

/// symbolic Option<bool> in {None, Some(false), Some(true)}, not decided until the code looks at it
pub fn obool() -> Option<bool> {
    let b = range(0, 2);
    obool_of(b)
}
pub fn obool_of(b: u8) -> Option<bool> {
    // niche layout: 0 = Some(false), 1 = Some(true), 2 = None (checked by `layout`)
    unsafe { std::mem::transmute::<u8, Option<bool>>(b) }
}
/// Some(false) / Some(true)
pub fn sbool() -> Option<bool> {
    obool_of(range(0, 1))
}
/// None or Some(lo..=hi), undecided
pub fn ousize(lo: u8, hi: u8) -> Option<usize> {
    let t = range(0, 1);
    let v = range(lo, hi);
    ousize_of(t, v)
}
pub fn ousize_of(t: u8, v: u8) -> Option<usize> {
    unsafe { std::mem::transmute::<[u64; 2], Option<usize>>([t as u64, v as u64]) }
}
pub fn susize(lo: u8, hi: u8) -> Option<usize> {
    Some(range(lo, hi) as usize)
}
/// None or Some(1)
pub fn nl() -> Option<usize> {
    ousize_of(range(0, 1), 1)
}
pub fn layout() {
    check(obool_of(0) == Some(false) && obool_of(1) == Some(true) && obool_of(2).is_none(), "Option<bool> layout");
    check(ousize_of(0, 5).is_none() && ousize_of(1, 5) == Some(5), "Option<usize> layout");
}
/// a one-character symbolic string from the set
pub fn str1(set: &[u8]) -> String {
    let mut s = String::new();
    s.push(one_of(set) as char);
    s
}
pub fn some(s: &str) -> Option<String> {
    Some(s.to_string())
}

/// the configuration file shipped with the project
pub fn default_cfg() -> Config {
    let mut c = Config::default();
    let f = &mut c.fmt;
    f.replace_zero_spaces_with_hint = Some(true);
    f.hint_after_multiline_comment = some(" ");
    f.hint_after_multiline_comment_text = some(" ");
    f.hint_before_comment = some(" ");
    f.hint_before_multiline_comment_text = some(" ");
    f.hint_before_oneline_comment_text = some(" ");
    f.hint_table_constructor = some(" ");
    f.remove_single_newlines = Some(true);
    f.remove_spaces_between_tokens = Some(true);
    f.write_newline_at_eof = Some(true);
    f.write_newline_at_multiline_table = Some(false);
    f.write_newline_at_explist_multiline_table = Some(true);
    f.indentation_string = some("    ");
    f.indent_var_suffix = Some(true);
    f.indent_exp_list = Some(true);
    f.newline_format_oneline_comment = Some(1);
    f.newline_format_statement = Some(1);
    f.newline_format_do_end = Some(1);
    f.newline_format_for = Some(1);
    f.newline_format_function = Some(1);
    f.newline_format_if = Some(1);
    f.newline_format_repeat_until = Some(1);
    f.newline_format_table_constructor = Some(1);
    f.newline_format_table_field = Some(1);
    f.newline_format_while = Some(1);
    f.newline_format_binary_op = Some(1);
    f.newline_format_var_suffix = Some(1);
    f.newline_format_exp_list = Some(1);
    f.field_separator = some(",");
    f.write_trailing_field_separator = Some(true);
    f.convert_charstring_to_normalstring = Some(false);
    f.max_width = Some(110);
    f.force_single_line_table = Some(true);
    f.force_single_line_iv_table_field = Some(false);
    f.force_single_line_kv_table_field = Some(false);
    f.force_single_line_binary_op = Some(true);
    f.force_single_line_if = Some(true);
    f.force_single_line_scoped_function = Some(true);
    f.force_single_line_var_suffix = Some(true);
    f.force_single_line_exp_list = Some(true);
    c
}

/// None or one of the strings, decided
pub fn ostr(set: &[&str]) -> Option<String> {
    let k = choice(set.len() as u8 + 1);
    if k == 0 {
        None
    } else {
        some(set[k as usize - 1])
    }
}
/// None or Some(true), undecided
pub fn ob() -> Option<bool> {
    obool_of(range(1, 2))
}
fn set_all_nl(f: &mut FormatOpts) {
    f.newline_format_statement = nl();
    f.newline_format_do_end = nl();
    f.newline_format_for = nl();
    f.newline_format_function = nl();
    f.newline_format_if = nl();
    f.newline_format_repeat_until = nl();
    f.newline_format_while = nl();
}
fn set_tables(f: &mut FormatOpts) {
    f.newline_format_table_constructor = nl();
    f.newline_format_table_field = nl();
    f.write_newline_at_multiline_table = ob();
    f.write_newline_at_explist_multiline_table = ob();
    f.force_single_line_table = ob();
    f.force_single_line_iv_table_field = ob();
    f.force_single_line_kv_table_field = ob();
    f.write_trailing_field_separator = ob();
}
fn set_exprs(f: &mut FormatOpts) {
    f.newline_format_binary_op = ousize_of(range(0, 1), range(1, 2));
    f.newline_format_var_suffix = nl();
    f.newline_format_exp_list = nl();
    f.newline_format_exp_list_first = nl();
    f.indent_var_suffix = ob();
    f.indent_one_line_var_suffix = ob();
    f.indent_exp_list = ob();
    f.indent_one_line_exp_list = ob();
}
fn set_single(f: &mut FormatOpts) {
    f.force_single_line_binary_op = ob();
    f.force_single_line_if = ob();
    f.force_single_line_top_level_function = ob();
    f.force_single_line_scoped_function = ob();
    f.force_single_line_var_suffix = ob();
    f.force_single_line_exp_list = ob();
    f.force_single_line_table = ob();
    f.force_single_line_iv_table_field = ob();
    f.force_single_line_kv_table_field = ob();
}
fn set_comments(f: &mut FormatOpts) {
    f.newline_format_oneline_comment = nl();
    f.newline_format_multiline_comment = nl();
    f.newline_format_first_oneline_comment = nl();
    f.newline_format_first_multiline_comment = nl();
}
fn clear_layout(f: &mut FormatOpts) {
    let e = FormatOpts {
        replace_zero_spaces_with_hint: f.replace_zero_spaces_with_hint,
        remove_spaces_between_tokens: f.remove_spaces_between_tokens,
        remove_single_newlines: f.remove_single_newlines,
        hint_before_comment: f.hint_before_comment.clone(),
        hint_table_constructor: f.hint_table_constructor.clone(),
        indentation_string: f.indentation_string.clone(),
        ..FormatOpts::default()
    };
    *f = e;
}
/// Configuration groups under which no two tokens may merge: either nothing is ever removed between tokens,
/// or removed white space is replaced by a blank; hints and indentation are blank.
pub const NGROUP: usize = 13;
/// groups explored by the quick checks
pub const NGROUPQ: usize = 12;
pub fn group(g: usize) -> Config {
    let mut c = default_cfg();
    let f = &mut c.fmt;
    match g {
        // the shipped configuration
        0 => {}
        // no option at all
        1 => c = Config::default(),
        // white space removal
        2 => {
            f.remove_spaces_between_tokens = obool();
            f.remove_single_newlines = obool();
            f.remove_all_newlines = obool();
            f.write_newline_at_eof = obool();
            f.indentation_string = ostr(&["", "\t"]);
        }
        // the same without any layout
        3 => {
            clear_layout(f);
            f.remove_spaces_between_tokens = obool();
            f.remove_single_newlines = obool();
            f.remove_all_newlines = obool();
            f.write_newline_at_eof = obool();
        }
        // statement layout
        4 => {
            set_all_nl(f);
            f.force_single_line_if = ob();
            f.force_single_line_scoped_function = ob();
        }
        5 => {
            clear_layout(f);
            set_all_nl(f);
        }
        // tables
        6 => {
            let mw = ousize(1, 60);
            set_tables(f);
            f.write_newline_at_explist_multiline_table = Some(true);
            f.max_width = mw;
        }
        7 => {
            clear_layout(f);
            set_tables(f);
            f.write_trailing_field_separator = None;
            f.field_separator = ostr(&[";"]);
            f.hint_table_constructor = ostr(&[""]);
        }
        // expressions
        8 => {
            f.newline_format_binary_op = ousize_of(range(0, 1), range(1, 2));
            f.newline_format_var_suffix = nl();
            f.newline_format_exp_list = nl();
            f.newline_format_exp_list_first = nl();
            f.indent_var_suffix = ob();
            f.indent_exp_list = ob();
            f.max_width = ousize(1, 40);
        }
        9 => {
            clear_layout(f);
            set_exprs(f);
            f.hint_before_comment = ostr(&[" "]);
            f.force_single_line_binary_op = ob();
            f.force_single_line_var_suffix = ob();
            f.force_single_line_exp_list = ob();
        }
        // comments
        10 => {
            set_comments(f);
            f.remove_spaces_between_tokens = obool();
            f.remove_all_newlines = obool();
            f.hint_before_comment = ostr(&["  "]);
            f.hint_after_multiline_comment = ostr(&[]);
        }
        // single line
        11 => {
            set_single(f);
            f.max_width = ousize(1, 80);
        }
        // nothing removed, all layout options
        _ => {
            c = Config::default();
            let f = &mut c.fmt;
            set_all_nl(f);
            set_tables(f);
            set_exprs(f);
            set_single(f);
            set_comments(f);
            f.max_width = ousize(1, 80);
            f.indentation_string = some("  ");
        }
    }
    c
}
