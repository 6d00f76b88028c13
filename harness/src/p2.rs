//! P03 comment removal, P06 idempotence, P07 literals, P16 end of file, P17 separators, P18 no options.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::rt::*;
use crate::t0::{ntg, tg};
use crate::tok::*;
use luafmt::config::*;

fn gap_src() -> String {
    let (t, g) = tg(job());
    let kind = choice(NFILL);
    text_of(program(t, g, kind, true))
}
pub fn check_removed(src: &String, o: &String) {
    let a = canon(src.as_bytes(), false, true);
    let b = canon(o.as_bytes(), false, true);
    check(a.code == b.code, "code tokens differ");
    check(b.ncomments == 0, "a comment is left");
}
#[no_mangle]
pub extern "C" fn h_p03_gap_jobs() -> u32 {
    ntg()
}
#[no_mangle]
pub extern "C" fn h_p03_gap() {
    let (t, g) = tg(job());
    let kind = 3 + choice(NFILL - 3);
    let src = text_of(program(t, g, kind, true));
    let mut c = default_cfg();
    c.fmt.remove_comments = Some(true);
    let o = fmt(&src, &c);
    check_removed(&src, &o);
}
#[no_mangle]
pub extern "C" fn h_p03_cfg_jobs() -> u32 {
    (NGROUPQ * NT * 3) as u32
}
#[no_mangle]
pub extern "C" fn h_p03_cfg() {
    let j = job() as usize;
    let (g, t, m) = (j % NGROUPQ, j / NGROUPQ % NT, [3, 4, 6][j / NGROUPQ / NT]);
    let src = text_of(fill_all(TEMPLATES[t], m));
    let mut c = group(g);
    c.fmt.remove_comments = Some(true);
    c.fmt.replace_zero_spaces_with_hint = Some(true);
    let o = fmt(&src, &c);
    check_removed(&src, &o);
}
pub fn again(src: &String, c: &Config) {
    let o = fmt(src, c);
    match luafmt::formatter::process_buffer_with_config(&o, c, false) {
        Ok(o2) => {
            report("again", &o2);
            check(o == o2, "formatting the output again changes it");
        }
        Err(_) => fail("output rejected"),
    }
}
#[no_mangle]
pub extern "C" fn h_p06_gap_jobs() -> u32 {
    ntg()
}
#[no_mangle]
pub extern "C" fn h_p06_gap() {
    // a trailing field separator is dropped or moved: a comment in front of it changes its neighbours
    let (t, g) = tg(job());
    let ts = split(TEMPLATES[t]);
    if g + 1 < ts.len() && (ts[g] == "," || ts[g] == ";") && ts[g + 1] == "}" {
        return;
    }
    let src = gap_src();
    let c = default_cfg();
    again(&src, &c);
}
/// P06: the same for programs in statement contexts, with all gaps filled alike and several widths
#[no_mangle]
pub extern "C" fn h_p06_ctx_jobs() -> u32 {
    (CTX.len() * NT * 6) as u32
}
#[no_mangle]
pub extern "C" fn h_p06_ctx() {
    let j = job() as usize;
    let (c, t, m) = (j % CTX.len(), j / CTX.len() % NT, [7, 0, 1, 2, 3, 5][j / CTX.len() / NT]);
    if !ctx_ok(c, t) {
        return;
    }
    let src = text_of(fill_all(&in_ctx(c, TEMPLATES[t]), m));
    let mut cf = default_cfg();
    cf.fmt.max_width = susize(1, 110);
    again(&src, &cf);
}

// ---- P05 robustness

pub const FRAMES: &[(&str, &str)] = &[
    ("", ""),
    ("a=", ""),
    ("a=1", "b"),
    ("--", ""),
    ("--[", "]"),
    ("--[[", "]]"),
    ("--[=[", "]=]"),
    ("a=[[", "]]"),
    ("a=[=[", "]=]"),
    ("a=\"", "\""),
    ("a='", "'"),
    ("a='\\", "'"),
    ("a=0x", ""),
    ("a=1e", ""),
    ("f(", ")"),
    ("t={", "}"),
    ("a[", "]=1"),
    ("if a then ", " end"),
    ("function f(", ") end"),
    ("#!", ""),
    ("#!x\n", "\n"),
    ("return ", ""),
    ("for i", " do end"),
    ("a = b --", "\n + c"),
    ("x()\n", "\ny()"),
];
/// one symbolic character: any ASCII character, any two-byte character, any from U+F000, a Unicode space, a four-byte one
pub fn any_char(out: &mut Vec<u8>) {
    match choice(4) {
        0 | 1 => {
            let c = u8_();
            assume(c < 128);
            out.push(c);
        }
        2 => {
            out.push(range(0xc2, 0xdf));
            out.push(range(0x80, 0xbf));
        }
        _ => {
            match choice(3) {
                0 => out.extend_from_slice("\u{2028}".as_bytes()),
                1 => {
                    let (b, c) = (range(0x80, 0xbf), range(0x80, 0xbf));
                    out.extend_from_slice(&[0xef, b, c]);
                }
                _ => out.extend_from_slice("\u{1f600}".as_bytes()),
            }
        }
    }
}
fn any_ascii(out: &mut Vec<u8>) {
    let c = u8_();
    assume(c < 128);
    out.push(c);
}
fn robust(src: &String, c: &Config) {
    report("in", src);
    match luafmt::formatter::process_buffer_with_config(src, c, false) {
        Ok(o) => {
            report("out", &o);
            cover(1);
        }
        Err(e) => {
            // the error must be printable
            let s = format!("{}", e);
            check(!s.is_empty(), "empty error message");
            cover(2);
        }
    }
    show_cfg(c);
}
fn robust_cfg(k: usize) -> Config {
    match k {
        0 => default_cfg(),
        1 => Config::default(),
        _ => {
            let mut c = default_cfg();
            let l = range(0, 4);
            let r = range(0, 5);
            let r = if r == 5 { usize::MAX } else { conc(r as u64) as usize };
            c.line_range = Some((conc(l as u64) as usize, r));
            c
        }
    }
}
#[no_mangle]
pub extern "C" fn h_p05_short_jobs() -> u32 {
    (FRAMES.len() * 2) as u32
}
/// any three ASCII characters in a frame
#[no_mangle]
pub extern "C" fn h_p05_short() {
    let (f, k) = (job() as usize % FRAMES.len(), job() as usize / FRAMES.len());
    let mut v = FRAMES[f].0.as_bytes().to_vec();
    for _ in 0..3 {
        any_ascii(&mut v);
    }
    v.extend_from_slice(FRAMES[f].1.as_bytes());
    robust(&text_of(v), &robust_cfg(k));
}
#[no_mangle]
pub extern "C" fn h_p05_uni_jobs() -> u32 {
    (FRAMES.len() * 3) as u32
}
/// any two characters (also non-ASCII ones) in a frame, also with a line range
#[no_mangle]
pub extern "C" fn h_p05_uni() {
    let (f, k) = (job() as usize % FRAMES.len(), job() as usize / FRAMES.len());
    let mut v = FRAMES[f].0.as_bytes().to_vec();
    any_char(&mut v);
    any_char(&mut v);
    v.extend_from_slice(FRAMES[f].1.as_bytes());
    robust(&text_of(v), &robust_cfg(k));
}
#[no_mangle]
pub extern "C" fn h_p05_cfg_jobs() -> u32 {
    (NT * NMODE * 10) as u32
}
fn any_cfg(k: usize) -> Config {
    let mut c = if k % 2 == 0 { default_cfg() } else { Config::default() };
    let f = &mut c.fmt;
    match k / 2 {
        0 => {
            f.replace_zero_spaces_with_hint = obool();
            f.remove_comments = obool();
            f.remove_all_newlines = obool();
            f.remove_single_newlines = obool();
            f.remove_spaces_between_tokens = obool();
            f.max_width = ousize(0, 1);
        }
        1 => {
            f.newline_format_statement = ousize(0, 3);
            f.newline_format_binary_op = ousize(0, 3);
            f.newline_format_exp_list = ousize(0, 3);
            f.newline_format_exp_list_first = ousize(0, 3);
            f.newline_format_var_suffix = ousize(0, 3);
            f.newline_format_if = ousize(0, 3);
            f.newline_format_function = ousize(0, 3);
            f.max_width = ousize(0, 20);
            f.force_single_line_exp_list = ob();
            f.force_single_line_var_suffix = ob();
            f.force_single_line_binary_op = ob();
        }
        // hints and text of two- and four-byte characters, with line breaks
        3 => {
            f.indentation_string = some("\u{1f600}");
            f.hint_before_comment = some("\u{3000}");
            f.hint_before_oneline_comment_text = ostr(&["\u{e9}", "\n", "["]);
            f.hint_before_multiline_comment_text = ostr(&["\u{e9}", "]"]);
            f.hint_after_multiline_comment_text = ostr(&["\u{e9}", "]"]);
            f.hint_after_multiline_comment = some("\u{1f600}");
            f.newline_format_statement = ousize(0, 2);
            f.newline_format_binary_op = ousize(0, 2);
            f.newline_format_first_oneline_comment = ousize(0, 2);
            f.newline_format_first_multiline_comment = ousize(0, 2);
            f.newline_format_oneline_comment = ousize(0, 2);
            f.newline_format_multiline_comment = ousize(0, 2);
            f.max_width = ousize(0, 20);
        }
        // comments and white space under all removals
        4 => {
            f.remove_comments = obool();
            f.remove_all_newlines = obool();
            f.remove_single_newlines = obool();
            f.remove_spaces_between_tokens = obool();
            f.hint_before_comment = ostr(&["", "\u{e9}"]);
            f.hint_after_multiline_comment = ostr(&["", "\u{e9}"]);
            f.newline_format_first_oneline_comment = ousize(0, 2);
            f.newline_format_first_multiline_comment = ousize(0, 2);
            f.newline_format_oneline_comment = ousize(0, 2);
            f.newline_format_multiline_comment = ousize(0, 2);
            f.write_newline_at_eof = obool();
            f.max_width = [Some(usize::MAX), Some(1 << 63)][choice(2) as usize];
        }
        _ => {
            f.newline_format_table_constructor = ousize(0, 3);
            f.newline_format_table_field = ousize(0, 3);
            f.write_trailing_field_separator = obool();
            f.force_single_line_table = ob();
            f.force_single_line_iv_table_field = ob();
            f.force_single_line_kv_table_field = ob();
            f.field_separator = some("\u{e9}");
            f.hint_table_constructor = some("\u{3000}\n");
            f.hint_before_comment = some("\u{e9}");
            f.hint_after_multiline_comment = some("\n");
            f.indentation_string = some("\u{e9}");
            f.max_width = ousize(0, 20);
        }
    }
    c
}
/// every template under configurations outside the token-safe groups
#[no_mangle]
pub extern "C" fn h_p05_cfg() {
    let j = job() as usize;
    let (t, m, k) = (j % NT, j / NT % NMODE, j / NT / NMODE);
    let src = text_of(fill_all(TEMPLATES[t], m));
    robust(&src, &any_cfg(k));
}

// ---- P07 literals

/// a program around one literal
fn with_lit(lit: &[u8]) -> String {
    let mut v = Vec::with_capacity(64);
    match choice(4) {
        0 => {
            v.extend_from_slice(b"a=");
            v.extend_from_slice(lit);
        }
        1 => {
            v.extend_from_slice(b"f(");
            v.extend_from_slice(lit);
            v.extend_from_slice(b")");
        }
        2 => {
            v.extend_from_slice(b"t={[ ");
            v.extend_from_slice(lit);
            v.extend_from_slice(b" ]=");
            v.extend_from_slice(lit);
            v.extend_from_slice(b"}");
        }
        _ => {
            v.extend_from_slice(b"return ");
            v.extend_from_slice(lit);
            v.extend_from_slice(b"==");
            v.extend_from_slice(lit);
        }
    }
    text_of(v)
}
pub fn same_lits(src: &String, o: &String, exact: bool) {
    let a = canon(src.as_bytes(), !exact, true);
    let b = canon(o.as_bytes(), !exact, true);
    check(a.code == b.code, if exact { "a literal changed" } else { "a literal denotes another value" });
}
pub fn no_single_quotes(o: &String) {
    for t in tokens(o.as_bytes()) {
        if t.k == K::Str {
            check(o.as_bytes()[t.a] == b'"', "a single-quoted string is left");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_p07_str_jobs() -> u32 {
    4
}
/// quoted strings with three symbolic elements, conversion on or off
#[no_mangle]
pub extern "C" fn h_p07_str() {
    let j = job();
    let q = if j % 2 == 0 { b'"' } else { b'\'' };
    let conv = j / 2 == 1;
    let mut l = vec![q];
    for _ in 0..3 {
        str_elem(q, &mut l);
    }
    l.push(q);
    let src = with_lit(&l);
    let mut c = default_cfg();
    c.fmt.convert_charstring_to_normalstring = obool_of(if conv { 1 } else { one_of(&[0, 2]) });
    let o = fmt(&src, &c);
    same_lits(&src, &o, !conv);
    if conv {
        no_single_quotes(&o);
    }
}
#[no_mangle]
pub extern "C" fn h_p07_esc_jobs() -> u32 {
    6
}
/// backslash sequences: any ASCII character after a backslash, numeric and line-break escapes
#[no_mangle]
pub extern "C" fn h_p07_esc() {
    let j = job();
    let q = if j % 2 == 0 { b'"' } else { b'\'' };
    let mut l = vec![q];
    match j / 2 {
        0 => {
            // \x with any printable character, twice
            for _ in 0..2 {
                l.push(b'\\');
                let c = u8_();
                assume((c >= 32) & (c < 127));
                l.push(c);
            }
        }
        1 => {
            l.extend_from_slice(b"\\\n");
            l.push(b'\\');
            l.push(range(b'0', b'9'));
            l.push(range(b'0', b'9'));
            str_elem(q, &mut l);
        }
        _ => {
            l.extend_from_slice(b"\\x4");
            l.push(one_of(b"0123456789abcdefABCDEF"));
            l.extend_from_slice(b"\\u{1F}");
            l.extend_from_slice(b"\\z \n ");
            str_elem(q, &mut l);
        }
    }
    l.push(q);
    let src = with_lit(&l);
    let mut c = default_cfg();
    let conv = boolean();
    c.fmt.convert_charstring_to_normalstring = Some(conv);
    let o = fmt(&src, &c);
    same_lits(&src, &o, !conv);
    if conv {
        no_single_quotes(&o);
    }
}
#[no_mangle]
pub extern "C" fn h_p07_long_jobs() -> u32 {
    9
}
/// long strings of level 0..2 with up to four symbolic characters
#[no_mangle]
pub extern "C" fn h_p07_long() {
    let level = job() as usize % 3;
    let n = 2 + job() as usize / 3;
    let mut l = vec![b'['];
    for _ in 0..level {
        l.push(b'=');
    }
    l.push(b'[');
    long_text(n, level, &mut l);
    l.push(b']');
    for _ in 0..level {
        l.push(b'=');
    }
    l.push(b']');
    let mut v = b"a= ".to_vec();
    v.extend_from_slice(&l);
    let src = text_of(v);
    let o = fmt(&src, &default_cfg());
    same_lits(&src, &o, true);
}
#[no_mangle]
pub extern "C" fn h_p07_num_jobs() -> u32 {
    17
}
/// numerals with symbolic digits
#[no_mangle]
pub extern "C" fn h_p07_num() {
    let src = with_lit(&numeral());
    let o = fmt(&src, &default_cfg());
    same_lits(&src, &o, true);
}
pub fn numeral() -> Vec<u8> {
    let d = || range(b'0', b'9');
    let h = || one_of(b"0123456789abcdefABCDEF");
    let e = || one_of(b"eE");
    let s = || one_of(b"+-");
    let x = || one_of(b"xX");
    match job() {
        0 => vec![d(), d(), d()],
        1 => vec![d(), b'.', d()],
        2 => vec![b'.', d(), d()],
        3 => vec![d(), b'.'],
        4 => vec![d(), e(), d(), d()],
        5 => vec![d(), b'.', d(), e(), s(), d()],
        6 => vec![b'0', x(), h(), h(), h()],
        7 => vec![b'.', d(), e(), s(), d()],
        // longer ones
        8 | 9 | 10 => {
            let mut v = vec![b'0', x(), h()];
            v.extend_from_slice(&b"9fBc01aE8d7F3e5"[..(job() as usize - 8) * 5 + 4]);
            v.push(h());
            v
        }
        11 | 12 | 13 => {
            let mut v = vec![d()];
            v.extend_from_slice(&b"907856341290563412"[..(job() as usize - 11) * 5 + 4]);
            v.push(d());
            v
        }
        14 => {
            let mut v = vec![d()];
            v.extend_from_slice(b"0.000123456789");
            v.push(d());
            v.push(e());
            v.push(s());
            v.extend_from_slice(b"12");
            v.push(d());
            v
        }
        // no digit behind the period, an exponent
        15 => vec![d(), b'.', e(), d(), d()],
        _ => vec![d(), d(), e(), s(), d(), d()],
    }
}

// ---- P16 end of file

#[no_mangle]
pub extern "C" fn h_p16_jobs() -> u32 {
    (NT * 2) as u32
}
fn is_empty_script(s: &String) -> bool {
    let s = s.trim_end().as_bytes();
    s.starts_with(b"#!") && !s.contains(&b'\n')
}
/// the last gap is symbolic
#[no_mangle]
pub extern "C" fn h_p16() {
    let j = job() as usize;
    let t = j % NT;
    let g = ngaps(t) - 1;
    let kind = choice(NFILL + 1);
    let mut v = program(t, g, if kind == NFILL { 0 } else { kind }, true);
    if kind == NFILL {
        v.extend_from_slice(b" --x");
        v.push(one_of(b"abc-]["));
    }
    let src = text_of(v);
    let mut c = if j / NT == 0 { default_cfg() } else { Config::default() };
    c.fmt.remove_all_newlines = obool();
    c.fmt.remove_spaces_between_tokens = obool();
    c.fmt.write_newline_at_eof = Some(true);
    c.fmt.replace_zero_spaces_with_hint = Some(true);
    let o = fmt(&src, &c);
    check(o.as_bytes().last() == Some(&b'\n'), "no newline at the end");
    let b = o.as_bytes();
    if (kind < 3 || kind == 4 || kind == 5) && c.fmt.remove_spaces_between_tokens == Some(true) {
        check(b.len() < 2 || (b[b.len() - 2] != b' ' && b[b.len() - 2] != b'\t'), "blanks before the final newline");
    }
    c.fmt.write_newline_at_eof = obool_of(one_of(&[0, 2]));
    match luafmt::formatter::process_buffer_with_config(&src, &c, false) {
        Ok(o2) => {
            report("without", &o2);
            // (a shebang line always ends with one)
            if src.as_bytes().last() != Some(&b'\n') && kind != 3 && kind < 5 && !is_empty_script(&src) {
                check(o2.as_bytes().last() != Some(&b'\n'), "a newline at the end that was not asked for");
            }
            if kind <= 2 {
                check(o.trim_end() == o2.trim_end(), "the option changes more than the end");
            } else {
                let x = canon(o.as_bytes(), false, true);
                let y = canon(o2.as_bytes(), false, true);
                check(x.code == y.code && x.comments == y.comments, "the option changes tokens");
            }
        }
        Err(_) => fail("rejected"),
    }
}

// ---- P18 no options

#[no_mangle]
pub extern "C" fn h_p18_gap_jobs() -> u32 {
    ntg()
}
/// drops the white space before the closing brace of empty tables
fn norm_empty_tables(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let ts = tokens(b);
    let mut out = Vec::with_capacity(b.len());
    let mut pos = 0;
    let mut last: u8 = 0;
    for t in &ts {
        if t.k == K::LineC || t.k == K::LongC(0) || matches!(t.k, K::LongC(_)) {
            continue;
        }
        if t.k == K::Op && b[t.a] == b'}' && last == b'{' {
            let mut e = t.a;
            while e > pos && is_ws(b[e - 1]) {
                e -= 1;
            }
            out.extend_from_slice(&b[pos..e]);
            pos = t.a;
        }
        last = b[t.a];
    }
    out.extend_from_slice(&b[pos..]);
    out
}
pub fn unchanged(src: &String) {
    let o = fmt(src, &Config::default());
    let ts = tokens(src.as_bytes());
    let mut want = src.clone();
    if let Some(t) = ts.last() {
        if (t.k == K::LineC || t.k == K::SheBang) && t.b == src.len() {
            want.push('\n');
        }
    }
    check(o == want || norm_empty_tables(&o) == norm_empty_tables(&want), "text changed although no option is set");
}
#[no_mangle]
pub extern "C" fn h_p18_gap() {
    unchanged(&gap_src());
}
#[no_mangle]
pub extern "C" fn h_p18_text_jobs() -> u32 {
    15
}
/// free text in a shebang line, in comments and between tokens
#[no_mangle]
pub extern "C" fn h_p18_text() {
    let j = job() as usize;
    let n = 1 + j % 3;
    let mut v = vec![];
    match j / 3 {
        0 => {
            v.extend_from_slice(b"#!");
            text(n, &mut v);
            v.extend_from_slice(b"\n a = 1 ");
        }
        1 => {
            v.extend_from_slice(b" a = 1 --x");
            for _ in 0..n {
                any_char(&mut v);
                assume(v.last() != Some(&b'\n'));
            }
            v.extend_from_slice(b"\n b = 1");
        }
        2 => {
            v.extend_from_slice(b" a = --[=[");
            long_text(n, 1, &mut v);
            v.extend_from_slice(b"]=]1\n\n");
        }
        4 => {
            v.extend_from_slice(b" a = --[[");
            for _ in 0..n {
                any_char(&mut v);
                assume(v.last() != Some(&b']'));
            }
            v.extend_from_slice(b"]]1\n\n");
        }
        _ => {
            for g in 0..n {
                v.extend_from_slice([&b"local"[..], b"a", b"="][g]);
                v.push(one_of(b" \t\n\r"));
                v.push(one_of(b" \t\n\r"));
            }
            v.extend_from_slice([&b"a"[..], b"=1", b"2"][n - 1]);
            v.push(one_of(b" \t\n\r"));
        }
    }
    unchanged(&text_of(v));
}
#[no_mangle]
pub extern "C" fn h_p18_ctx_jobs() -> u32 {
    (CTX.len() * NT * NMODE) as u32
}
#[no_mangle]
pub extern "C" fn h_p18_ctx() {
    let j = job() as usize;
    let (c, t, m) = (j % CTX.len(), j / CTX.len() % NT, j / CTX.len() / NT);
    if !ctx_ok(c, t) {
        return;
    }
    unchanged(&text_of(fill_all(&in_ctx(c, TEMPLATES[t]), m)));
}
