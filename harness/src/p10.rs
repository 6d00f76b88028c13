//! P21 where comments go: the text between two tokens, written as the comment options say.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::p3::*;
use crate::refp::*;
use crate::rt::*;
use crate::t0::{ntg, tg};
use crate::tok::*;
use luafmt::config::*;

#[derive(Clone, Copy)]
enum It {
    One(usize, usize),
    Long(usize, usize, usize),
    Nl,
}
/// pieces of a gap: (start of the blanks in front, start, what it is); and the start of the blanks at the end
fn items(g: &[u8]) -> (Vec<(usize, usize, It)>, usize) {
    let ts = tokens_in(g);
    let mut v = Vec::with_capacity(8);
    let (mut i, mut e, mut k) = (0, 0, 0);
    while i < g.len() {
        if k < ts.len() && ts[k].a == i {
            let t = ts[k];
            k += 1;
            match t.k {
                K::LineC => {
                    v.push((e, i, It::One(t.a + 2, t.b)));
                    // the line break belongs to the comment
                    i = if t.b < g.len() { t.b + 1 } else { t.b };
                }
                K::LongC(l) => {
                    v.push((e, i, It::Long(l, t.a + 4 + l, t.b - 2 - l)));
                    i = t.b;
                }
                _ => fail("gap"),
            }
            e = i;
        } else if g[i] == b'\n' {
            v.push((e, i, It::Nl));
            i += 1;
            e = i;
        } else {
            i += 1;
        }
    }
    (v, e)
}
/// the comments in a gap (a `#` at its start is not a shebang line)
fn tokens_in(g: &[u8]) -> Vec<T> {
    tokens(g)
}
fn trim_start(x: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < x.len() && is_ws(x[i]) {
        i += 1;
    }
    &x[i..]
}
fn trim_end(x: &[u8]) -> &[u8] {
    let mut i = x.len();
    while i > 0 && is_ws(x[i - 1]) {
        i -= 1;
    }
    &x[..i]
}
fn hint(o: &Option<String>) -> &[u8] {
    match o {
        Some(s) => s.as_bytes(),
        None => b"",
    }
}
fn on(o: Option<bool>) -> bool {
    o == Some(true)
}
/// end the line in `out` (which begins with the last character before it)
fn end_line(out: &mut Vec<u8>, sp: &[u8]) {
    let mut e = sp.len();
    while e > 0 && (sp[e - 1] == b' ' || sp[e - 1] == b'\t') {
        e -= 1;
    }
    let s = &sp[..e];
    if s.is_empty() {
        while out.len() > 1 && (out[out.len() - 1] == b' ' || out[out.len() - 1] == b'\t') {
            out.pop();
        }
    }
    out.extend_from_slice(s);
    if out.last() != Some(&b'\n') {
        out.push(b'\n');
    }
}
/// the comments and line breaks of a gap; `last`: the character in front of it
fn block(g: &[u8], c: &FormatOpts, last: u8, indent: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(g.len() * 2 + 8);
    let rs = on(c.remove_spaces_between_tokens);
    let (v, e) = items(g);
    let first = if v.is_empty() { g.len() } else { v[0].1 };
    o.push(last);
    if !rs {
        o.extend_from_slice(&g[..first]);
    }
    let single = v.len() == 1 && matches!(v[0].2, It::Nl) && on(c.remove_single_newlines);
    for (i, &(b, a, it)) in v.iter().enumerate() {
        if single {
            break;
        }
        let isnl = matches!(it, It::Nl);
        let same = i > 0 && !isnl && !matches!(v[i - 1].2, It::Nl);
        let sp: &[u8] = if i == 0 { b"" } else if !rs { &g[b..a] } else if same { hint(&c.hint_before_comment) } else { b"" };
        let opt = match (it, i == 0) {
            (It::One(..), true) => c.newline_format_first_oneline_comment,
            (It::One(..), false) => c.newline_format_oneline_comment,
            (It::Long(..), true) => c.newline_format_first_multiline_comment,
            (It::Long(..), false) => c.newline_format_multiline_comment,
            _ => None,
        };
        if opt == Some(1) {
            end_line(&mut o, if rs { b"" } else { sp });
            o.extend_from_slice(indent);
        } else {
            o.extend_from_slice(sp);
        }
        match it {
            It::Nl => {
                if !on(c.remove_all_newlines) {
                    o.push(b'\n');
                }
            }
            It::One(a, b) => one_line(&g[a..b], c, &mut o),
            It::Long(l, a, b) => long(l, &g[a..b], c, &mut o),
        }
    }
    if !rs && !v.is_empty() {
        o.extend_from_slice(&g[e..]);
    }
    o.remove(0);
    o
}
fn one_line(t: &[u8], c: &FormatOpts, o: &mut Vec<u8>) {
    if on(c.remove_comments) {
        if !on(c.remove_all_newlines) {
            o.push(b'\n');
        }
        return;
    }
    o.extend_from_slice(b"--");
    match &c.hint_before_oneline_comment_text {
        None => o.extend_from_slice(t),
        Some(h) => {
            let t = trim_start(t);
            if !t.is_empty() {
                let mut x = h.as_bytes().to_vec();
                x.extend_from_slice(t);
                // (it must not become a long comment)
                let mut i = 1;
                while i < x.len() && x[i] == b'=' {
                    i += 1;
                }
                if x[0] == b'[' && i < x.len() && x[i] == b'[' {
                    o.push(b' ');
                }
                o.extend_from_slice(&x);
            }
        }
    }
    o.push(b'\n');
}
fn long(l: usize, t: &[u8], c: &FormatOpts, o: &mut Vec<u8>) {
    if on(c.remove_comments) {
        return;
    }
    o.extend_from_slice(b"--[");
    for _ in 0..l {
        o.push(b'=');
    }
    o.push(b'[');
    let (p, s) = (&c.hint_before_multiline_comment_text, &c.hint_after_multiline_comment_text);
    let mut t = t;
    if p.is_some() {
        t = trim_start(t);
    }
    if s.is_some() {
        t = trim_end(t);
    }
    let mut x = hint(p).to_vec();
    x.extend_from_slice(t);
    x.extend_from_slice(hint(s));
    // (its end must not close the comment)
    let n = x.len();
    if n > l && x[n - 1 - l] == b']' && x[n - l..].iter().all(|c| *c == b'=') {
        x.push(b' ');
    }
    o.extend_from_slice(&x);
    o.push(b']');
    for _ in 0..l {
        o.push(b'=');
    }
    o.push(b']');
}
/// a gap in the output
fn gap(g: &[u8], c: &FormatOpts, nl: bool, hint_: &[u8], indent: &[u8], out: &mut Vec<u8>) {
    let last = if nl || out.is_empty() { b' ' } else { out[out.len() - 1] };
    let mut b = block(g, c, last, indent);
    if b.is_empty() {
        if nl {
            out.push(0);
            end_line(out, b"");
            let i = out.iter().rposition(|c| *c == 0).unwrap();
            out.remove(i);
            out.extend_from_slice(indent);
        } else if on(c.replace_zero_spaces_with_hint) {
            out.extend_from_slice(hint_);
        }
        return;
    }
    let mut x = vec![];
    if b[0] == b'-' {
        x.extend_from_slice(hint(&c.hint_before_comment));
    }
    if b[b.len() - 1] == b']' {
        b.extend_from_slice(hint(&c.hint_after_multiline_comment));
    }
    x.extend_from_slice(&b);
    if nl {
        let mut e = x.len();
        while e > 0 && (x[e - 1] == b' ' || x[e - 1] == b'\t') {
            e -= 1;
        }
        x.truncate(e);
        if x.last() != Some(&b'\n') {
            x.push(b'\n');
        }
        x.extend_from_slice(indent);
    }
    if out.last() == Some(&b'-') && x[0] == b'-' {
        out.push(b' ');
    }
    out.extend_from_slice(&x);
}
/// without the blanks at the ends of lines
fn lines(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    for &c in s {
        if c == b'\n' {
            while !o.is_empty() && (o[o.len() - 1] == b' ' || o[o.len() - 1] == b'\t') {
                o.pop();
            }
        }
        o.push(c);
    }
    o
}
/// the layout of `st` with the comments of the text
pub fn want_comments(src: &String, c: &Config, st: Style) -> Vec<u8> {
    want_extra(src, c, st, 0).0
}
fn want_extra(src: &String, c: &Config, st: Style, extra: u32) -> (Vec<u8>, u32) {
    let s = src.as_bytes();
    let ind = c.fmt.indentation_string.clone().unwrap_or_default();
    let mut p = P::new(s, st, &ind);
    p.keep = true;
    p.extra = extra;
    p.sep = ",";
    if p.chunk().is_none() {
        fail("reference parser rejects");
    }
    let gs = p.gaps();
    let mut o = Vec::with_capacity(s.len() * 2 + 16);
    for (i, g) in gs.iter().enumerate() {
        let mut indent = vec![];
        for _ in 0..g.depth {
            indent.extend_from_slice(ind.as_bytes());
        }
        let last = i + 1 == gs.len();
        let (mut a, mut x, mut nl) = (g.src.0, g.out.0, g.nl);
        if i == 1 && s[0] == b'#' {
            // the line break behind a shebang line
            o.push(b'\n');
            a += 1;
            x += 1;
            nl = false;
        }
        if i > 0 && !last && o.last() == Some(&b'{') && s[g.src.1] == b'}' {
            // an empty table: the brace goes to the next line if there is a line break in it
            let mut x = o.clone();
            let n = x.len();
            gap(&s[a..g.src.1], &c.fmt, false, b"", &indent, &mut x);
            nl = x[n..].contains(&b'\n');
        }
        gap(&s[a..g.src.1], &c.fmt, nl, &p.out[x..g.out.1], &indent, &mut o);
        if !last {
            let (a, b) = p.pos[i];
            o.extend_from_slice(&p.out[a..b]);
        }
    }
    report_bytes("want", &o);
    (o, p.unbroken)
}
fn compare(src: &String, c: &Config, st: Style) {
    let o = fmt(src, c);
    let w = want_comments(src, c, st);
    check(lines(o.as_bytes()) == lines(&w), "the text between the tokens is not what the options ask for");
}
/// comment options: line breaks / texts / hints / removal
fn options(f: &mut FormatOpts, k: usize) {
    match k {
        0 => {
            f.newline_format_first_oneline_comment = nl();
            f.newline_format_oneline_comment = nl();
            f.newline_format_first_multiline_comment = nl();
            f.newline_format_multiline_comment = nl();
            f.remove_spaces_between_tokens = sbool();
        }
        1 => {
            f.hint_before_comment = ostr(&["  "]);
            f.hint_after_multiline_comment = ostr(&[" "]);
            f.remove_spaces_between_tokens = sbool();
            f.remove_single_newlines = sbool();
            f.remove_all_newlines = sbool();
        }
        2 => {
            let h = choice(5) as usize;
            f.hint_before_oneline_comment_text = some(["", " ", "[", "!", "[="][h]);
            f.hint_before_multiline_comment_text = [None, some(""), some(" "), some("é"), None][h].clone();
            f.hint_after_multiline_comment_text = [some(""), None, some(" "), some("]"), some("]=")][h].clone();
        }
        _ => {
            f.remove_comments = sbool();
            f.remove_all_newlines = sbool();
            f.remove_spaces_between_tokens = sbool();
            f.newline_format_oneline_comment = nl();
            f.hint_before_comment = ostr(&[" "]);
        }
    }
}
fn base() -> Config {
    let mut c = Config::default();
    c.fmt.field_separator = some(",");
    c.fmt.write_trailing_field_separator = Some(false);
    c
}
#[no_mangle]
pub extern "C" fn h_p21_gap_jobs() -> u32 {
    ntg()
}
/// one gap, no layout of the code
#[no_mangle]
pub extern "C" fn h_p21_gap() {
    let (t, g) = tg(job());
    let k = choice(NFILL);
    let src = text_of(program(t, g, k, true));
    let mut c = base();
    options(&mut c.fmt, (t + g) % 4);
    compare(&src, &c, NO_NL);
}
const MC: [usize; 5] = [3, 4, 6, 5, 2];
#[no_mangle]
pub extern "C" fn h_p21_ctx_jobs() -> u32 {
    (CTX.len() * NT * 40) as u32
}
/// all gaps alike, with and without statement layout
#[no_mangle]
pub extern "C" fn h_p21_ctx() {
    let j = job() as usize;
    let (c, t, m) = (j % CTX.len(), j / CTX.len() % NT, j / CTX.len() / NT);
    let (m, k, lay) = (MC[m % 5], m / 5 % 4, m / 20);
    if !ctx_ok(c, t) {
        return;
    }
    let src = text_of(fill_all(&in_ctx(c, TEMPLATES[t]), m));
    let mut cf = base();
    let mut st = NO_NL;
    if lay == 1 {
        cf = layout_cfg("\t");
        st = ALL_NL;
    }
    cf.fmt.indentation_string = some("\t");
    options(&mut cf.fmt, k);
    compare(&src, &cf, st);
}
/// places for a gap of free text
const PLACES: &[(&str, &str)] = &[("", "x()"), ("x()", ""), ("x()", "y()"), ("x =", "1"), ("x = a -", "b"), ("do", "x() end"), ("do x()", "end"), ("x = {", "a }"), ("#!s\n", "x()")];
#[no_mangle]
pub extern "C" fn h_p21_text_jobs() -> u32 {
    (PLACES.len() * 4 * 2 * 7 * 2) as u32
}
/// free text: pieces of comments, blanks and line breaks
#[no_mangle]
pub extern "C" fn h_p21_text() {
    let j = job() as usize;
    let (p, k, lay, j) = (PLACES[j % PLACES.len()], j / PLACES.len() % 4, j / PLACES.len() / 4 % 2, j / PLACES.len() / 8);
    // (the first piece comes with the job)
    let n = 2 + j / 7;
    let mut s = p.0.as_bytes().to_vec();
    s.push(b' ');
    for i in 0..n {
        match if i == 0 { (j % 7) as u8 } else { choice(7) } {
            0 => s.push(b' '),
            1 => s.push(b'\n'),
            2 => s.extend_from_slice(b" \n\t"),
            3 => {
                s.extend_from_slice(b"--");
                s.push(b'a' + i as u8);
                s.push(one_of(b" \t["));
                s.push(b'\n');
            }
            4 => {
                s.extend_from_slice(b"--[[");
                s.push(b'a' + i as u8);
                s.push(one_of(b" \n]"));
                s.extend_from_slice(b"x]]");
            }
            5 => s.extend_from_slice(b"--[=[\n ]=]"),
            _ => s.extend_from_slice(b"--\n"),
        }
    }
    s.push(b' ');
    s.extend_from_slice(p.1.as_bytes());
    let src = text_of(s);
    let mut cf = base();
    let mut st = NO_NL;
    if lay == 1 {
        cf = layout_cfg("    ");
        st = ALL_NL;
    }
    cf.fmt.indentation_string = some("    ");
    options(&mut cf.fmt, k);
    compare(&src, &cf, st);
}
#[no_mangle]
pub extern "C" fn h_p21_big_jobs() -> u32 {
    (NBIG * 24) as u32
}
#[no_mangle]
pub extern "C" fn h_p21_big_first() -> u32 {
    (NBLK * 24) as u32
}
#[no_mangle]
pub extern "C" fn h_p21_big() {
    let (k, m) = big_job(job(), 24);
    if let Some(s) = big(k) {
        let src = text_of(fill_all(&s, [3, 4, 6][m % 3]));
        let (mut cf, mut st) = (base(), NO_NL);
        if m / 12 == 1 {
            cf = layout_cfg(" ");
            st = ALL_NL;
        }
        cf.fmt.indentation_string = some(" ");
        options(&mut cf.fmt, m / 3 % 4);
        compare(&src, &cf, st);
    }
}
#[no_mangle]
pub extern "C" fn h_p20_com_jobs() -> u32 {
    (CTX.len() * NT * 9) as u32
}
/// the layout of expressions and tables with comments in all gaps
#[no_mangle]
pub extern "C" fn h_p20_com() {
    let j = job() as usize;
    let (c, t, m) = (j % CTX.len(), j / CTX.len() % NT, j / CTX.len() / NT);
    if !ctx_ok(c, t) {
        return;
    }
    let src = text_of(fill_all(&in_ctx(c, TEMPLATES[t]), [3, 4, 6][m % 3]));
    let mut cf = layout_cfg("  ");
    let mut st = ALL_NL;
    sym_exprs(&mut cf.fmt, &mut st, m / 3);
    let k = job() % 2;
    if k == 1 {
        cf.fmt.newline_format_oneline_comment = Some(1);
        cf.fmt.hint_before_comment = some(" ");
        cf.fmt.hint_after_multiline_comment = some(" ");
    }
    compare(&src, &cf, st);
}

pub const FOLLOW: Style = Style { follow: true, ind_list: true, ind_suf: true, ..ALL_NL };
/// whatever lines are broken under a maximal width: each of them is indented as its place demands
fn follows(prog: &str, mode: usize, c: &Config) {
    // (a comment in front of a trailing separator moves behind it)
    if mode == 4 && (prog.contains(", }") || prog.contains("; }")) {
        return;
    }
    let src = &text_of(fill_all(prog, mode));
    let o = fmt(src, c);
    let l = lines(o.as_bytes());
    let (w, n) = want_extra(&o, c, FOLLOW, 0);
    let mut ok = l == lines(&w);
    // a list or chain may be indented for line breaks that the indentation then makes unnecessary
    let mut x = 1;
    while !ok && x < 1 << n.min(6) {
        ok = l == lines(&want_extra(&o, c, FOLLOW, x).0);
        x += 1;
    }
    check(ok, "a line break or the indentation of a line is not where the constructs around it demand");
}
fn width_cfg(k: usize) -> Config {
    let mut c = default_cfg();
    c.fmt.write_newline_at_eof = None;
    c.fmt.max_width = susize(1, 110);
    let f = &mut c.fmt;
    match k {
        0 => {}
        1 => {
            f.newline_format_exp_list_first = Some(1);
            f.newline_format_binary_op = Some(2);
        }
        _ => {
            f.force_single_line_exp_list = ob();
            f.force_single_line_var_suffix = ob();
            f.force_single_line_binary_op = ob();
            f.force_single_line_if = ob();
            f.force_single_line_scoped_function = ob();
            f.force_single_line_top_level_function = ob();
        }
    }
    c
}
/// (filling, configuration)
const WIDE: [(usize, usize); 6] = [(0, 0), (4, 0), (0, 1), (4, 1), (0, 2), (4, 2)];
#[no_mangle]
pub extern "C" fn h_p20_wide_jobs() -> u32 {
    (CTX.len() * NT * WIDE.len()) as u32
}
#[no_mangle]
pub extern "C" fn h_p20_wide() {
    let j = (job() as usize * 1009) % (CTX.len() * NT * WIDE.len());
    let (c, t, m) = (j % CTX.len(), j / CTX.len() % NT, j / CTX.len() / NT);
    if !ctx_ok(c, t) {
        return;
    }
    follows(&in_ctx(c, TEMPLATES[t]), WIDE[m].0, &width_cfg(WIDE[m].1));
}
#[no_mangle]
pub extern "C" fn h_p20_wbig_jobs() -> u32 {
    (NBIG * WIDE.len()) as u32
}
#[no_mangle]
pub extern "C" fn h_p20_wbig_first() -> u32 {
    (NBLK * WIDE.len()) as u32
}
#[no_mangle]
pub extern "C" fn h_p20_wbig() {
    let (k, m) = big_job(job(), WIDE.len());
    if let Some(s) = big(k) {
        follows(&s, WIDE[m].0, &width_cfg(WIDE[m].1));
    }
}
