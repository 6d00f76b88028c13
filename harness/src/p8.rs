//! P17 separators of table fields.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::rt::*;
use crate::t0::{ntg, tg};
use crate::tok::*;
use luafmt::config::*;

/// one table constructor: the separators between its fields, the one after the last field (0: none), and
/// whether its closing brace is the first character of its line
#[derive(Clone, PartialEq)]
struct Tab {
    inner: Vec<u8>,
    last: u8,
    empty: bool,
    own_line: bool,
}
fn tables(b: &[u8]) -> Vec<Tab> {
    let mut out: Vec<Tab> = vec![];
    // open brackets and blocks: index of a table, or none
    let mut st: Vec<Option<usize>> = vec![];
    let mut prev = false;
    for t in tokens(b) {
        if is_comment(t.k) {
            continue;
        }
        let x = &b[t.a..t.b];
        let sep = t.k == K::Op && (x == b"," || x == b";");
        if t.k == K::Op {
            match x {
                b"{" => {
                    st.push(Some(out.len()));
                    out.push(Tab { inner: vec![], last: 0, empty: true, own_line: false });
                }
                b"(" | b"[" => st.push(None),
                b")" | b"]" => {
                    st.pop();
                }
                b"}" => {
                    if let Some(Some(k)) = st.pop() {
                        if prev {
                            let l = out[k].inner.pop();
                            out[k].last = l.unwrap_or(0);
                        }
                        let mut i = t.a;
                        while i > 0 && (b[i - 1] == b' ' || b[i - 1] == b'\t') {
                            i -= 1;
                        }
                        out[k].own_line = i > 0 && b[i - 1] == b'\n';
                    }
                }
                _ => {}
            }
        } else if t.k == K::Name {
            match x {
                b"function" | b"do" | b"if" | b"repeat" => st.push(None),
                b"end" | b"until" => {
                    st.pop();
                }
                _ => {}
            }
        }
        if let Some(Some(k)) = st.last() {
            if sep {
                out[*k].inner.push(x[0]);
            }
            if x != b"{" {
                out[*k].empty = false;
            }
        }
        prev = sep;
    }
    out
}
/// `single`: tables that are put on one line have no separator after the last field
fn separators(src: &String, c: &Config, single: bool) {
    let o = fmt(src, c);
    let (a, b) = (tables(src.as_bytes()), tables(o.as_bytes()));
    check(a.len() == b.len(), "number of tables");
    let sep = match &c.fmt.field_separator {
        Some(s) => Some(s.as_bytes()[0]),
        None => None,
    };
    for i in 0..a.len() {
        let (x, y) = (&a[i], &b[i]);
        check(x.inner.len() == y.inner.len() && x.empty == y.empty, "number of separators");
        for k in 0..x.inner.len() {
            let w = match sep {
                Some(s) => s,
                None => x.inner[k],
            };
            check(y.inner[k] == w, "separator between fields");
        }
        if x.empty {
            continue;
        }
        match c.fmt.write_trailing_field_separator {
            Some(false) => check(y.last == 0, "separator after the last field, although the option says no"),
            // (without a configured separator the option leaves the last field as it is)
            Some(true) if sep.is_some() => {
                let want = !single || y.own_line;
                // a comment may put the brace of such a table on a line of its own
                if single && want && src.contains("--") {
                    continue;
                }
                check((y.last != 0) == want, if want { "no separator after the last field, although the option says yes" } else { "separator after the last field of a table on one line" });
            }
            _ => {
                // a table on one line has none
                if single {
                    check(y.last == 0 || x.last != 0, "a separator was added after the last field");
                    check(y.last != 0 || x.last == 0 || !y.own_line, "the separator after the last field is gone");
                } else {
                    check((y.last != 0) == (x.last != 0), "the separator after the last field appeared or disappeared");
                }
            }
        }
        if y.last != 0 {
            if let Some(s) = sep {
                check(y.last == s, "separator after the last field");
            } else if x.last != 0 {
                check(y.last == x.last, "separator after the last field");
            }
        }
    }
}
/// configurations: (options, tables may be put on one line)
const NC: usize = 4 * 9;
fn cfg17(k: usize) -> (Config, bool) {
    let (k, o) = (k % 4, k / 4);
    let mut c = if k == 0 { Config::default() } else { default_cfg() };
    let f = &mut c.fmt;
    f.field_separator = [None, some(","), some(";")][o % 3].clone();
    f.write_trailing_field_separator = obool_of((o / 3) as u8);
    match k {
        // no layout
        0 => {
            f.hint_table_constructor = ostr(&[" "]);
            f.remove_spaces_between_tokens = sbool();
            f.replace_zero_spaces_with_hint = Some(true);
        }
        // every field on its line
        1 => {
            f.force_single_line_table = None;
            f.newline_format_table_constructor = nl();
            f.newline_format_table_field = nl();
        }
        // the shipped configuration
        2 => f.max_width = susize(1, 60),
        _ => {
            f.force_single_line_table = None;
            f.force_single_line_iv_table_field = sbool();
            f.force_single_line_kv_table_field = sbool();
            f.max_width = susize(1, 60);
        }
    }
    // separators given in the input are needed where none is written
    (c, k == 2)
}
#[no_mangle]
pub extern "C" fn h_p17_jobs() -> u32 {
    (49 * 3 * NC) as u32
}
const FIELDS: [&str; 6] = ["1", "k = v", "[ 'x' ] = f ( a , b )", "{ 1 , }", "function ( a , b ) local c , d = 1 , { 2 ; } end", "g ( { } , x ) . y"];
/// tables of up to two fields of six kinds with symbolic separators
#[no_mangle]
pub extern "C" fn h_p17() {
    let j = job() as usize * 245489 % (49 * 3 * NC);
    let (mut n, k, m) = (j % 49, j / 49 % NC, [0, 2, 3][j / 49 / NC]);
    let mut v = b"t = { ".to_vec();
    let mut first = true;
    for _ in 0..2 {
        let f = n % 7;
        n /= 7;
        if f == 6 {
            continue;
        }
        if !first {
            v.push(one_of(b",;"));
            v.push(b' ');
        }
        first = false;
        v.extend_from_slice(FIELDS[f].as_bytes());
        v.push(b' ');
    }
    if !first && boolean() {
        v.push(one_of(b",;"));
        v.push(b' ');
    }
    v.extend_from_slice(b"}");
    let (c, single) = cfg17(k);
    let src = text_of(fill_all(&text_of(v), m));
    separators(&src, &c, single);
}
#[no_mangle]
pub extern "C" fn h_p17_gap_jobs() -> u32 {
    ntg() * NC as u32
}
/// templates with tables, one gap symbolic
#[no_mangle]
pub extern "C" fn h_p17_gap() {
    let n = ntg() as usize * NC;
    let j = job() as usize * 245489 % n;
    let (t, g) = tg((j / NC) as u32);
    if !TEMPLATES[t].contains('{') {
        return;
    }
    let kind = choice(NFILL);
    let src = text_of(program(t, g, kind, true));
    let (c, single) = cfg17(j % NC);
    separators(&src, &c, single);
}
#[no_mangle]
pub extern "C" fn h_p17_big_jobs() -> u32 {
    (NBIG * NC * 3) as u32
}
#[no_mangle]
pub extern "C" fn h_p17_big_first() -> u32 {
    (NBLK * NC * 3) as u32
}
#[no_mangle]
pub extern "C" fn h_p17_big() {
    let (k, m) = big_job(job(), NC * 3);
    match big(k) {
        Some(s) if s.contains('{') => {
            let (c, single) = cfg17(m % NC);
            separators(&text_of(fill_all(&s, [0, 2, 3][m / NC])), &c, single);
        }
        _ => {}
    }
}
