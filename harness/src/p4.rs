//! P04 line ranges.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::refp::*;
use crate::rt::*;
use crate::t0::{ntg, tg};
use crate::tok::*;
use luafmt::config::*;

/// start and end (without the line break) of line n (from 1)
fn line_bounds(b: &[u8], n: usize) -> (usize, usize) {
    let mut s = 0;
    let mut k = 1;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            if k == n {
                return (s, i);
            }
            k += 1;
            s = i + 1;
        }
    }
    (s, b.len())
}
fn nlines(b: &[u8]) -> usize {
    1 + b.iter().filter(|c| **c == b'\n').count()
}
fn trim_ws(b: &[u8]) -> &[u8] {
    let mut n = b.len();
    while n > 0 && is_ws(b[n - 1]) {
        n -= 1;
    }
    &b[..n]
}
fn skip_ws(b: &[u8]) -> &[u8] {
    let mut n = 0;
    while n < b.len() && is_ws(b[n]) {
        n += 1;
    }
    &b[n..]
}
/// format lines l..=r of `src`: everything outside the statements they touch must be unchanged
fn ranged(src: &String, mut c: Config, l: usize, r: usize) {
    c.line_range = Some((l, r));
    let b = src.as_bytes();
    let mut p = P::new(b, NO_NL, "");
    if p.chunk().is_none() {
        fail("reference parser rejects");
    }
    if p.paren_stmt {
        return;
    }
    let o = fmt(src, &c);
    let (mut s, _) = line_bounds(b, l);
    let (_, mut e) = line_bounds(b, r);
    // the line break in front of the first line belongs to the range
    if s > 0 {
        s -= 1;
    }
    // whole statements, and comments between them
    let (s0, e0) = (s, e);
    for (x, y) in &p.spans {
        if *x < e0 && *y > s0 {
            s = s.min(*x);
            e = e.max(*y);
        }
    }
    let ts = tokens(b);
    for t in &ts {
        if matches!(t.k, K::LineC | K::LongC(_) | K::SheBang) && t.a < e0 && t.b + (t.k == K::LineC) as usize > s0 {
            s = s.min(t.a);
            e = e.max(t.b);
        }
    }
    // white space next to them
    while s > 0 && is_ws(b[s - 1]) {
        s -= 1;
    }
    while e < b.len() && is_ws(b[e]) {
        e += 1;
    }
    // the line break of a comment in front of the range
    for t in &ts {
        if t.k == K::LineC && t.b == s && s < b.len() {
            s += 1;
        }
    }
    // the end of the file is subject to the option about the final line break
    let mut want = src.clone();
    if c.fmt.write_newline_at_eof == Some(true) {
        while want.len() > e && want.ends_with(|c| c == ' ' || c == '\t') {
            want.pop();
        }
        if !want.ends_with('\n') {
            want.push('\n');
        }
    }
    let b = want.as_bytes();
    let ob = o.as_bytes();
    // likewise the blanks after the statement before
    let mut h = 0;
    for t in &ts {
        if t.b <= s && !matches!(t.k, K::LineC | K::LongC(_) | K::SheBang) {
            h = t.b;
        }
    }
    check(ob.len() >= h && ob[..h] == b[..h], "text before the line range changed");
    if h < s {
        check(skip_ws(&ob[h..]).starts_with(trim_ws(skip_ws(&b[h..s]))), "comments before the line range changed");
    }
    let e = e.min(b.len());
    // next statement: its indentation belongs to the gap
    let mut g = b.len();
    for t in ts.iter().rev() {
        if t.a >= e && !matches!(t.k, K::LineC | K::LongC(_) | K::SheBang) {
            g = t.a;
        }
    }
    let k = b.len() - g;
    check(ob.len() >= k && ob[ob.len() - k..] == b[g..], "text after the line range changed");
    if g < b.len() {
        let x = trim_ws(&ob[..ob.len() - k]);
        check(x.ends_with(trim_ws(&b[e..g])), "comments after the line range changed");
    }
    check(ob.len() >= s + k, "text outside the line range lost");
    let x = canon(b, false, true);
    let y = canon(ob, false, true);
    check(x.code == y.code, "code tokens differ");
    check(x.comments == y.comments, "comments differ");
}
const PRE: &[&str] = &["x  =  \"\u{e9}\u{20ac}\"\n", "f( a ,b )  --\u{e9}\n\n", "do\n  x=1   end  ", ""];
const POST: &[&str] = &["\ny  =  2 ", "\n\n --c\ng( 1,2 )\n", "  h( )\n;", ""];
fn around(k: usize, v: Vec<u8>) -> Vec<u8> {
    let mut o = PRE[k].as_bytes().to_vec();
    o.extend_from_slice(&v);
    o.extend_from_slice(POST[k].as_bytes());
    o
}
/// line breaks (or comments) in every third gap
fn spread(t: usize, m: usize) -> Vec<u8> {
    let toks = split(TEMPLATES[t]);
    let mut out = Vec::with_capacity(64);
    for i in 0..=toks.len() {
        let prev: &[u8] = if i > 0 { toks[i - 1].as_bytes() } else { b"" };
        let next: &[u8] = if i < toks.len() { toks[i].as_bytes() } else { b"" };
        let shebang = prev.starts_with(b"#!");
        if !next.starts_with(b"#!") && !shebang {
            match i % 3 {
                1 => mode_fill([2, 3, 6][m], true, prev.ends_with(b"-"), i, &mut out),
                2 => out.extend_from_slice(b"  "),
                _ => mode_fill([0, 4, 1][m], needs_space(prev, next) || dollar(prev, next), prev.ends_with(b"-"), i, &mut out),
            }
        }
        if i < toks.len() {
            put_plain(toks[i], &mut out);
        }
    }
    out
}
fn any_range(n: usize) -> (usize, usize) {
    let l = 1 + choice(n as u8) as usize;
    let r = l + choice((n - l + 1) as u8) as usize;
    (l, r)
}
/// no statement may follow `return`
fn no_return(t: usize) -> bool {
    let mut d = 0;
    for w in split(TEMPLATES[t]) {
        match w {
            "function" | "do" | "if" => d += 1,
            "end" => d -= 1,
            "return" if d == 0 => return false,
            _ => {}
        }
    }
    true
}
#[no_mangle]
pub extern "C" fn h_p04_jobs() -> u32 {
    (NT * 4 * 3) as u32
}
/// every template between other statements, spread over lines, every line range
#[no_mangle]
pub extern "C" fn h_p04() {
    let j = job() as usize;
    let (t, k, m) = (j % NT, j / NT % 4, j / NT / 4);
    if k != 3 && (!no_return(t) || TEMPLATES[t].starts_with('#')) {
        return;
    }
    let b = around(k, spread(t, m));
    let n = nlines(&b);
    let (l, r) = any_range(n);
    let mut c = default_cfg();
    if j % 2 == 1 {
        c.fmt.write_newline_at_eof = None;
    }
    ranged(&text_of(b), c, l, r);
}
#[no_mangle]
pub extern "C" fn h_p04_in_jobs() -> u32 {
    ntg() * 2
}
/// one symbolic gap: a range of all lines formats like no range; the lines of some statements are formatted
/// like these statements alone
#[no_mangle]
pub extern "C" fn h_p04_in() {
    let (t, g) = tg(job() / 2);
    let all = job() % 2 == 0;
    if !all && (g == 0 || g + 1 == ngaps(t) || !no_return(t) || TEMPLATES[t].starts_with('#') || TEMPLATES[t].starts_with('(')) {
        return;
    }
    let kind = [0, 2, 3, 5][choice(4) as usize];
    let v = program(t, g, kind, true);
    let src = text_of(v);
    let o = fmt(&src, &default_cfg());
    let mut c = default_cfg();
    if all {
        c.line_range = Some((1, nlines(src.as_bytes())));
        let o2 = fmt(&src, &c);
        check(o == o2, "a range of all lines differs from no range");
    } else {
        let (pre, post) = ("x  =  '\u{e9}'\n", "\ny  =  2");
        let n = nlines(src.as_bytes());
        c.line_range = Some((2, 1 + n));
        let s2 = format!("{}{}{}", pre, src, post);
        let o2 = fmt(&s2, &c);
        let want = format!("{}{}{}\n", pre, o.trim_end(), post);
        report("want", &want);
        check(o2 == want, "the range is not formatted like its statements alone");
    }
}
