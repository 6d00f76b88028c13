//! P19 max_width: one line if it fits.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::refp::*;
use crate::rt::*;
use luafmt::config::*;

fn chars(b: &[u8]) -> usize {
    b.iter().filter(|c| (**c & 0xc0) != 0x80).count()
}
/// characters before position `a` in its line
fn column(b: &[u8], a: usize) -> usize {
    let mut i = a;
    while i > 0 && b[i - 1] != b'\n' {
        i -= 1;
    }
    chars(&b[i..a])
}
fn widths(src: &String, c: &Config) {
    let w = c.fmt.max_width.unwrap_or(0);
    let o = fmt(src, c);
    let b = o.as_bytes();
    let mut p = P::new(b, NO_NL, "");
    if p.chunk().is_none() {
        fail("reference parser rejects the output");
    }
    report_bytes("flat", &p.out);
    for n in &p.nodes {
        if matches!(n.k, NK::Op | NK::Item | NK::Suffix) {
            continuation(b, &p.out, n, w);
            continue;
        }
        let left = column(b, n.a);
        if !b[n.a..n.b].contains(&b'\n') {
            // it is on one line: it fits, or could not be broken
            if (n.k == NK::Table && !n.single) || n.k == NK::If || (n.k == NK::Func && n.level > 0) {
                check(left + chars(&b[n.a..n.b]) < w, "a construct on one line is wider than max_width");
            }
        } else if n.one {
            if n.k == NK::Func && n.level == 0 {
                continue;
            }
            check(left + chars(&p.out[n.c..n.d]) >= w, "a construct that fits into max_width is on several lines");
        }
    }
}
/// operators, list items and suffixes: a line break in front of them exactly if they do not fit behind what is
/// in front of them
fn continuation(b: &[u8], flat: &[u8], n: &Nd, w: usize) {
    // the end of what is in front of it
    let mut e = n.a;
    while e > 0 && (b[e - 1] == b' ' || b[e - 1] == b'\n') {
        e -= 1;
    }
    let left = column(b, e) + (n.k == NK::Op) as usize;
    if b[e..n.a].contains(&b'\n') {
        if n.one {
            check(left + chars(&flat[n.c..n.d]) >= w, "a line break although the rest fits into max_width");
        }
    } else if n.one && !b[n.a..n.b].contains(&b'\n') {
        check(left + chars(&b[n.a..n.b]) < w, "no line break although the line is wider than max_width");
    }
}
#[no_mangle]
pub extern "C" fn h_p19_ctx_jobs() -> u32 {
    (CTX.len() * NT * 2) as u32
}
#[no_mangle]
pub extern "C" fn h_p19_ctx() {
    let j = job() as usize;
    let (c, t, m) = (j % CTX.len(), j / CTX.len() % NT, [0, 2][j / CTX.len() / NT]);
    if !ctx_ok(c, t) {
        return;
    }
    let src = text_of(fill_all(&in_ctx(c, TEMPLATES[t]), m));
    let mut cf = default_cfg();
    cf.fmt.max_width = susize(1, 110);
    widths(&src, &cf);
}
#[no_mangle]
pub extern "C" fn h_p19_big_jobs() -> u32 {
    NBIG as u32
}
#[no_mangle]
pub extern "C" fn h_p19_big_first() -> u32 {
    (NBLK) as u32
}
#[no_mangle]
pub extern "C" fn h_p19_big() {
    let (k, _) = big_job(job(), 1);
    if let Some(s) = big(k) {
        let mut cf = default_cfg();
        cf.fmt.max_width = susize(1, 110);
        widths(&text_of(fill_all(&s, 0)), &cf);
    }
}
/// longer programs, with characters of several bytes
const WIDE: &[&str] = &[
    "local x = f ( 'ééé' , { 'ä' , b = 'ö€' } ) + 'é' .. x : y ( 'é' ) : z ( 1 ) . q",
    "local function f ( ) if a == 'é' then return 'éé€€' end end",
    "t = { 'é' , 'ä€' , f = function ( a ) return 'é' end , { 'ö' , x = '€' } , }",
    "a = 'é' == b and 'ä' ~= c or d .. 'ö' .. '€'",
    "a . b ( 'é' ) : c ( function ( ) return 'ä' end ) : d { 'ö' } . e = 1",
    "local a , b , c = 'é' , 'ä' .. x , f ( '€' , y , 'ö' )",
    "return { é = 1 , f ( 'ä' , g ( 'ö' ) + h ( '€' ) ) }",
    "do while f ( 'é' ) do local a = { 'ä' , '€' } if x then y ( 'é' ) else z ( 'ö' ) end end end",
];
#[no_mangle]
pub extern "C" fn h_p19_wide_jobs() -> u32 {
    (WIDE.len() * CTX.len()) as u32
}
#[no_mangle]
pub extern "C" fn h_p19_wide() {
    let j = job() as usize;
    let s = WIDE[j % WIDE.len()].replace("é =", "e =");
    let mut cf = default_cfg();
    cf.fmt.max_width = susize(1, 110);
    widths(&text_of(fill_all(&in_ctx(j / WIDE.len(), &s), 0)), &cf);
}
