//! P22 a statement is formatted alike wherever it stands.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::refp::*;
use crate::rt::*;
use luafmt::config::*;

/// the tokens of `text`, the gaps between them filled alike, nothing at the ends
fn inner(text: &str, mode: usize) -> Vec<u8> {
    let toks: Vec<&str> = text.split(' ').filter(|p| !p.is_empty()).collect();
    let mut out = Vec::with_capacity(128);
    for i in 0..toks.len() {
        if i > 0 {
            let (a, b) = (toks[i - 1].as_bytes(), toks[i].as_bytes());
            mode_fill(mode, needs_space(a, b) || dollar(a, b), a.ends_with(b"-"), i, &mut out);
        }
        put_plain(toks[i], &mut out);
    }
    out
}
/// number of top-level statements; None: not a program (or one that is known to be misread)
fn statements(s: &[u8]) -> Option<usize> {
    let mut p = P::new(s, NO_NL, "");
    if p.chunk().is_none() || p.paren_stmt || p.minus_minus {
        return None;
    }
    Some(p.spans.len())
}
/// the statements that come behind, which show what the first left behind
const PROBES: &[&str] = &[
    "local x = { f ( a + b , c ) , function ( ) local y = { 1 , z = 2 } end }",
    "if a then b ( ) else return { c } end",
    "function f ( ) if a then b ( function ( ) c ( ) end ) end return a + b .. c end",
];
/// between the statements: the text, what of it is formatted with the first statement, what is added
const BETWEEN: &[(&str, &str, &str)] = &[
    ("\n", "", ""),
    (" ", "", ""),
    (" --c\n", " --c\n", ""),
    ("\n--c\n", "\n--c\n", ""),
    ("\n\n", "", "\n"),
    (" --[[c]]\n\n\n", " --[[c]]", "\n\n"),
];
fn in_a_row(a: &str, b: &str, mode: usize, g: usize, c: &Config) {
    let g = BETWEEN[g];
    let (sa, sb) = (inner(a, mode), inner(b, mode));
    let (na, nb) = match (statements(&sa), statements(&sb)) {
        (Some(x), Some(y)) if x > 0 => (x, y),
        _ => return,
    };
    let mut sab = sa.clone();
    sab.push(b'\n');
    sab.extend_from_slice(&sb);
    if statements(&sab) != Some(na + nb) {
        return;
    }
    let ob = fmt(&text_of(sb.clone()), c);
    let mut first = sa.clone();
    first.extend_from_slice(g.1.as_bytes());
    let oa = fmt(&text_of(first), c);
    let mut both = sa;
    both.extend_from_slice(g.0.as_bytes());
    both.extend_from_slice(&sb);
    let o = fmt(&text_of(both), c);
    check(o == oa + g.2 + &ob, "two statements are not formatted like each of them alone");
}
/// job -> probe, way to fill the gaps, gap between the statements
const WAYS: usize = 3 * 6;
fn row_way(j: usize) -> (&'static str, usize, usize) {
    // all combinations of two of the three things come up within the first jobs
    let (p, g) = (j % 3, j / 3);
    (PROBES[p], [0, 3, 4][(p + g) % 3], g % 6)
}
fn wide() -> Config {
    let mut c = default_cfg();
    c.fmt.max_width = susize(1, 110);
    c
}
#[no_mangle]
pub extern "C" fn h_p22_row_jobs() -> u32 {
    (CTX.len() * NT * WAYS) as u32
}
/// a template in a context, then a probe
#[no_mangle]
pub extern "C" fn h_p22_row() {
    let j = job() as usize;
    let (c, t, j) = (j % CTX.len(), j / CTX.len() % NT, j / CTX.len() / NT);
    if !ctx_ok(c, t) {
        return;
    }
    let (p, m, g) = row_way(j);
    in_a_row(&in_ctx(c, TEMPLATES[t]), p, m, g, &wide());
}
#[no_mangle]
pub extern "C" fn h_p22_big_jobs() -> u32 {
    (NBIG * WAYS) as u32
}
#[no_mangle]
pub extern "C" fn h_p22_big_first() -> u32 {
    (NBLK * WAYS) as u32
}
#[no_mangle]
pub extern "C" fn h_p22_big() {
    let (k, j) = big_job(job(), WAYS);
    if let Some(s) = big(k) {
        let (p, m, g) = row_way(j);
        in_a_row(&s, p, m, g, &wide());
    }
}
