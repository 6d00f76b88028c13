//! P01 code tokens, P02 comments, P03 comment removal.
use crate::cfg::*;
use crate::gen::*;
use crate::rt::*;
use crate::t0::{ntg, tg};
use crate::tok::*;
use luafmt::config::*;
use luafmt::formatter::process_buffer_with_config;

pub fn text_of(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn show_cfg(c: &Config) {
    if !is_symbolic() {
        print(&format!("{}", c));
    }
}
/// format a valid program
pub fn fmt(src: &String, c: &Config) -> String {
    report("in", src);
    match process_buffer_with_config(src, c, false) {
        Ok(o) => {
            report("out", &o);
            show_cfg(c);
            o
        }
        Err(e) => {
            if !is_symbolic() {
                print(&format!("{}", e));
            }
            fail("valid program rejected")
        }
    }
}
pub fn code(src: &String, o: &String) {
    let a = canon(src.as_bytes(), false, true);
    let b = canon(o.as_bytes(), false, true);
    check(a.code == b.code, "code tokens differ");
}
pub fn comments(src: &String, o: &String, trim: bool) {
    let a = canon(src.as_bytes(), false, trim);
    let b = canon(o.as_bytes(), false, trim);
    check(a.comments == b.comments, "comments differ");
}
fn gap_src() -> String {
    let (t, g) = tg(job());
    let kind = choice(NFILL);
    text_of(program(t, g, kind, true))
}
/// gap fillings explored by the quick checks, then the others
pub const MQ: [usize; NMODE] = [0, 3, 4, 2, 1, 5, 6];
/// job -> (group, template, mode): groups x templates x 4 fillings
pub fn gtm() -> (usize, usize, usize) {
    let j = job() as usize;
    (j % NGROUPQ, j / NGROUPQ % NT, MQ[j / NGROUPQ / NT])
}
pub const NGTM: u32 = (NGROUPQ * NT * 4) as u32;
/// job -> (group, context, template, mode)
pub fn gctm() -> (usize, usize, usize, usize) {
    let j = job() as usize;
    (j % NGROUP, j / NGROUP % CTX.len(), j / NGROUP / CTX.len() % NT, MQ[j / NGROUP / CTX.len() / NT])
}
pub const NGCTM: u32 = (NGROUP * NT * NMODE * CTX.len()) as u32;
pub fn ctx_ok(c: usize, t: usize) -> bool {
    c == 0 || !TEMPLATES[t].starts_with('#')
}

#[no_mangle]
pub extern "C" fn h_p01_gap_jobs() -> u32 {
    ntg()
}
/// every template, one gap filled with symbolic white space / comments, shipped configuration
#[no_mangle]
pub extern "C" fn h_p01_gap() {
    let src = gap_src();
    let o = fmt(&src, &default_cfg());
    code(&src, &o);
}
#[no_mangle]
pub extern "C" fn h_p01_cfg_jobs() -> u32 {
    NGTM
}
/// every template, all gaps filled alike, symbolic configuration
#[no_mangle]
pub extern "C" fn h_p01_cfg() {
    let (g, t, m) = gtm();
    let src = text_of(fill_all(TEMPLATES[t], m));
    let o = fmt(&src, &group(g));
    code(&src, &o);
}
#[no_mangle]
pub extern "C" fn h_p01_ctx_jobs() -> u32 {
    NGCTM
}
/// the same inside statement contexts
#[no_mangle]
pub extern "C" fn h_p01_ctx() {
    let (g, c, t, m) = gctm();
    if !ctx_ok(c, t) {
        return;
    }
    let src = text_of(fill_all(&in_ctx(c, TEMPLATES[t]), m));
    let o = fmt(&src, &group(g));
    code(&src, &o);
}
#[no_mangle]
pub extern "C" fn h_p02_gap_jobs() -> u32 {
    ntg()
}
#[no_mangle]
pub extern "C" fn h_p02_gap() {
    let src = gap_src();
    let o = fmt(&src, &default_cfg());
    comments(&src, &o, true);
}
#[no_mangle]
pub extern "C" fn h_p02_cfg_jobs() -> u32 {
    (NGROUPQ * NT * 3) as u32
}
#[no_mangle]
pub extern "C" fn h_p02_cfg() {
    let j = job() as usize;
    let (g, t, m) = (j % NGROUPQ, j / NGROUPQ % NT, [3, 4, 6][j / NGROUPQ / NT]);
    let src = text_of(fill_all(TEMPLATES[t], m));
    let c = group(g);
    let trim = c.fmt.hint_before_oneline_comment_text.is_some();
    let o = fmt(&src, &c);
    comments(&src, &o, trim);
}
#[no_mangle]
pub extern "C" fn h_p02_ctx_jobs() -> u32 {
    NGCTM
}
#[no_mangle]
pub extern "C" fn h_p02_ctx() {
    let (g, c, t, m) = gctm();
    if !ctx_ok(c, t) || (m != 3 && m != 4 && m != 6) {
        return;
    }
    let src = text_of(fill_all(&in_ctx(c, TEMPLATES[t]), m));
    let c = group(g);
    let trim = c.fmt.hint_before_oneline_comment_text.is_some();
    let o = fmt(&src, &c);
    comments(&src, &o, trim);
}
