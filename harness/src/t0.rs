use crate::cfg::*;
use crate::gen::*;
use crate::rt::*;
use crate::tok::*;
use luafmt::config::*;
use luafmt::formatter::process_buffer_with_config;

#[no_mangle]
pub extern "C" fn h_t0_jobs() -> u32 {
    1
}
#[no_mangle]
pub extern "C" fn h_t0() {
    let n = 3;
    let mut s = String::new();
    for _ in 0..n {
        s.push(range(32, 126) as char);
    }
    report("in", &s);
    let cfg = Config::default();
    match process_buffer_with_config(&s, &cfg, false) {
        Ok(o) => {
            cover(1);
            report("out", &o)
        }
        Err(_) => cover(2),
    }
}
/// job -> (template, gap)
pub fn tg(j: u32) -> (usize, usize) {
    let mut j = j as usize;
    for t in 0..NT {
        let n = ngaps(t);
        if j < n {
            return (t, j);
        }
        j -= n;
    }
    (0, 0)
}
pub fn ntg() -> u32 {
    let mut n = 0;
    for t in 0..NT {
        n += ngaps(t);
    }
    n as u32
}
#[no_mangle]
pub extern "C" fn h_t1_jobs() -> u32 {
    ntg()
}
#[no_mangle]
pub extern "C" fn h_t1() {
    let (t, g) = tg(job());
    let kind = choice(NFILL);
    let src = program(t, g, kind, true);
    report_bytes("in", &src);
    let cfg = default_cfg();
    let src = unsafe { String::from_utf8_unchecked(src) };
    match process_buffer_with_config(&src, &cfg, false) {
        Ok(o) => {
            report("out", &o);
            let a = canon(src.as_bytes(), false, true);
            let b = canon(o.as_bytes(), false, true);
            check(a.code == b.code, "code tokens differ");
            check(a.comments == b.comments, "comments differ");
        }
        Err(_) => fail("valid program rejected"),
    }
}

