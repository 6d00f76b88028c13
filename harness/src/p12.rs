//! P23 switches of the command line, messages and the verbose list.
use crate::p1::text_of;
use crate::p6::*;
use crate::rt::*;
use luafmt::config::*;
use luafmt::formatter::process_buffer_with_config;

fn s(x: &str) -> String {
    x.to_string()
}
fn has(h: &[u8], n: &str) -> bool {
    h.windows(n.len()).any(|w| w == n.as_bytes())
}
struct Run {
    inplace: bool,
    recursive: bool,
    verbose: bool,
    cfg: Config,
    /// what must be named on standard error
    named: Vec<String>,
}
fn word_byte(c: u8) -> bool {
    ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9')) | (c == b'_')
}
/// what a word that begins with `-` means
fn meaning(a: &str, r: &mut Run) {
    if let (true, Some(k)) = (a.starts_with("--"), a.find('=')) {
        let (n, v) = (&a[2..k], &a[k + 1..]);
        if !n.is_empty() && n.bytes().all(word_byte) {
            let mut alone = Config::default();
            apply(&mut alone, n, v);
            if alone == Config::default() {
                r.named.push(s(n));
            } else {
                apply(&mut r.cfg, n, v);
            }
            return;
        }
    }
    let x = a.trim_start_matches('-');
    if a.len() - x.len() <= 2 {
        match x {
            "i" | "inplace" => return r.inplace = true,
            "r" | "recursive" => return r.recursive = true,
            "v" | "verbose" => return r.verbose = true,
            _ => {}
        }
    }
    r.named.push(s(a));
}
const FREE: &[&str] = &[
    "-i", "--i", "---i", "-inplace", "--inplace", "--inplac", "--inplaces", "-I", "-r", "--r", "-recursive", "--recursive", "--recursive=true", "-v", "--verbose", "-", "--", "-x", "--help", "--no_such=1", "--max_width=x", "--max_width=",
    "--max_width", "--max_width=30", "-max_width=30", "--line_range=1", "--remove_comments=yes", "--remove_comments=true", "--Max_width=3", "--=1", "--field_separator=;", "--a-b=1", "-i=1", "--\u{e9}", "-1",
];
const SRC: [&str; 3] = ["x  =  1 --c\n  y={a,\nb}", "z  =  { 'q'; 2 }", "w(  1  )"];
const FILES: [&str; 3] = ["d/a.lua", "d/s/b.lua", "e.txt"];
#[no_mangle]
pub extern "C" fn h_p23_jobs() -> u32 {
    FREE.len() as u32 + 2
}
/// one or two words beginning with `-`, anywhere among the paths and the options
#[no_mangle]
pub extern "C" fn h_p23() {
    let j = job() as usize;
    let free = if j < FREE.len() {
        s(FREE[j])
    } else {
        // one or two free characters behind one or two `-`
        let mut v = b"--"[..1 + choice(2) as usize].to_vec();
        for _ in 0..(j + 1 - FREE.len()) {
            v.push(range(32, 126));
        }
        text_of(v)
    };
    report("word", &free);
    let mut args: Vec<String> = ["--remove_spaces_between_tokens=true", "--replace_zero_spaces_with_hint=true", "d", "e.txt"].iter().map(|x| s(x)).collect();
    let second = ["", "-i", "--recursive", "-v"][choice(4) as usize];
    if !second.is_empty() {
        args.insert([0, 3, args.len()][choice(3) as usize], s(second));
    }
    args.insert([0, 3, args.len()][choice(3) as usize], free);
    let mut r = Run { inplace: false, recursive: false, verbose: false, cfg: Config::default(), named: vec![] };
    for a in &args {
        if a.starts_with('-') {
            meaning(a, &mut r);
        }
    }
    // combinations of several letters are not claimed either way
    for a in &r.named {
        let x = a.trim_start_matches('-');
        if a.starts_with('-') && x.len() > 1 && x.bytes().all(|c| (c == b'i') | (c == b'v') | (c == b'r')) {
            return;
        }
    }
    for k in 0..3 {
        fs_file(FILES[k], SRC[k].as_bytes());
    }
    fs_file("d/n.txt", b"q  =  1");
    command(&args);
    let (out, err) = (fs_out(1), fs_out(2));
    report_bytes("out", &out);
    report_bytes("err", &err);
    let mut all = vec![];
    for k in 0..3 {
        let f = process_buffer_with_config(&s(SRC[k]), &r.cfg, false).unwrap();
        let on = k != 1 || r.recursive;
        let after = match fs_read(FILES[k]) {
            Some(x) => x,
            None => fail("a file is gone"),
        };
        check(after == if on && r.inplace { f.as_bytes() } else { SRC[k].as_bytes() }, "the file is not changed as the switches say");
        if on && !r.inplace {
            if r.verbose {
                check(has(&out, &f), "the formatted text is not written");
            }
            all.extend_from_slice(f.as_bytes());
        }
    }
    if !r.verbose {
        check(out == all, "the standard output is not the formatted text");
    } else {
        check(out.len() > all.len(), "no verbose output");
    }
    match fs_read("d/n.txt") {
        Some(x) => check(x == b"q  =  1", "another file was changed"),
        None => fail("another file is gone"),
    }
    check(err.is_empty() == r.named.is_empty(), "a wrong word is not reported, or a right one is");
    for n in &r.named {
        check(has(&err, n), "the error output does not name the wrong word");
    }
}
#[no_mangle]
pub extern "C" fn h_p23_list_jobs() -> u32 {
    NOPT as u32 * 2 + 1
}
/// the verbose list has exactly the options that are set, with their values
#[no_mangle]
pub extern "C" fn h_p23_list() {
    let j = job() as usize;
    let mut want: Vec<String> = vec![];
    let mut c = Config::default();
    // all options / one option / all but one
    for k in 0..NOPT {
        let on = if j == NOPT * 2 { true } else if j < NOPT { k == j } else { k != j - NOPT };
        if !on {
            continue;
        }
        let v = match OPTS[k].1 {
            F::B(f) => {
                let b = k % 2 == 0;
                *f(&mut c.fmt) = Some(b);
                s(if b { "true" } else { "false" })
            }
            F::U(f) => {
                *f(&mut c.fmt) = Some(k + 100);
                format!("{}", k + 100)
            }
            F::S(f) => {
                let x = format!("<{}>", k);
                let v = format!("\"{}\"", x);
                *f(&mut c.fmt) = Some(x);
                v
            }
        };
        want.push(format!("{}: {}", OPTS[k].0, v));
    }
    let lr = boolean();
    if lr {
        c.line_range = Some((range(1, 3) as usize, 7));
        want.push(format!("line_range: ({}, 7)", c.line_range.unwrap().0));
    }
    let o = format!("{}", c);
    report("out", &o);
    let mut got: Vec<String> = vec![];
    for l in o.split('\n') {
        let l = l.trim().trim_end_matches(',');
        if l.len() > 1 {
            got.push(s(l));
        }
    }
    got.sort();
    want.sort();
    check(got == want, "the list of options is not what is set");
}
