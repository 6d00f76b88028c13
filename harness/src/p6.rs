//! The command line: P08 files and streams, P09 selection of files, P10 discovery of configuration files, P11 options.
use crate::cfg::*;
use crate::p1::*;
use crate::rt::*;
use luafmt::config::*;
use luafmt::formatter::{process_buffer_with_config, process_file};
use std::path::PathBuf;

fn s(x: &str) -> String {
    x.to_string()
}
fn has(h: &[u8], n: &str) -> bool {
    h.windows(n.len()).any(|w| w == n.as_bytes())
}

// ---- P11 options

#[derive(Clone, Copy)]
pub enum F {
    B(fn(&mut FormatOpts) -> &mut Option<bool>),
    U(fn(&mut FormatOpts) -> &mut Option<usize>),
    S(fn(&mut FormatOpts) -> &mut Option<String>),
}
macro_rules! opts {
    ($($k:ident $n:ident),* $(,)?) => { &[$((stringify!($n), F::$k(|f| &mut f.$n))),*] };
}
pub const OPTS: &[(&str, F)] = opts![
    B replace_zero_spaces_with_hint, S hint_after_multiline_comment, S hint_after_multiline_comment_text, S hint_before_comment,
    S hint_before_multiline_comment_text, S hint_before_oneline_comment_text, S hint_table_constructor, B remove_comments,
    B remove_single_newlines, B remove_all_newlines, B remove_spaces_between_tokens, B write_newline_at_eof,
    B write_newline_at_multiline_table, B write_newline_at_explist_multiline_table, S indentation_string, B indent_var_suffix,
    B indent_one_line_var_suffix, B indent_exp_list, B indent_one_line_exp_list, U newline_format_first_oneline_comment,
    U newline_format_first_multiline_comment, U newline_format_oneline_comment, U newline_format_multiline_comment,
    U newline_format_statement, U newline_format_do_end, U newline_format_for, U newline_format_function, U newline_format_if,
    U newline_format_repeat_until, U newline_format_table_constructor, U newline_format_table_field, U newline_format_while,
    U newline_format_binary_op, U newline_format_var_suffix, U newline_format_exp_list, U newline_format_exp_list_first,
    S field_separator, B write_trailing_field_separator, B convert_charstring_to_normalstring, U max_width,
    B force_single_line_binary_op, B force_single_line_table, B force_single_line_iv_table_field, B force_single_line_kv_table_field,
    B force_single_line_if, B force_single_line_top_level_function, B force_single_line_scoped_function, B force_single_line_var_suffix,
    B force_single_line_exp_list,
];
pub const NOPT: usize = OPTS.len();
/// decimal number that fits
fn number(v: &[u8]) -> Option<usize> {
    if v.is_empty() {
        return None;
    }
    let mut n: usize = 0;
    for c in v {
        if (*c < b'0') | (*c > b'9') {
            return None;
        }
        n = n.checked_mul(10)?.checked_add((*c - b'0') as usize)?;
    }
    Some(n)
}
/// the meaning of an option and a value
pub fn apply(c: &mut Config, name: &str, v: &str) {
    if name == "line_range" {
        let b = v.as_bytes();
        if let Some(k) = b.iter().position(|c| *c == b':') {
            if let (Some(x), Some(y)) = (number(&b[..k]), number(&b[k + 1..])) {
                c.line_range = Some((x, y));
            }
        }
        return;
    }
    for (n, f) in OPTS {
        if *n == name {
            match f {
                F::B(f) => match v {
                    "true" => *f(&mut c.fmt) = Some(true),
                    "false" => *f(&mut c.fmt) = Some(false),
                    _ => {}
                },
                F::U(f) => {
                    if let Some(n) = number(v.as_bytes()) {
                        *f(&mut c.fmt) = Some(n);
                    }
                }
                F::S(f) => *f(&mut c.fmt) = Some(s(v)),
            }
        }
    }
}
const VALUES: &[&str] = &["true", "false", "True", "tru", "truee", " true", "0", "18446744073709551615", "18446744073709551616", "-1", "1.5", "", "\u{e9}\u{20ac}", "3:7", "0:0", "3:", "3:7:9", "a=b"];
fn value() -> String {
    let k = choice(VALUES.len() as u8 + 5) as usize;
    if k < VALUES.len() {
        return s(VALUES[k]);
    }
    let n = k - VALUES.len() + 1;
    let mut v = Vec::with_capacity(8);
    if n == 5 {
        // a line range with symbolic digits and separator
        v.push(range(b'0', b'9'));
        v.push(range(b'0', b';'));
        v.push(range(b'/', b'9'));
    } else {
        for i in 0..n {
            let c = range(32, 126);
            // (`+1` is a number to the standard library)
            if i == 0 {
                assume(c != b'+');
            }
            v.push(c);
        }
    }
    text_of(v)
}
fn option_name(j: usize) -> &'static str {
    if j < NOPT {
        OPTS[j].0
    } else {
        ["line_range", "nonsense", "", "Max_width", "max_width ", "newline_format_ifs"][j - NOPT]
    }
}
fn same(a: &Config, b: &Config, m: &str) {
    check(a == b, m);
}
#[no_mangle]
pub extern "C" fn h_p11_set_jobs() -> u32 {
    2 * (NOPT as u32 + 6)
}
/// one option, any value: sets exactly this option, or nothing
#[no_mangle]
pub extern "C" fn h_p11_set() {
    let j = job() as usize;
    let name = option_name(j / 2);
    let mut c = if j % 2 == 0 { Config::default() } else { default_cfg() };
    if j % 2 == 1 {
        c.line_range = Some((5, 6));
    }
    let v = value();
    report("value", &v);
    let mut want = c.clone();
    apply(&mut want, name, &v);
    c.set(name, &v);
    same(&c, &want, "the option does not set exactly what it names");
    check(c.has_empty_format() == (c.fmt == FormatOpts::default()), "has_empty_format");
}
fn config_file(text: &[u8]) -> Result<Config, String> {
    fs_file("cfg/.luafmt.lua", text);
    let mut c = Config::default();
    c.line_range = Some((2, 9));
    c.reload_format_from_file(&PathBuf::from("cfg/.luafmt.lua"))
}
#[no_mangle]
pub extern "C" fn h_p11_file_jobs() -> u32 {
    NOPT as u32 + 1
}
/// a configuration file means what its assignments say
#[no_mangle]
pub extern "C" fn h_p11_file() {
    let j = job() as usize;
    let name = option_name(if j < NOPT { j } else { j + 1 });
    let mut v = Vec::with_capacity(8);
    // the literal: true, false, a numeral, a quoted string of two characters
    let k = choice(6);
    let lit: Vec<u8> = match k {
        0 | 1 => {
            v.extend_from_slice(if k == 0 { b"true" } else { b"false" });
            v.clone()
        }
        2 => {
            v.push(range(b'0', b'9'));
            v.push(range(b'0', b'9'));
            v.clone()
        }
        3 => {
            v.extend_from_slice(b"1.5");
            v.clone()
        }
        _ => {
            let q = if k == 4 { b'"' } else { b'\'' };
            let mut l = vec![q];
            for _ in 0..2 {
                let c = range(32, 126);
                assume((c != q) & (c != b'\\') & (c != b'+'));
                v.push(c);
                l.push(c);
            }
            l.push(q);
            l
        }
    };
    let v = text_of(v);
    let mut text = vec![];
    let other = if name == "max_width" { "newline_format_if" } else { "max_width" };
    let mut want = Config::default();
    want.line_range = Some((2, 9));
    // what surrounds it has no influence
    let around = choice(4);
    match around {
        0 => {}
        1 => text.extend_from_slice(b"-- remove_comments = true\nlocal x = 1 f()\n"),
        2 => {
            text.extend_from_slice(format!("{} = 7;", other).as_bytes());
            apply(&mut want, other, "7");
        }
        _ => {
            text.extend_from_slice(format!("#!/bin/lua\n{} = 3\n", name).as_bytes());
            apply(&mut want, name, "3");
        }
    }
    text.extend_from_slice(name.as_bytes());
    text.extend_from_slice(b" = ");
    text.extend_from_slice(&lit);
    apply(&mut want, name, &v);
    if around == 2 {
        text.extend_from_slice(format!(" --c\n {}=[[x]] {} = 8", name, other).as_bytes());
        apply(&mut want, other, "8");
    }
    report_bytes("in", &text);
    match config_file(&text) {
        Ok(c) => same(&c, &want, "the configuration file does not mean what its assignments say"),
        Err(_) => fail("the configuration file is rejected"),
    }
}
#[no_mangle]
pub extern "C" fn h_p11_shipped_jobs() -> u32 {
    1
}
/// the shipped configuration file sets what its lines say
#[no_mangle]
pub extern "C" fn h_p11_shipped() {
    let text = include_str!("/repo/.luafmt.lua");
    let mut want = Config::default();
    want.line_range = Some((2, 9));
    for l in text.split('\n') {
        if l.starts_with("--") {
            continue;
        }
        if let Some(k) = l.find(" = ") {
            apply(&mut want, &l[..k], l[k + 3..].trim().trim_matches('"'));
        }
    }
    match config_file(text.as_bytes()) {
        Ok(c) => same(&c, &want, "the shipped configuration file does not mean what its lines say"),
        Err(_) => fail("the shipped configuration file is rejected"),
    }
}
/// a program on which most options show
const RICH: &str = "#!x\nlocal t={a=1,\n'b';[c]=2}--c\n--[[d]]f(a,b+c):g(x,{1,2},y).h=1\n\n\nif x  then y() else z() end for i=1,2 do q() end while a do b() end repeat c() until d do e() end\nlocal function f(a,...)return function() a() end end";
fn cli_args(c: usize) -> Vec<String> {
    if c == 0 {
        vec![]
    } else {
        vec![s("--indentation_string=    "), s("--newline_format_statement=1"), s("--remove_spaces_between_tokens=true"), s("--replace_zero_spaces_with_hint=true"), s("--max_width=60"), s("--force_single_line_table=true"), s("--newline_format_table_field=1")]
    }
}
fn with_args(args: &[String]) -> Config {
    let mut c = Config::default();
    for a in args {
        if let Some(k) = a.find('=') {
            apply(&mut c, &a[2..k], &a[k + 1..]);
        }
    }
    c
}
#[no_mangle]
pub extern "C" fn h_p11_cli_jobs() -> u32 {
    (NOPT as u32 + 6) * 2
}
/// `--name=value` on the command line formats standard input as the option says
#[no_mangle]
pub extern "C" fn h_p11_cli() {
    let j = job() as usize;
    let mut args = cli_args(j % 2);
    let name = option_name(j / 2);
    let v = match choice(6) {
        4 => s(""),
        5 => s("=\u{e9} -"),
        0 => s("true"),
        1 => text_of(vec![range(b'1', b'2')]),
        2 => s("  "),
        _ => s("3:4"),
    };
    args.push(format!("--{}={}", name, v));
    report("arg", &args[args.len() - 1]);
    let src = s(RICH);
    fs_stdin(src.as_bytes());
    let c = with_args(&args);
    command(&args);
    let out = fs_out(1);
    let want = process_buffer_with_config(&src, &c, false).unwrap_or(s(""));
    report_bytes("out", &out);
    report("want", &want);
    check(out == want.as_bytes(), "the option does not have its effect on the command line");
}

// ---- P08 files and streams

/// contents of a file: (text, is a program in UTF-8)
fn content(k: usize) -> (Vec<u8>, bool) {
    match k {
        0 => {
            // (its formatted text is shorter, as long, or longer)
            let mut v = ["x  =  '", "x  ='", "x='"][choice(3) as usize].as_bytes().to_vec();
            let c = range(32, 126);
            assume((c != b'\'') & (c != b'\\'));
            v.push(c);
            v.extend_from_slice(b"' f()");
            (v, true)
        }
        1 => (b"x = 1\n".to_vec(), true),
        2 => {
            // an arbitrary character may make a program of it or not
            let mut v = b"x  =  1 ".to_vec();
            v.push(range(32, 126));
            let ok = process_buffer_with_config(&text_of(v.clone()), &default_cfg(), false).is_ok();
            (v, ok)
        }
        3 => {
            let mut v = b"x  =  '".to_vec();
            v.push(range(0x80, 0xbf));
            v.extend_from_slice(b"'");
            (v, false)
        }
        4 => (vec![], true),
        5 => ("y  =  '\u{e9}\u{20ac}' --\u{1f600}\r\n\r\n  z=1".as_bytes().to_vec(), true),
        _ => {
            // longer than the buffers of the I/O library
            let mut v = vec![];
            for _ in 0..60 {
                v.extend_from_slice(b"f( a,b )  ");
            }
            (v, true)
        }
    }
}
const NCONTENT: usize = 7;
const FMTARGS: &[&str] = &["--remove_spaces_between_tokens=true", "--replace_zero_spaces_with_hint=true", "--newline_format_statement=1"];
#[no_mangle]
pub extern "C" fn h_p08_jobs() -> u32 {
    (NCONTENT * 8 * 2) as u32
}
/// two files and a missing one, in place or not
#[no_mangle]
pub extern "C" fn h_p08() {
    let j = job() as usize;
    let (k, k2, order) = (j % NCONTENT, j / NCONTENT % 8, j / NCONTENT / 8);
    let inplace = boolean();
    let (a, a_ok) = content(k);
    // the second file: another content, unreadable, or not there
    let k2 = [0, 1, 2, 3, 5, 6, 7, 8][k2];
    let (b, b_ok) = if k2 < NCONTENT { content(k2) } else { (b"q  =  1".to_vec(), true) };
    let (na, nb) = if order == 0 { ("d/a.lua", "d/b.txt") } else { ("d/z.lua", "d/y") };
    fs_file(na, &a);
    if k2 != 8 {
        fs_file(nb, &b);
    }
    // reading or writing may fail
    let fault = if k2 == 7 { [1, 4][choice(2) as usize] } else { 0 };
    if fault != 0 {
        fs_fault(nb, fault);
    }
    let mut args: Vec<String> = FMTARGS.iter().map(|x| s(x)).collect();
    if inplace {
        args.push(s(if order == 0 { "-i" } else { "--inplace" }));
    }
    args.insert(0, s(na));
    args.push(s(nb));
    let c = with_args(&args[1..4]);
    command(&args);
    let (out, err) = (fs_out(1), fs_out(2));
    let mut want = vec![];
    for k in 0..2 {
        let b_first = nb < na;
        let is_b = (k == 0) == b_first;
        let (name, text, ok, exists) = if is_b { (nb, &b, b_ok && fault != 1, k2 != 8) } else { (na, &a, a_ok, true) };
        let mut after = text.clone();
        let mut failed = !ok || !exists;
        if ok && exists {
            let o = process_buffer_with_config(&text_of(text.clone()), &c, false);
            match o {
                Ok(o) => {
                    if !inplace {
                        want.extend_from_slice(o.as_bytes());
                    } else if is_b && fault == 4 {
                        failed = true;
                    } else {
                        after = o.into_bytes();
                    }
                }
                Err(_) => failed = true,
            }
        }
        match fs_read(name) {
            Some(x) => {
                check(exists, "a missing file was created");
                report_bytes("file", &x);
                check(x == after, if failed { "a file that could not be formatted was changed" } else if inplace { "the file does not hold its formatted text" } else { "a file was changed without -i" });
            }
            None => check(!exists, "a file is gone"),
        }
        check(has(&err, name) == failed, "the error output does not name exactly the failing files");
    }
    report_bytes("out", &out);
    check(out == want, "the standard output is not the formatted text of the files in order");
}
#[no_mangle]
pub extern "C" fn h_p08_stdin_jobs() -> u32 {
    NCONTENT as u32
}
/// standard input to standard output
#[no_mangle]
pub extern "C" fn h_p08_stdin() {
    let (a, ok) = content(job() as usize);
    fs_stdin(&a);
    let mut args: Vec<String> = FMTARGS.iter().map(|x| s(x)).collect();
    if boolean() {
        args.push(s("-i"));
    }
    let c = with_args(&args[..3]);
    command(&args);
    let (out, err) = (fs_out(1), fs_out(2));
    report_bytes("out", &out);
    let mut want = s("");
    let mut good = ok;
    if ok {
        match process_buffer_with_config(&text_of(a), &c, false) {
            Ok(o) => want = o,
            Err(_) => good = false,
        }
    }
    check(out == want.as_bytes(), "the standard output is not the formatted standard input");
    check(err.is_empty() == good, "an error message for a program, or none for another text");
}

// ---- P09 selection of files

/// extension `lua` as the last component after a dot that is not the first character, and not a configuration file
fn selected(name: &str) -> bool {
    name.len() > 4 && name.ends_with(".lua") && !name.starts_with(".luafmt")
}
const BODY: &str = "x  =  1";
fn changed(path: &str) -> bool {
    match fs_read(path) {
        Some(b) => b != BODY.as_bytes(),
        None => false,
    }
}
const NAMES: &[&str] = &[
    "a.lua", ".lua", "b.txt", "lua", "c.LUA", "d.lua.bak", "e.b.lua", ".luafmt.lua", ".luafmt_x.lua", ".luafmt", ".luafm.lua", "x.luafmt.lua", "f.luax", "g.lu", "\u{e9}.lua", " .lua", "-i.lua",
];
#[no_mangle]
pub extern "C" fn h_p09_jobs() -> u32 {
    NAMES.len() as u32 + 2
}
/// a directory: which files does `-i DIR` (with or without `-r`) format?
#[no_mangle]
pub extern "C" fn h_p09() {
    let j = job() as usize;
    let name = if j < NAMES.len() {
        s(NAMES[j])
    } else {
        // a name of free characters
        let set = b"a.lux";
        let n = if j == NAMES.len() { 2 } else { 1 };
        let mut v = vec![];
        for _ in 0..n {
            v.push(set[choice(5) as usize]);
        }
        v.extend_from_slice(if n == 2 { b"lua" } else { b".lua" });
        if n == 1 {
            v.push(set[choice(5) as usize]);
        }
        text_of(v)
    };
    report("name", &name);
    // the path asked for, and where the file is below it
    let asked = ["d", "d/", "./d", "d/e/.."][choice(4) as usize];
    let below = ["d/", "d/s/", "d/s.lua/t/", "n/"][choice(4) as usize];
    let rec = choice(3);
    let path = format!("{}{}", below, name);
    fs_dir("d/e");
    fs_file(&path, BODY.as_bytes());
    fs_file("d/s/other.lua", BODY.as_bytes());
    fs_file("d/k.lua", BODY.as_bytes());
    fs_dir("d/dir.lua");
    let mut args: Vec<String> = FMTARGS.iter().map(|x| s(x)).collect();
    args.push(s("-i"));
    if rec > 0 {
        args.push(s(if rec == 1 { "-r" } else { "--recursive" }));
    }
    args.push(s(asked));
    command(&args);
    check(changed("d/k.lua"), "a Lua file of the directory is left out");
    check(changed("d/s/other.lua") == (rec > 0), "files of subdirectories, with or without -r");
    let want = selected(&name) && (below == "d/" || (rec > 0 && below != "n/"));
    check(changed(&path) == want, if want { "a Lua file is left out" } else { "a file is formatted that was not asked for" });
    check(fs_out(2).is_empty(), "error output");
}
/// names of directories
const DNAMES: [&str; 14] = [".h", "..x", "s", "S", "1", "-r", "_", " ", "lua", ".lua", ".git", "target", "node_modules", "a.b"];
#[no_mangle]
pub extern "C" fn h_p09_dir_jobs() -> u32 {
    DNAMES.len() as u32 + 2
}
/// directories of any name below the one given
#[no_mangle]
pub extern "C" fn h_p09_dir() {
    let j = job() as usize;
    let name = if j < DNAMES.len() {
        s(DNAMES[j])
    } else {
        let set = b"a.-_~";
        let mut v = vec![];
        for _ in 0..j - DNAMES.len() + 1 {
            v.push(set[choice(5) as usize]);
        }
        assume(v != b"." && v != b"..");
        text_of(v)
    };
    report("name", &name);
    let path = [format!("d/{}/f.lua", name), format!("d/{}/t/f.lua", name), format!("d/s/{}/f.lua", name), format!("d/{}/{}/f.lua", name, name)];
    let path = &path[choice(4) as usize];
    fs_file(path, BODY.as_bytes());
    fs_file("d/k.lua", BODY.as_bytes());
    let rec = choice(3);
    let mut args: Vec<String> = FMTARGS.iter().map(|x| s(x)).collect();
    args.push(s("-i"));
    if rec > 0 {
        args.push(s(if rec == 1 { "-r" } else { "--recursive" }));
    }
    args.push(s("d"));
    command(&args);
    check(changed("d/k.lua"), "a Lua file of the directory is left out");
    check(changed(path) == (rec > 0), "files of subdirectories, with or without -r");
    check(fs_out(2).is_empty(), "error output");
}
#[no_mangle]
pub extern "C" fn h_p09_file_jobs() -> u32 {
    NAMES.len() as u32
}
/// a file named on the command line is formatted whatever its name, and no other one
#[no_mangle]
pub extern "C" fn h_p09_file() {
    let name = NAMES[job() as usize];
    let path = format!("d/{}", name);
    fs_file(&path, BODY.as_bytes());
    fs_file("d/z.lua", BODY.as_bytes());
    fs_file("d/s/z.lua", BODY.as_bytes());
    let mut args: Vec<String> = FMTARGS.iter().map(|x| s(x)).collect();
    args.push(s("-i"));
    if boolean() {
        args.push(s("-r"));
    }
    let twice = boolean();
    args.push(path.clone());
    if twice {
        args.push(s("d/z.lua"));
        args.push(s("nothing.lua"));
    }
    command(&args);
    check(changed(&path), "a named file is left out");
    check(changed("d/z.lua") == twice, "another file");
    check(!changed("d/s/z.lua"), "a file that was not named is formatted");
    check(has(&fs_out(2), "nothing.lua") == twice, "a missing path is reported");
}

// ---- P10 discovery of configuration files

/// what may be found in a directory: None no configuration file, Some(valid?)
fn plant(dir: &str, k: u8, width: usize) -> Option<bool> {
    let good = format!("newline_format_statement = {}\nremove_spaces_between_tokens = true\nreplace_zero_spaces_with_hint = true\n", width);
    match k {
        0 => None,
        1 => {
            fs_file(&format!("{}.luafmt.lua", dir), good.as_bytes());
            Some(true)
        }
        2 => {
            fs_file(&format!("{}.luafmt_project.lua", dir), good.as_bytes());
            Some(true)
        }
        3 => {
            // none of these is a configuration file
            fs_file(&format!("{}.luafmt.txt", dir), b"((");
            fs_file(&format!("{}luafmt.lua", dir), b"((");
            fs_file(&format!("{}x.luafmt.lua", dir), b"((");
            fs_file(&format!("{}.luafmt", dir), b"((");
            fs_dir(&format!("{}.luafmt_d.lua", dir));
            None
        }
        4 => {
            fs_file(&format!("{}.luafmt.lua", dir), b"max_width = = 1");
            Some(false)
        }
        _ => {
            fs_file(&format!("{}.luafmt.lua", dir), b"x = '\x80'");
            Some(false)
        }
    }
}
const DIRS: [&str; 4] = ["p/q/r/", "p/q/", "p/", ""];
fn expected(w: Option<usize>, lr: Option<(usize, usize)>) -> Config {
    let mut c = Config::default();
    if let Some(w) = w {
        c.fmt.newline_format_statement = Some(w);
        c.fmt.remove_spaces_between_tokens = Some(true);
        c.fmt.replace_zero_spaces_with_hint = Some(true);
    }
    c.line_range = lr;
    c
}
#[no_mangle]
pub extern "C" fn h_p10_jobs() -> u32 {
    36
}
/// the nearest configuration file governs, unless the command line has a format option
#[no_mangle]
pub extern "C" fn h_p10() {
    let j = job() as usize;
    let ks = [(j % 6) as u8, (j / 6) as u8, choice(6), choice(3)];
    let mut found: Option<(bool, usize)> = None;
    for i in 0..4 {
        if let Some(ok) = plant(DIRS[i], ks[i], i + 1) {
            if found.is_none() {
                found = Some((ok, i + 1));
            }
        }
    }
    let src = s("x  =  1 y=2\nz  =  3 w=4");
    fs_file("p/q/r/x.lua", src.as_bytes());
    fs_file("p/q/r/other/.luafmt.lua", b"newline_format_statement = 9\n");
    // a way through a directory with another configuration does not count
    fs_file("p/q/side/.luafmt.lua", b"newline_format_statement = 8\n");
    let path = ["p/q/r/x.lua", "./p/q/r/x.lua", "p/../p/q/r/./x.lua", "p/q/side/../r/x.lua"][choice(4) as usize];
    let lr = [None, Some((2, 2))][choice(2) as usize];
    let mut c = Config::default();
    c.line_range = lr;
    let own = boolean();
    if own {
        c.fmt.newline_format_if = Some(1);
    }
    let r = process_file(&PathBuf::from(path), &c, false);
    if own {
        let want = process_buffer_with_config(&src, &c, false).unwrap();
        match r {
            Ok(o) => check(o == want, "a configuration file is used although there is a format option"),
            Err(_) => fail("an error although there is a format option"),
        }
        return;
    }
    match (found, r) {
        (None, r) => check(r.is_err(), "formatted without any configuration"),
        (Some((false, _)), r) => check(r.is_err(), "formatted with an invalid configuration file"),
        (Some((true, _)), Err(_)) => fail("the nearest configuration file is not found"),
        (Some((true, w)), Ok(o)) => {
            report("out", &o);
            let want = process_buffer_with_config(&src, &expected(Some(w), lr), false).unwrap();
            report("want", &want);
            check(o == want, "not formatted with the nearest configuration file");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_p10_cli_jobs() -> u32 {
    36
}
/// the same for two files in different directories through the command line
#[no_mangle]
pub extern "C" fn h_p10_cli() {
    let j = job() as usize;
    let (k1, k2, k0) = ((j % 6) as u8, (j / 6) as u8, choice(3));
    let d1 = plant("a/", k1, 1);
    let d2 = plant("b/", k2, 2);
    let d0 = plant("", k0, 3);
    let src = s("x  =  1 y=2\nz  =  3 w=4");
    fs_file("a/m.lua", src.as_bytes());
    fs_file("b/m.lua", src.as_bytes());
    let own = choice(3);
    let mut args = vec![s("-i")];
    let mut lr = None;
    if own == 1 {
        args.push(s("--newline_format_if=1"));
    } else if own == 2 {
        args.push(s("--line_range=1:1"));
        lr = Some((1, 1));
    }
    args.push(s("a"));
    args.push(s("b"));
    command(&args);
    let err = fs_out(2);
    for (name, d, w) in [("a/m.lua", d1, 1), ("b/m.lua", d2, 2)] {
        let got = match fs_read(name) {
            Some(g) => g,
            None => fail("a file is gone"),
        };
        report_bytes(name, &got);
        let (ok, w) = match (d, d0) {
            (Some(ok), _) => (ok, w),
            (None, Some(ok)) => (ok, 3),
            (None, None) => (false, 0),
        };
        let want = if own == 1 {
            let mut c = Config::default();
            c.fmt.newline_format_if = Some(1);
            process_buffer_with_config(&src, &c, false).unwrap()
        } else if ok {
            process_buffer_with_config(&src, &expected(Some(w), lr), false).unwrap()
        } else {
            src.clone()
        };
        check(got == want.as_bytes(), "the file is not formatted by its own nearest configuration");
        check(has(&err, name) == (own != 1 && !ok), "the error output does not name exactly the failing files");
    }
}
