//! P12 every valid program is accepted, P13 the output is a valid program: all programs of a bounded number
//! of tokens, derived from the grammar of the manual.
use crate::cfg::*;
use crate::gen::*;
use crate::p1::*;
use crate::refp::*;
use crate::rt::*;
use crate::tok::*;

struct G {
    out: Vec<u8>,
    /// start of the last token
    last: usize,
    /// tokens left
    left: i32,
    /// separation: 0 tight, 1 line breaks, 2 comments
    sep: u8,
    /// expressions with many operators
    ops: bool,
}
impl G {
    fn t(&mut self, x: &str) {
        let need = needs_space(&self.out[self.last..], x.as_bytes());
        match self.sep {
            0 => {
                if need {
                    self.out.push(b' ');
                }
            }
            1 => self.out.push(b'\n'),
            _ => self.out.extend_from_slice(b" --c\n"),
        }
        self.last = self.out.len();
        self.out.extend_from_slice(x.as_bytes());
        self.left -= 1;
    }
    /// one of the alternatives whose costs fit
    fn pick(&self, reserve: i32, costs: &[i32]) -> usize {
        let room = self.left - reserve;
        let mut n = 0;
        for c in costs {
            if *c <= room {
                n += 1;
            }
        }
        let mut k = if n > 1 { choice(n) } else { 0 };
        for i in 0..costs.len() {
            if costs[i] <= room {
                if k == 0 {
                    return i;
                }
                k -= 1;
            }
        }
        0
    }
    /// go on with something of this cost?
    fn more(&self, reserve: i32, cost: i32) -> bool {
        self.left - reserve >= cost && boolean()
    }
    fn exp(&mut self, r: i32) {
        loop {
            self.unary(r);
            if !self.more(r, 2) {
                return;
            }
            if self.ops {
                let k = choice(8) as usize;
                self.t(["or", "and", "<", "..", "-", "//", "^", "~="][k]);
            } else {
                let k = choice(2) as usize;
                self.t(["+", ".."][k]);
            }
        }
    }
    fn unary(&mut self, r: i32) {
        while self.more(r, 2) {
            let k = choice(if self.ops { 4 } else { 2 }) as usize;
            self.t(["not", "-", "#", "~"][k]);
        }
        // name, number, string, nil, ..., {}, (e), function, suffixed
        match self.pick(r, if self.ops { &[1, 1, 9, 9, 9, 9, 3, 9, 3] } else { &[1, 1, 1, 9, 1, 2, 3, 4, 2] }) {
            0 => self.t("a"),
            1 => self.t("1"),
            2 => self.t("'s'"),
            3 => self.t("nil"),
            4 => self.t("..."),
            5 => self.table(r),
            6 => {
                self.t("(");
                self.exp(r + 1);
                self.t(")");
            }
            7 => {
                self.t("function");
                self.body(r);
            }
            _ => {
                self.prefix(r + 1);
                self.suffixes(r, true, 0);
            }
        }
    }
    fn prefix(&mut self, r: i32) {
        if self.left - r >= 3 && boolean() {
            self.t("(");
            self.exp(r + 1);
            self.t(")");
        } else {
            self.t("f");
        }
    }
    /// suffixes; `end`: 0 any, 1 a call, 2 not a call
    fn suffixes(&mut self, r: i32, first: bool, end: u8) {
        let mut first = first;
        let min = if end == 1 { 1 } else { 0 };
        let mut call = false;
        loop {
            if first {
                first = false;
            } else {
                let ok = end == 0 || (end == 1) == call;
                if ok && !(self.left - r - min >= 1 && boolean()) {
                    return;
                }
            }
            // "s", (), {}, .n, [e], :n"s"
            let k = match self.pick(r, if end == 2 { &[2, 3, 3, 2, 3, 4] } else { &[1, 2, 2, 2, 3, 3] }) {
                0 => {
                    self.t("\"s\"");
                    true
                }
                1 => {
                    self.args(r);
                    true
                }
                2 => {
                    self.table(r);
                    true
                }
                3 => {
                    self.t(".");
                    self.t("b");
                    false
                }
                4 => {
                    self.t("[");
                    self.exp(r + 1);
                    self.t("]");
                    false
                }
                _ => {
                    self.t(":");
                    self.t("m");
                    match self.pick(r, &[1, 2]) {
                        0 => self.t("[[x]]"),
                        _ => self.args(r),
                    }
                    true
                }
            };
            call = k;
            if end == 1 && !call && self.left - r < 1 {
                assume(false);
            }
            if end == 2 && call && self.left - r < 2 {
                assume(false);
            }
        }
    }
    fn args(&mut self, r: i32) {
        self.t("(");
        if self.more(r + 1, 1) {
            self.exp(r + 1);
            while self.more(r + 1, 2) {
                self.t(",");
                self.exp(r + 1);
            }
        }
        self.t(")");
    }
    fn table(&mut self, r: i32) {
        self.t("{");
        if self.more(r + 1, 1) {
            loop {
                match self.pick(r + 1, &[1, 3, 5]) {
                    0 => self.exp(r + 1),
                    1 => {
                        self.t("k");
                        self.t("=");
                        self.exp(r + 1);
                    }
                    _ => {
                        self.t("[");
                        self.exp(r + 4);
                        self.t("]");
                        self.t("=");
                        self.exp(r + 1);
                    }
                }
                if !self.more(r + 1, 1) {
                    break;
                }
                let k = choice(2) as usize;
                self.t([",", ";"][k]);
                if !self.more(r + 1, 1) {
                    break;
                }
            }
        }
        self.t("}");
    }
    /// `( params ) block end`
    fn body(&mut self, r: i32) {
        self.t("(");
        match self.pick(r + 2, &[0, 1, 1]) {
            0 => {}
            1 => {
                self.t("p");
                while self.more(r + 2, 2) {
                    self.t(",");
                    let k = choice(2) as usize;
                    self.t(["q", "..."][k]);
                    if k == 1 {
                        break;
                    }
                }
            }
            _ => self.t("..."),
        }
        self.t(")");
        self.block(r + 1);
        self.t("end");
    }
    fn block(&mut self, r: i32) {
        while self.more(r, 1) {
            let k = self.pick(r, &COST);
            if k == RET {
                self.stat(k, r);
                return;
            }
            self.stat(k, r);
        }
    }
    fn names(&mut self, r: i32) {
        self.t("n");
        while self.more(r, 2) {
            self.t(",");
            self.t("o");
        }
    }
    fn exps(&mut self, r: i32) {
        self.exp(r);
        while self.more(r, 2) {
            self.t(",");
            self.exp(r);
        }
    }
    fn stat(&mut self, k: usize, r: i32) {
        match k {
            0 => self.t(";"),
            1 => self.t("break"),
            2 => {
                self.t("goto");
                self.t("n");
            }
            3 => {
                self.t("::");
                self.t("n");
                self.t("::");
            }
            4 => {
                self.t("do");
                self.block(r + 1);
                self.t("end");
            }
            5 => {
                self.t("while");
                self.exp(r + 2);
                self.t("do");
                self.block(r + 1);
                self.t("end");
            }
            6 => {
                self.t("repeat");
                self.block(r + 2);
                self.t("until");
                self.exp(r);
            }
            7 => {
                self.t("if");
                self.exp(r + 2);
                self.t("then");
                self.block(r + 1);
                while self.more(r + 1, 3) {
                    self.t("elseif");
                    self.exp(r + 2);
                    self.t("then");
                    self.block(r + 1);
                }
                if self.more(r + 1, 1) {
                    self.t("else");
                    self.block(r + 1);
                }
                self.t("end");
            }
            8 => {
                self.t("for");
                self.t("i");
                self.t("=");
                self.exp(r + 4);
                self.t(",");
                self.exp(r + 2);
                if self.more(r + 2, 2) {
                    self.t(",");
                    self.exp(r + 2);
                }
                self.t("do");
                self.block(r + 1);
                self.t("end");
            }
            9 => {
                self.t("for");
                self.names(r + 4);
                self.t("in");
                self.exps(r + 2);
                self.t("do");
                self.block(r + 1);
                self.t("end");
            }
            10 => {
                self.t("function");
                self.t("n");
                while self.more(r + 3, 2) {
                    self.t(".");
                    self.t("o");
                }
                if self.more(r + 3, 2) {
                    self.t(":");
                    self.t("o");
                }
                self.body(r);
            }
            11 => {
                self.t("local");
                self.t("function");
                self.t("n");
                self.body(r);
            }
            12 => {
                self.t("local");
                self.names(r);
                if self.more(r, 2) {
                    self.t("=");
                    self.exps(r);
                }
            }
            13 => {
                loop {
                    // a variable
                    if self.left - r - 2 >= 3 && boolean() {
                        self.prefix(r + 4);
                        self.suffixes(r + 2, true, 2);
                    } else {
                        self.t("v");
                    }
                    if !self.more(r + 2, 2) {
                        break;
                    }
                    self.t(",");
                }
                self.t("=");
                self.exps(r);
            }
            14 => {
                self.prefix(r + 1);
                self.suffixes(r, true, 1);
            }
            _ => {
                self.t("return");
                if self.more(r, 1) {
                    self.exps(r);
                }
                if self.more(r, 1) {
                    self.t(";");
                }
            }
        }
    }
}
const RET: usize = 15;
const COST: [i32; 16] = [1, 1, 2, 3, 2, 4, 3, 4, 8, 6, 5, 6, 2, 3, 2, 1];

fn accepted(g: G) {
    let src = text_of(g.out);
    let mut p = P::new(src.as_bytes(), ALL_NL, "");
    if p.chunk().is_none() {
        report("in", &src);
        fail("reference parser rejects");
    }
    if p.paren_stmt || p.minus_minus || p.hexfloat {
        return;
    }
    let o = fmt(&src, &default_cfg());
    let mut q = P::new(o.as_bytes(), ALL_NL, "");
    check(q.chunk().is_some(), "the output is not a valid program");
    let a = canon(src.as_bytes(), false, true);
    let b = canon(o.as_bytes(), false, true);
    check(a.code == b.code, "code tokens differ");
}
fn derive(extra: i32, ops: bool) {
    let j = job() as usize;
    let (k, sep) = (j % 16, (j / 16) as u8);
    let mut g = G { out: Vec::with_capacity(64), last: 0, left: COST[k] + extra, sep, ops };
    g.stat(k, 0);
    if k != RET {
        g.block(0);
    }
    accepted(g);
}
#[no_mangle]
pub extern "C" fn h_p12_jobs() -> u32 {
    48
}
/// every program whose first statement is of the job's kind, with up to three tokens more than its shortest form
#[no_mangle]
pub extern "C" fn h_p12() {
    derive(3, false);
}
#[no_mangle]
pub extern "C" fn h_p12_deep_jobs() -> u32 {
    16
}
#[no_mangle]
pub extern "C" fn h_p12_deep() {
    derive(5, false);
}
#[no_mangle]
pub extern "C" fn h_p12_ops_jobs() -> u32 {
    3
}
/// expressions of up to seven tokens with all classes of operators
#[no_mangle]
pub extern "C" fn h_p12_ops() {
    let mut g = G { out: Vec::with_capacity(64), last: 0, left: 7, sep: job() as u8, ops: true };
    g.t("x");
    g.t("=");
    g.exp(0);
    accepted(g);
}
/// tokens that a mutation puts into a program
const MUT: &[&str] = &[
    "x", "1", "'s'", "=", ",", ";", ":", "::", ".", "..", "...", "(", ")", "[", "]", "{", "}", "-", "not", "+", "==", "do", "end", "then", "if", "else", "elseif", "for", "in", "function", "local", "return", "break", "goto", "while", "repeat",
    "until", "nil", "#", "~", "$", "@", "'", "[=[",
];
/// the parser and the reference agree on whether the text is a program
fn verdict(v: Vec<u8>) {
    let src = text_of(v);
    report("in", &src);
    let mut p = P::new(src.as_bytes(), ALL_NL, "");
    p.relaxed = true;
    // known findings: `#!` is taken for a shebang line anywhere in front of the first statement, `#` without `!` is not one
    for t in tokens(src.as_bytes()) {
        if !is_comment(t.k) {
            let x = &src.as_bytes()[t.a..];
            if (t.a > 0 && x.starts_with(b"#!")) || (t.a == 0 && x[0] == b'#' && !x.starts_with(b"#!")) {
                return;
            }
            break;
        }
    }
    let valid = p.chunk().is_some();
    match luafmt::formatter::process_buffer_with_config(&src, &default_cfg(), false) {
        Ok(o) => {
            report("out", &o);
            check(valid, "an invalid program is accepted");
            let a = canon(src.as_bytes(), false, true);
            let b = canon(o.as_bytes(), false, true);
            check(a.code == b.code, "code tokens differ");
        }
        Err(_) => check(!valid || p.relaxed_used || p.paren_stmt || p.minus_minus || p.hexfloat, "a valid program is rejected"),
    }
}
#[no_mangle]
pub extern "C" fn h_p12_num_jobs() -> u32 {
    17
}
/// numerals of every form
#[no_mangle]
pub extern "C" fn h_p12_num() {
    let mut v = b"a = ".to_vec();
    v.extend_from_slice(&crate::p2::numeral());
    verdict(v);
}
#[no_mangle]
pub extern "C" fn h_p13_jobs() -> u32 {
    NT as u32
}
/// every template with one token left out, doubled, swapped, replaced or put in
#[no_mangle]
pub extern "C" fn h_p13() {
    let toks = split(TEMPLATES[job() as usize]);
    let n = toks.len();
    let i = choice(n as u8 + 1) as usize;
    let kind = choice(4);
    let m = if kind >= 2 { MUT[choice(MUT.len() as u8) as usize] } else { "" };
    let mut v: Vec<u8> = Vec::with_capacity(96);
    let mut put = |x: &str| {
        // (a file may start with a line `#...`)
        if x == "#" {
            v.push(b' ');
        }
        put_plain(x, &mut v);
        v.push(if x.starts_with("#!") { b'\n' } else { b' ' });
    };
    for k in 0..n {
        if k == i {
            match kind {
                0 => continue,
                1 => {
                    put(toks[k]);
                }
                2 => {
                    put(m);
                    continue;
                }
                _ => put(m),
            }
        }
        put(toks[k]);
    }
    if i == n && kind >= 2 {
        put(m);
    }
    verdict(v);
}
#[no_mangle]
pub extern "C" fn h_p13_two_jobs() -> u32 {
    NT as u32
}
/// every template with one token left out and another one replaced or put in
#[no_mangle]
pub extern "C" fn h_p13_two() {
    let toks = split(TEMPLATES[job() as usize]);
    let n = toks.len();
    if n == 0 {
        return;
    }
    let i = choice(n as u8) as usize;
    let k = choice(n as u8 + 1) as usize;
    let replace = boolean();
    let m = MUT[choice(MUT.len() as u8) as usize];
    let mut v: Vec<u8> = Vec::with_capacity(96);
    for x in 0..=n {
        if x == k {
            if m == "#" {
                v.push(b' ');
            }
            put_plain(m, &mut v);
            v.push(b' ');
            if replace {
                continue;
            }
        }
        if x < n && x != i {
            put_plain(toks[x], &mut v);
            v.push(if toks[x].starts_with("#!") { b'\n' } else { b' ' });
        }
    }
    verdict(v);
}
#[no_mangle]
pub extern "C" fn h_p13_lex_jobs() -> u32 {
    crate::p2::FRAMES.len() as u32
}
/// any three characters in a frame
#[no_mangle]
pub extern "C" fn h_p13_lex() {
    lex(3);
}
#[no_mangle]
pub extern "C" fn h_p13_lex4_jobs() -> u32 {
    crate::p2::FRAMES.len() as u32
}
#[no_mangle]
pub extern "C" fn h_p13_lex4() {
    lex(4);
}
#[no_mangle]
pub extern "C" fn h_p13_uni_jobs() -> u32 {
    crate::p2::FRAMES.len() as u32
}
/// any character (of one to four bytes), control characters included, alone or with a second one, in a frame
#[no_mangle]
pub extern "C" fn h_p13_uni() {
    let f = crate::p2::FRAMES[job() as usize];
    let mut v = f.0.as_bytes().to_vec();
    crate::p2::any_char(&mut v);
    if boolean() {
        crate::p2::any_char(&mut v);
    }
    v.extend_from_slice(f.1.as_bytes());
    verdict(v);
}
fn lex(n: usize) {
    let f = crate::p2::FRAMES[job() as usize];
    let mut v = f.0.as_bytes().to_vec();
    for _ in 0..n {
        let c = u8_();
        assume(((c >= 32) & (c < 127)) | ((c >= 9) & (c <= 13)));
        v.push(c);
    }
    v.extend_from_slice(f.1.as_bytes());
    verdict(v);
}
#[no_mangle]
pub extern "C" fn h_p13_known_jobs() -> u32 {
    5
}
/// known findings: invalid programs that are accepted
#[no_mangle]
pub extern "C" fn h_p13_known() {
    let src = String::from(["a.b", "f() = 1", "function f(..., a) end", "a = 1b = 2", "\n#!x"][job() as usize]);
    check(luafmt::formatter::process_buffer_with_config(&src, &default_cfg(), false).is_err(), "an invalid program is accepted");
}
#[no_mangle]
pub extern "C" fn h_p12_paren_jobs() -> u32 {
    2
}
/// known finding: a statement that starts with a parenthesis
#[no_mangle]
pub extern "C" fn h_p12_paren() {
    let src = String::from(["a = 1\n(f)()", "#x\na = 1"][job() as usize]);
    check(luafmt::formatter::process_buffer_with_config(&src, &default_cfg(), false).is_ok(), "a valid program is rejected");
}
