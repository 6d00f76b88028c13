//! Reference Lua tokenizer, written from the Lua reference manual, independent of the code under test.
//! Works on bytes; anything it does not understand becomes a one-byte token.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Name,
    Num,
    Str,
    Long(usize),
    Op,
    LineC,
    LongC(usize),
    SheBang,
    Bad,
}
#[derive(Clone, Copy, Debug)]
pub struct T {
    pub k: K,
    pub a: usize,
    pub b: usize,
}
fn name0(c: u8) -> bool {
    ((c | 32) >= b'a' && (c | 32) <= b'z') | (c == b'_')
}
fn digit(c: u8) -> bool {
    (c >= b'0') & (c <= b'9')
}
fn name1(c: u8) -> bool {
    name0(c) | digit(c)
}
fn hex(c: u8) -> bool {
    digit(c) | ((c | 32) >= b'a' && (c | 32) <= b'f')
}
pub fn is_ws(c: u8) -> bool {
    (c == b' ') | ((c >= 9) & (c <= 13))
}
fn at(s: &[u8], i: usize) -> u8 {
    if i < s.len() {
        s[i]
    } else {
        0
    }
}
/// `[==[` at i: Some((level, content start))
fn long_open(s: &[u8], i: usize) -> Option<(usize, usize)> {
    if at(s, i) != b'[' {
        return None;
    }
    let mut j = i + 1;
    while at(s, j) == b'=' {
        j += 1;
    }
    if at(s, j) == b'[' {
        Some((j - i - 1, j + 1))
    } else {
        None
    }
}
/// end (exclusive, after the closing bracket) of a long bracket whose content starts at i
fn long_close(s: &[u8], mut i: usize, level: usize) -> Option<usize> {
    while i < s.len() {
        if s[i] == b']' {
            let mut j = i + 1;
            while at(s, j) == b'=' {
                j += 1;
            }
            if j - i - 1 == level && at(s, j) == b']' {
                return Some(j + 1);
            }
            i = j;
        } else {
            i += 1;
        }
    }
    None
}
pub fn tokens(s: &[u8]) -> Vec<T> {
    let mut v: Vec<T> = Vec::with_capacity(16);
    let mut i = 0;
    if at(s, 0) == b'#' {
        let mut j = 0;
        while j < s.len() && s[j] != b'\n' {
            j += 1;
        }
        v.push(T { k: K::SheBang, a: 0, b: j });
        i = j;
    }
    while i < s.len() {
        let c = s[i];
        if is_ws(c) {
            i += 1;
            continue;
        }
        let a = i;
        let k;
        if name0(c) {
            while name1(at(s, i)) {
                i += 1;
            }
            k = K::Name;
        } else if digit(c) | ((c == b'.') && digit(at(s, i + 1))) {
            let hexn = c == b'0' && (at(s, i + 1) | 32) == b'x';
            if hexn {
                i += 2;
            }
            // a letter that cannot be part of a numeral ends it (Lua 5.3 also takes the other hexadecimal digits,
            // which makes a malformed numeral: known finding)
            loop {
                let d = at(s, i);
                let exp = if hexn { (d | 32) == b'p' } else { (d | 32) == b'e' };
                if exp {
                    i += 1;
                    if (at(s, i) == b'+') | (at(s, i) == b'-') {
                        i += 1;
                    }
                } else if (if hexn { hex(d) } else { digit(d) }) | (d == b'.') {
                    i += 1;
                } else {
                    break;
                }
            }
            k = K::Num;
        } else if (c == b'"') | (c == b'\'') {
            i += 1;
            let mut closed = false;
            loop {
                if i >= s.len() {
                    break;
                }
                let d = s[i];
                i += 1;
                if d == c {
                    closed = true;
                    break;
                }
                if d == b'\\' {
                    i += 1;
                }
            }
            if i > s.len() {
                i = s.len();
            }
            k = if closed { K::Str } else { K::Bad };
        } else if c == b'-' && at(s, i + 1) == b'-' {
            match long_open(s, i + 2) {
                Some((l, st)) => {
                    let e = long_close(s, st, l);
                    i = e.unwrap_or(s.len());
                    k = if e.is_some() { K::LongC(l) } else { K::Bad };
                }
                None => {
                    while i < s.len() && s[i] != b'\n' {
                        i += 1;
                    }
                    k = K::LineC;
                }
            }
        } else if c == b'[' && long_open(s, i).is_some() {
            let (l, st) = long_open(s, i).unwrap();
            let e = long_close(s, st, l);
            i = e.unwrap_or(s.len());
            k = if e.is_some() { K::Long(l) } else { K::Bad };
        } else {
            let d = at(s, i + 1);
            let n = if c == b'.' {
                if d == b'.' {
                    if at(s, i + 2) == b'.' {
                        3
                    } else {
                        2
                    }
                } else {
                    1
                }
            } else if ((c == b'=') | (c == b'<') | (c == b'>') | (c == b'~')) && d == b'=' {
                2
            } else if ((c == b'<') | (c == b'>') | (c == b'/') | (c == b':')) && d == c {
                2
            } else {
                1
            };
            i += n;
            k = if c < 128 { K::Op } else { K::Bad };
        }
        v.push(T { k, a, b: i });
    }
    v
}
pub fn is_comment(k: K) -> bool {
    matches!(k, K::LineC | K::LongC(_))
}

/// Value-preserving canonical form of a quoted string's raw body: `\'` and `\"` are unescaped, the
/// quotes are dropped.
fn canon_str(raw: &[u8], out: &mut Vec<u8>) {
    out.push(b'"');
    let mut i = 1;
    let e = raw.len() - 1;
    while i < e {
        if raw[i] == b'\\' && i + 1 < e {
            let n = raw[i + 1];
            if (n == b'\'') | (n == b'"') {
                out.push(n);
            } else {
                out.push(b'\\');
                out.push(n);
            }
            i += 2;
        } else {
            out.push(raw[i]);
            i += 1;
        }
    }
    out.push(b'"');
}

pub struct Canon {
    /// code tokens, each followed by a 0 byte; field separators normalised, trailing ones dropped
    pub code: Vec<u8>,
    /// comments: `level` byte, number of code tokens before it, text, 0
    pub comments: Vec<u8>,
    pub ncode: usize,
    pub ncomments: usize,
}
/// strs: compare quoted strings by value (quote style may differ); trim: ignore blanks around comment texts
pub fn canon(s: &[u8], strs: bool, trim: bool) -> Canon {
    let ts = tokens(s);
    let mut c = Canon { code: Vec::with_capacity(s.len() * 2), comments: vec![], ncode: 0, ncomments: 0 };
    let mut stack: Vec<u8> = vec![];
    let mut pending_sep = false;
    for t in &ts {
        let r = &s[t.a..t.b];
        match t.k {
            K::LineC => {
                let mut x = &r[2..];
                if trim {
                    while !x.is_empty() && is_ws(x[0]) {
                        x = &x[1..];
                    }
                }
                c.comments.push(255);
                c.comments.push(c.ncode as u8);
                c.comments.extend_from_slice(x);
                c.comments.push(0);
                c.ncomments += 1;
            }
            K::LongC(l) => {
                let lo = 4 + l;
                let hi = if r.len() >= lo + 2 + l { r.len() - 2 - l } else { r.len() };
                let mut x = &r[lo..hi];
                if trim {
                    while !x.is_empty() && is_ws(x[0]) {
                        x = &x[1..];
                    }
                    while !x.is_empty() && is_ws(x[x.len() - 1]) {
                        x = &x[..x.len() - 1];
                    }
                }
                c.comments.push(l as u8);
                c.comments.push(c.ncode as u8);
                c.comments.extend_from_slice(x);
                c.comments.push(0);
                c.ncomments += 1;
            }
            _ => {
                let in_table = stack.last() == Some(&b'{');
                if in_table && r.len() == 1 && ((r[0] == b',') | (r[0] == b';')) {
                    // `{1;;2}` is not Lua: keep doubled separators visible
                    if pending_sep {
                        c.code.extend_from_slice(b"SEP\0");
                    }
                    pending_sep = true;
                    continue;
                }
                let close = r.len() == 1 && r[0] == b'}';
                if pending_sep {
                    if !close {
                        c.code.extend_from_slice(b"SEP\0");
                    }
                    pending_sep = false;
                }
                if t.k == K::Name {
                    match r {
                        b"function" | b"do" | b"if" | b"repeat" => stack.push(b'B'),
                        b"end" | b"until" => {
                            stack.pop();
                        }
                        _ => {}
                    }
                } else if t.k == K::Op && r.len() == 1 {
                    match r[0] {
                        b'{' | b'(' | b'[' => stack.push(r[0]),
                        b'}' | b')' | b']' => {
                            stack.pop();
                        }
                        _ => {}
                    }
                }
                c.ncode += 1;
                if t.k == K::Str && strs && r.len() >= 2 {
                    canon_str(r, &mut c.code);
                } else {
                    c.code.extend_from_slice(r);
                }
                c.code.push(0);
            }
        }
    }
    c
}
