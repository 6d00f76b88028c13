//! Stand-in for `regex` in the symbolic build only: a small backtracking matcher for the subset of the
//! syntax used by the code under test (anchors, classes, groups, alternation, greedy/lazy quantifiers).
//! Replays of counterexamples and samples run against the real `regex`.
use std::fmt;
use std::ops::Index;

#[derive(Clone, Debug)]
enum N {
    Char(char),
    Any,
    Set(bool, Vec<(char, char)>),
    Start,
    End,
    Group(Option<usize>, Vec<Vec<Q>>),
}
#[derive(Clone, Debug)]
struct Q {
    n: N,
    min: usize,
    max: usize,
    lazy: bool,
}
#[derive(Clone, Debug)]
pub struct Regex {
    src: String,
    alts: Vec<Vec<Q>>,
    ngroups: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    Syntax(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Syntax(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Error {}

struct P {
    c: Vec<char>,
    i: usize,
    groups: usize,
}
impl P {
    fn err<T>(&self, m: &str) -> Result<T, Error> {
        Err(Error::Syntax(m.to_string()))
    }
    fn alts(&mut self) -> Result<Vec<Vec<Q>>, Error> {
        let mut out = vec![];
        let mut cur = vec![];
        while self.i < self.c.len() {
            match self.c[self.i] {
                ')' => break,
                '|' => {
                    self.i += 1;
                    out.push(std::mem::replace(&mut cur, vec![]));
                }
                _ => {
                    let q = self.atom()?;
                    cur.push(q);
                }
            }
        }
        out.push(cur);
        Ok(out)
    }
    fn class_escape(&self, c: char) -> Option<N> {
        match c {
            'd' => Some(N::Set(false, vec![('0', '9')])),
            'D' => Some(N::Set(true, vec![('0', '9')])),
            'w' => Some(N::Set(false, vec![('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')])),
            'W' => Some(N::Set(true, vec![('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')])),
            's' => Some(N::Set(false, vec![(' ', ' '), ('\t', '\r')])),
            'S' => Some(N::Set(true, vec![(' ', ' '), ('\t', '\r')])),
            _ => None,
        }
    }
    fn esc(&self, c: char) -> char {
        match c {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            c => c,
        }
    }
    fn atom(&mut self) -> Result<Q, Error> {
        let ch = self.c[self.i];
        self.i += 1;
        let n = match ch {
            '^' => N::Start,
            '$' => N::End,
            '.' => N::Any,
            '(' => {
                let mut g = None;
                if self.i + 1 < self.c.len() && self.c[self.i] == '?' {
                    if self.c[self.i + 1] == ':' {
                        self.i += 2;
                    } else {
                        return self.err("group flags");
                    }
                } else {
                    self.groups += 1;
                    g = Some(self.groups);
                }
                let a = self.alts()?;
                if self.i >= self.c.len() {
                    return self.err("unclosed group");
                }
                self.i += 1;
                N::Group(g, a)
            }
            '[' => {
                let mut neg = false;
                if self.i < self.c.len() && self.c[self.i] == '^' {
                    neg = true;
                    self.i += 1;
                }
                let mut v = vec![];
                let mut first = true;
                loop {
                    if self.i >= self.c.len() {
                        return self.err("unclosed class");
                    }
                    let mut c = self.c[self.i];
                    self.i += 1;
                    if c == ']' && !first {
                        break;
                    }
                    first = false;
                    if c == '\\' {
                        let e = self.c[self.i];
                        self.i += 1;
                        if let Some(N::Set(false, s)) = self.class_escape(e) {
                            v.extend(s);
                            continue;
                        }
                        c = self.esc(e);
                    }
                    if self.i + 1 < self.c.len() && self.c[self.i] == '-' && self.c[self.i + 1] != ']' {
                        let mut e = self.c[self.i + 1];
                        self.i += 2;
                        if e == '\\' {
                            e = self.esc(self.c[self.i]);
                            self.i += 1;
                        }
                        v.push((c, e));
                    } else {
                        v.push((c, c));
                    }
                }
                N::Set(neg, v)
            }
            '\\' => {
                if self.i >= self.c.len() {
                    return self.err("trailing backslash");
                }
                let e = self.c[self.i];
                self.i += 1;
                match self.class_escape(e) {
                    Some(n) => n,
                    None => N::Char(self.esc(e)),
                }
            }
            '*' | '+' | '?' => return self.err("dangling quantifier"),
            c => N::Char(c),
        };
        let (mut min, mut max, mut lazy) = (1, 1, false);
        if self.i < self.c.len() {
            let mut q = true;
            match self.c[self.i] {
                '*' => {
                    min = 0;
                    max = usize::MAX;
                    self.i += 1;
                }
                '+' => {
                    max = usize::MAX;
                    self.i += 1;
                }
                '?' => {
                    min = 0;
                    self.i += 1;
                }
                '{' => {
                    self.i += 1;
                    let mut nums = vec![String::new()];
                    while self.i < self.c.len() && self.c[self.i] != '}' {
                        if self.c[self.i] == ',' {
                            nums.push(String::new());
                        } else {
                            nums.last_mut().unwrap().push(self.c[self.i]);
                        }
                        self.i += 1;
                    }
                    self.i += 1;
                    min = nums[0].parse().map_err(|_| Error::Syntax("repeat".into()))?;
                    max = match nums.get(1) {
                        None => min,
                        Some(s) if s.is_empty() => usize::MAX,
                        Some(s) => s.parse().map_err(|_| Error::Syntax("repeat".into()))?,
                    };
                }
                _ => q = false,
            }
            if q && self.i < self.c.len() && self.c[self.i] == '?' {
                lazy = true;
                self.i += 1;
            }
        }
        Ok(Q { n, min, max, lazy })
    }
}

type Caps = Vec<Option<(usize, usize)>>;

fn step(n: &N, s: &str, i: usize) -> Option<usize> {
    let c = s[i..].chars().next()?;
    let ok = match n {
        N::Char(k) => c == *k,
        N::Any => c != '\n',
        N::Set(neg, v) => {
            let mut hit = false;
            for (a, b) in v {
                hit = hit | ((*a <= c) & (c <= *b));
            }
            hit != *neg
        }
        _ => false,
    };
    if ok {
        Some(i + c.len_utf8())
    } else {
        None
    }
}
fn m(qs: &[Q], s: &str, i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match qs.split_first() {
        None => k(i, caps),
        Some((q, rest)) => rep(q, 0, rest, s, i, caps, k),
    }
}
fn one(q: &Q, s: &str, i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match &q.n {
        N::Start => i == 0 && k(i, caps),
        N::End => i == s.len() && k(i, caps),
        N::Group(g, alts) => {
            for a in alts {
                let save = caps.clone();
                let ok = m(a, s, i, caps, &mut |j, c| {
                    let old = g.map(|g| c[g]);
                    if let Some(g) = g {
                        c[*g] = Some((i, j));
                    }
                    if k(j, c) {
                        return true;
                    }
                    if let (Some(g), Some(o)) = (g, old) {
                        c[*g] = o;
                    }
                    false
                });
                if ok {
                    return true;
                }
                *caps = save;
            }
            false
        }
        n => match step(n, s, i) {
            Some(j) => k(j, caps),
            None => false,
        },
    }
}
fn rep(q: &Q, done: usize, rest: &[Q], s: &str, i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    if q.lazy && done >= q.min && m(rest, s, i, caps, k) {
        return true;
    }
    if done < q.max {
        let ok = one(q, s, i, caps, &mut |j, c| if j == i && done >= q.min { false } else { rep(q, done + 1, rest, s, j, c, k) });
        if ok {
            return true;
        }
    }
    !q.lazy && done >= q.min && m(rest, s, i, caps, k)
}

impl Regex {
    pub fn new(re: &str) -> Result<Regex, Error> {
        let mut p = P { c: re.chars().collect(), i: 0, groups: 0 };
        let alts = p.alts()?;
        if p.i < p.c.len() {
            return p.err("unopened group");
        }
        Ok(Regex { src: re.to_string(), alts, ngroups: p.groups })
    }
    pub fn as_str(&self) -> &str {
        &self.src
    }
    fn at(&self, s: &str, start: usize) -> Option<Caps> {
        let mut i = start;
        loop {
            for a in &self.alts {
                let mut caps: Caps = vec![None; self.ngroups + 1];
                let mut end = None;
                if m(a, s, i, &mut caps, &mut |j, c| {
                    end = Some((j, c.clone()));
                    true
                }) {
                    let (j, mut c) = end.unwrap();
                    c[0] = Some((i, j));
                    return Some(c);
                }
            }
            // an anchored pattern can only match at the start
            if self.alts.iter().all(|a| matches!(a.first(), Some(Q { n: N::Start, min: 1, .. }))) {
                return None;
            }
            if i >= s.len() {
                return None;
            }
            i += s[i..].chars().next().unwrap().len_utf8();
        }
    }
    pub fn captures<'t>(&self, s: &'t str) -> Option<Captures<'t>> {
        self.at(s, 0).map(|c| Captures { s, c })
    }
    pub fn is_match(&self, s: &str) -> bool {
        self.at(s, 0).is_some()
    }
    pub fn find<'t>(&self, s: &'t str) -> Option<Match<'t>> {
        self.at(s, 0).map(|c| Match { s, r: c[0].unwrap() })
    }
    pub fn captures_iter<'r, 't>(&'r self, s: &'t str) -> CaptureMatches<'r, 't> {
        CaptureMatches { r: self, s, pos: Some(0) }
    }
    pub fn find_iter<'r, 't>(&'r self, s: &'t str) -> impl Iterator<Item = Match<'t>> + 'r
    where
        't: 'r,
    {
        self.captures_iter(s).map(|c| c.get(0).unwrap())
    }
}
pub struct CaptureMatches<'r, 't> {
    r: &'r Regex,
    s: &'t str,
    pos: Option<usize>,
}
impl<'r, 't> Iterator for CaptureMatches<'r, 't> {
    type Item = Captures<'t>;
    fn next(&mut self) -> Option<Captures<'t>> {
        let p = self.pos?;
        match self.r.at(self.s, p) {
            None => {
                self.pos = None;
                None
            }
            Some(c) => {
                let (a, b) = c[0].unwrap();
                self.pos = if b > a {
                    Some(b)
                } else if b < self.s.len() {
                    Some(b + self.s[b..].chars().next().unwrap().len_utf8())
                } else {
                    None
                };
                Some(Captures { s: self.s, c })
            }
        }
    }
}
pub struct Captures<'t> {
    s: &'t str,
    c: Caps,
}
impl<'t> Captures<'t> {
    pub fn get(&self, i: usize) -> Option<Match<'t>> {
        let r = *self.c.get(i)?;
        r.map(|r| Match { s: self.s, r })
    }
    pub fn len(&self) -> usize {
        self.c.len()
    }
}
impl<'t> Index<usize> for Captures<'t> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        let (a, b) = self.c[i].expect("no group");
        &self.s[a..b]
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Match<'t> {
    s: &'t str,
    r: (usize, usize),
}
impl<'t> Match<'t> {
    pub fn as_str(&self) -> &'t str {
        &self.s[self.r.0..self.r.1]
    }
    pub fn start(&self) -> usize {
        self.r.0
    }
    pub fn end(&self) -> usize {
        self.r.1
    }
}

/// Only named by lalrpop-util's generic lexer (luafmt brings its own lexers): enough to compile.
#[derive(Clone, Debug)]
pub struct RegexSet {
    v: Vec<Regex>,
}
pub struct SetMatches {
    v: Vec<usize>,
}
impl SetMatches {
    pub fn matched_any(&self) -> bool {
        !self.v.is_empty()
    }
    pub fn matched(&self, i: usize) -> bool {
        self.v.contains(&i)
    }
    pub fn iter(&self) -> std::iter::Cloned<std::slice::Iter<'_, usize>> {
        self.v.iter().cloned()
    }
}
impl IntoIterator for SetMatches {
    type Item = usize;
    type IntoIter = std::vec::IntoIter<usize>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl RegexSet {
    pub fn new<I, S>(exprs: I) -> Result<RegexSet, Error>
    where
        S: AsRef<str>,
        I: IntoIterator<Item = S>,
    {
        let mut v = vec![];
        for e in exprs {
            v.push(Regex::new(e.as_ref())?);
        }
        Ok(RegexSet { v })
    }
    pub fn matches(&self, t: &str) -> SetMatches {
        let mut v = vec![];
        for (i, r) in self.v.iter().enumerate() {
            if r.is_match(t) {
                v.push(i);
            }
        }
        SetMatches { v }
    }
    pub fn is_match(&self, t: &str) -> bool {
        self.matches(t).matched_any()
    }
}
