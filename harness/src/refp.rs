//! Reference parser for Lua 5.3, written from the manual (recursive descent over the reference tokens), which
//! also lays the program out: one statement per line, blocks indented, canonical blanks between tokens.
use crate::tok::*;

pub struct P<'a> {
    s: &'a [u8],
    t: Vec<T>,
    i: usize,
    pub out: Vec<u8>,
    depth: usize,
    pub indent: &'a str,
    /// layout style
    pub st: Style,
    /// a statement starts with `(` directly after a statement that may end with an expression (known finding)
    pub paren_stmt: bool,
    /// `- -` (known finding)
    pub minus_minus: bool,
    /// hexadecimal float (known finding)
    pub hexfloat: bool,
    /// accept a variable for a call and the reverse, and `...` in any place of a parameter list (known findings)
    pub relaxed: bool,
    pub relaxed_used: bool,
    /// separator written between table fields
    pub sep: &'a str,
    /// byte ranges of the top-level statements
    pub spans: Vec<(usize, usize)>,
    /// line breaks: position in `out` behind the break, place (see `wrap`); without indentation, the break in front
    /// of a table that the line starts with takes over
    brks: Vec<(usize, usize, bool)>,
    /// indented ranges: first and last place, operator (nested ranges of the same operator are indented once)
    wraps: Vec<(usize, usize, &'a [u8])>,
    /// tables, if statements, function bodies and statements
    pub nodes: Vec<Nd>,
    /// things seen that are never written on one line / only inside a table
    multi: usize,
    multi_tab: usize,
    /// enclosing tables and functions
    level: usize,
    /// where the tokens are in `out` (before the indentation is written); a token that is left out: nothing, in
    /// the place where it would be
    pub pos: Vec<(usize, usize)>,
    /// leave the indentation out
    pub keep: bool,
    /// (follow) lists and chains on several lines without a line break of their own: how many, and which of them
    /// are indented nevertheless
    pub unbroken: u32,
    pub extra: u32,
}
/// what is between two tokens: the text, the blanks or the line break of the layout with the depth of indentation
pub struct Gap {
    pub src: (usize, usize),
    pub out: (usize, usize),
    pub nl: bool,
    pub depth: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum NK {
    Table,
    If,
    Func,
    Stat,
    /// a binary operator with its right operand
    Op,
    /// a later item of an expression list, not a table
    Item,
    /// `.x`, or `:m` with as much of its arguments as has to stay with it
    Suffix,
}
/// a construct that may be written on one line or on several
#[derive(Clone, Copy)]
pub struct Nd {
    pub k: NK,
    /// bytes in the text
    pub a: usize,
    pub b: usize,
    /// bytes in the layout of the reference
    pub c: usize,
    pub d: usize,
    /// nothing in it demands several lines
    pub one: bool,
    pub level: usize,
    /// a table of one positional field
    pub single: bool,
}
#[derive(Clone, Copy)]
pub struct Style {
    pub nl_stmt: bool,
    pub nl_do: bool,
    pub nl_for: bool,
    pub nl_fn: bool,
    pub nl_if: bool,
    pub nl_rep: bool,
    pub nl_while: bool,
    pub hint_table: bool,
    /// line break in front of (1) or behind (2) binary operators
    pub nl_op: u8,
    /// line break in front of later items / the first item of an expression list
    pub nl_item: bool,
    pub nl_item1: bool,
    /// line break in front of `.x` and `:m`
    pub nl_suf: bool,
    /// line break in front of table fields / a closing brace / an opening brace
    pub nl_field: bool,
    pub nl_close: bool,
    pub nl_open: bool,
    /// line break in front of later tables in an expression list
    pub nl_tab: bool,
    /// indentation of expression lists / suffixes that are on several lines, or in any case
    pub ind_list: bool,
    pub ind_list1: bool,
    pub ind_suf: bool,
    pub ind_suf1: bool,
    /// line breaks where the text has them, if one may be there (and trailing separators as they are)
    pub follow: bool,
}
pub const NO_NL: Style = Style {
    nl_stmt: false,
    nl_do: false,
    nl_for: false,
    nl_fn: false,
    nl_if: false,
    nl_rep: false,
    nl_while: false,
    hint_table: true,
    nl_op: 0,
    nl_item: false,
    nl_item1: false,
    nl_suf: false,
    nl_field: false,
    nl_close: false,
    nl_open: false,
    nl_tab: false,
    ind_list: false,
    ind_list1: false,
    ind_suf: false,
    ind_suf1: false,
    follow: false,
};
pub const ALL_NL: Style =
    Style { nl_stmt: true, nl_do: true, nl_for: true, nl_fn: true, nl_if: true, nl_rep: true, nl_while: true, ..NO_NL };

type R = Option<()>;
const KW: &[&[u8]] = &[
    b"and", b"break", b"do", b"else", b"elseif", b"end", b"false", b"for", b"function", b"goto", b"if", b"in", b"local", b"nil",
    b"not", b"or", b"repeat", b"return", b"then", b"true", b"until", b"while",
];
pub fn is_kw(x: &[u8]) -> bool {
    KW.iter().any(|k| *k == x)
}
impl<'a> P<'a> {
    pub fn new(s: &'a [u8], st: Style, indent: &'a str) -> P<'a> {
        let t: Vec<T> = tokens(s).into_iter().filter(|t| !matches!(t.k, K::LineC | K::LongC(_))).collect();
        P { s, t, i: 0, out: Vec::with_capacity(s.len() * 2 + 16), depth: 0, indent, st, paren_stmt: false, minus_minus: false, hexfloat: false, relaxed: false, relaxed_used: false, sep: ",", spans: vec![], brks: vec![], wraps: vec![], nodes: vec![], multi: 0, multi_tab: 0, level: 0, pos: vec![], keep: false, unbroken: 0, extra: 0 }
    }
    fn cur(&self) -> &'a [u8] {
        if self.i < self.t.len() {
            let t = self.t[self.i];
            &self.s[t.a..t.b]
        } else {
            b""
        }
    }
    fn kind(&self) -> K {
        if self.i < self.t.len() {
            self.t[self.i].k
        } else {
            K::Bad
        }
    }
    fn is(&self, x: &str) -> bool {
        self.cur() == x.as_bytes() && matches!(self.kind(), K::Name | K::Op)
    }
    fn w(&mut self, x: &str) {
        self.out.extend_from_slice(x.as_bytes());
    }
    /// copy the current token
    fn take(&mut self) {
        let c = self.cur();
        if c.contains(&b'\n') {
            self.multi += 1;
        }
        let a = self.out.len();
        self.out.extend_from_slice(c);
        self.pos.push((a, self.out.len()));
        self.i += 1;
    }
    fn expect(&mut self, x: &str) -> R {
        if self.is(x) {
            self.take();
            Some(())
        } else {
            None
        }
    }
    fn name(&mut self) -> R {
        if self.kind() == K::Name && !is_kw(self.cur()) {
            self.take();
            Some(())
        } else {
            None
        }
    }
    /// line break, or a blank
    fn brk(&mut self, nl: bool) {
        if self.may(nl) {
            self.newline(2 * self.i);
        } else {
            self.w(" ");
        }
    }
    /// is there a line break in front of the current token?
    fn may(&self, nl: bool) -> bool {
        if !self.st.follow {
            return nl;
        }
        let (i, n) = (self.i, self.t.len());
        let a = if i > 0 { self.t[i - 1].b } else { 0 };
        let b = if i < n { self.t[i].a } else { self.s.len() };
        self.s[a..b].contains(&b'\n')
    }
    fn extra(&mut self, start: usize) -> bool {
        if !self.st.follow || self.i <= start || !self.s[self.t[start].a..self.t[self.i - 1].b].contains(&b'\n') {
            return false;
        }
        self.unbroken += 1;
        self.unbroken <= 6 && (self.extra >> (self.unbroken - 1)) & 1 == 1
    }
    fn newline(&mut self, place: usize) {
        if self.out.last() == Some(&b' ') {
            self.out.pop();
        }
        self.w("\n");
        self.brks.push((self.out.len(), place, false));
    }
    /// the tokens from `a` to the last one are indented, with the line break in front of them if there is one
    fn wrap(&mut self, a: usize) {
        if self.i > a {
            self.wraps.push((2 * a, 2 * self.i - 1, b""));
        }
    }
    /// the ranges that count (nested ranges of the same operator are indented once)
    fn counted(&self) -> Vec<bool> {
        let w = &self.wraps;
        (0..w.len())
            .map(|i| {
                if w[i].2.is_empty() {
                    return true;
                }
                // the range directly around it
                let mut par: Option<usize> = None;
                for j in 0..w.len() {
                    let around = w[j].0 <= w[i].0 && w[j].1 >= w[i].1 && (w[j].1 - w[j].0 > w[i].1 - w[i].0 || j > i);
                    if j != i && around {
                        par = match par {
                            Some(p) if w[p].1 - w[p].0 <= w[j].1 - w[j].0 => Some(p),
                            _ => Some(j),
                        };
                    }
                }
                match par {
                    Some(p) => w[p].2 != w[i].2,
                    None => true,
                }
            })
            .collect()
    }
    fn depth_at(&self, counted: &[bool], place: usize, table: bool) -> usize {
        let w = &self.wraps;
        let depth = |place: usize| (0..w.len()).filter(|&i| counted[i] && w[i].0 <= place && place <= w[i].1).count();
        let d = depth(place);
        if d == 0 && table {
            return depth(place + 1);
        }
        d
    }
    /// write the indentation
    fn render(&mut self) {
        if self.brks.is_empty() || self.keep {
            return;
        }
        let counted = self.counted();
        let mut o = Vec::with_capacity(self.out.len() * 2);
        let mut at = 0;
        for &(pos, place, table) in &self.brks {
            o.extend_from_slice(&self.out[at..pos]);
            at = pos;
            for _ in 0..self.depth_at(&counted, place, table) {
                o.extend_from_slice(self.indent.as_bytes());
            }
        }
        o.extend_from_slice(&self.out[at..]);
        self.out = o;
    }
    /// the gaps between the tokens (`keep` must be set)
    pub fn gaps(&self) -> Vec<Gap> {
        let counted = self.counted();
        let n = self.t.len();
        let mut v = Vec::with_capacity(n + 1);
        for i in 0..=n {
            let src = (if i > 0 { self.t[i - 1].b } else { 0 }, if i < n { self.t[i].a } else { self.s.len() });
            let out = (if i > 0 { self.pos[i - 1].1 } else { 0 }, if i < n { self.pos[i].0 } else { self.out.len() });
            let nl = self.out[out.0..out.1].contains(&b'\n');
            let (mut place, mut table) = (2 * i, false);
            for b in &self.brks {
                if out.0 < b.0 && b.0 <= out.1 {
                    place = b.1;
                    table = b.2;
                }
            }
            v.push(Gap { src, out, nl, depth: self.depth_at(&counted, place, table) });
        }
        v
    }
    pub fn chunk(&mut self) -> R {
        if self.kind() == K::SheBang {
            self.take();
            self.w("\n");
        }
        self.block()?;
        if self.i == self.t.len() {
            self.render();
            Some(())
        } else {
            None
        }
    }
    fn block_end(&self) -> bool {
        self.i >= self.t.len() || (self.kind() == K::Name && matches!(self.cur(), b"end" | b"else" | b"elseif" | b"until"))
    }
    /// `{ stat } [return]` up to a block end
    fn block(&mut self) -> R {
        let mut first = true;
        // may the previous statement end with an expression?
        let mut open = false;
        loop {
            if self.block_end() {
                return Some(());
            }
            if !first {
                // (a semicolon in front of a parenthesis belongs to the statement after it)
                let nxt = self.i + 1;
                let paren = nxt < self.t.len() && self.t[nxt].k == K::Op && self.s[self.t[nxt].a] == b'(';
                if self.is(";") && !self.st.nl_stmt && !paren {
                } else {
                    let nl = self.st.nl_stmt;
                    self.brk(nl);
                }
            }
            if !first {
                self.multi += 1;
            }
            let begin = self.i;
            let m = (self.multi, self.multi_tab);
            let c = self.out.len();
            if self.is("return") {
                self.take();
                if !self.is(";") && !self.block_end() {
                    self.w(" ");
                    let list = self.i;
                    self.explist()?;
                    // (comments in front of the semicolon belong to the list)
                    if self.is(";") {
                        if let Some(w) = self.wraps.last_mut() {
                            if w.0 == 2 * list && w.1 == 2 * self.i - 1 && w.2.is_empty() {
                                w.1 += 1;
                            }
                        }
                    }
                }
                if self.is(";") {
                    self.take();
                }
                self.node(NK::Stat, begin, c, m, false);
                self.span(begin);
                return if self.block_end() { Some(()) } else { None };
            }
            if open && self.is("(") {
                self.paren_stmt = true;
            }
            let isif = self.is("if");
            open = self.stat()?;
            self.node(if isif { NK::If } else { NK::Stat }, begin, c, m, false);
            self.span(begin);
            first = false;
        }
    }
    fn node(&mut self, k: NK, begin: usize, c: usize, m: (usize, usize), single: bool) {
        if self.i > begin {
            let one = self.multi == m.0 && (k == NK::Table || self.multi_tab == m.1);
            let (a, b, d) = (self.t[begin].a, self.t[self.i - 1].b, self.out.len());
            let level = self.level;
            self.nodes.push(Nd { k, a, b, c, d, one, level, single });
        }
    }
    fn span(&mut self, begin: usize) {
        if self.depth == 0 && self.i > begin {
            self.spans.push((self.t[begin].a, self.t[self.i - 1].b));
        }
    }
    /// an indented block between two keywords; an empty one leaves a single break
    fn body(&mut self, nl: bool) -> R {
        if self.block_end() {
            self.brk(nl);
            return Some(());
        }
        let begin = self.i;
        self.depth += 1;
        self.brk(nl);
        self.block()?;
        self.depth -= 1;
        self.wrap(begin);
        self.brk(nl);
        Some(())
    }
    fn stat(&mut self) -> Option<bool> {
        let st = self.st;
        if self.is(";") || self.is("break") {
            self.take();
            return Some(false);
        }
        if self.is("::") {
            self.take();
            self.name()?;
            self.expect("::")?;
            return Some(false);
        }
        if self.kind() == K::Name {
            match self.cur() {
                b"goto" => {
                    self.take();
                    self.w(" ");
                    self.name()?;
                    return Some(false);
                }
                b"do" => {
                    self.multi += 1;
                    self.take();
                    // an empty `do end` stays on its line
                    if self.is("end") {
                        self.w(" ");
                    } else {
                        self.body(st.nl_do)?;
                    }
                    self.expect("end")?;
                    return Some(false);
                }
                b"while" => {
                    self.multi += 1;
                    self.take();
                    self.w(" ");
                    self.exp(0)?;
                    self.w(" ");
                    self.expect("do")?;
                    self.body(st.nl_while)?;
                    self.expect("end")?;
                    return Some(false);
                }
                b"repeat" => {
                    self.multi += 1;
                    self.take();
                    self.body(st.nl_rep)?;
                    self.expect("until")?;
                    self.w(" ");
                    self.exp(0)?;
                    return Some(true);
                }
                b"if" => {
                    self.take();
                    self.w(" ");
                    self.exp(0)?;
                    self.w(" ");
                    self.expect("then")?;
                    // (pinned by the project's tests) an empty branch directly before `else` stays on its line
                    let e = self.is("else");
                    self.body(st.nl_if && !e)?;
                    while self.is("elseif") {
                        self.take();
                        self.w(" ");
                        self.exp(0)?;
                        self.w(" ");
                        self.expect("then")?;
                        self.body(st.nl_if)?;
                    }
                    if self.is("else") {
                        self.take();
                        self.body(st.nl_if)?;
                    }
                    self.expect("end")?;
                    return Some(false);
                }
                b"for" => {
                    self.multi += 1;
                    self.take();
                    self.w(" ");
                    self.name()?;
                    // an empty body breaks the line, except (pinned by the project's tests) after `for n = a, b`
                    let mut empty_break = st.nl_for;
                    if self.is("=") {
                        self.w(" ");
                        self.take();
                        self.w(" ");
                        self.exp(0)?;
                        self.expect(",")?;
                        self.w(" ");
                        self.exp(0)?;
                        if self.is(",") {
                            self.take();
                            self.w(" ");
                            self.exp(0)?;
                        } else {
                            empty_break = false;
                        }
                    } else {
                        while self.is(",") {
                            self.take();
                            self.w(" ");
                            self.name()?;
                        }
                        self.w(" ");
                        self.expect("in")?;
                        self.w(" ");
                        self.explist()?;
                    }
                    self.w(" ");
                    self.expect("do")?;
                    if self.block_end() {
                        self.brk(empty_break);
                    } else {
                        self.body(st.nl_for)?;
                    }
                    self.expect("end")?;
                    return Some(false);
                }
                b"function" => {
                    self.take();
                    self.w(" ");
                    self.name()?;
                    while self.is(".") {
                        self.take();
                        self.name()?;
                    }
                    if self.is(":") {
                        self.take();
                        self.name()?;
                    }
                    self.funcbody()?;
                    return Some(false);
                }
                b"local" => {
                    self.take();
                    self.w(" ");
                    if self.is("function") {
                        self.take();
                        self.w(" ");
                        self.name()?;
                        self.funcbody()?;
                        return Some(false);
                    }
                    self.name()?;
                    while self.is(",") {
                        self.take();
                        self.w(" ");
                        self.name()?;
                    }
                    if self.is("=") {
                        self.w(" ");
                        self.take();
                        self.w(" ");
                        self.explist()?;
                        return Some(true);
                    }
                    return Some(false);
                }
                _ => {}
            }
        }
        // assignment or call
        let begin = self.i;
        let mut last = self.suffixed()?;
        if last == Suf::Call && !self.is("=") && !self.is(",") {
            return Some(true);
        }
        if self.relaxed && self.i > begin + 1 && !self.is("=") && !self.is(",") {
            self.relaxed_used = true;
            return Some(true);
        }
        loop {
            if self.relaxed && last == Suf::Call {
                self.relaxed_used = true;
                last = Suf::Var;
            }
            if !matches!(last, Suf::Var) {
                return None;
            }
            if self.is(",") {
                self.take();
                self.w(" ");
                last = self.suffixed()?;
                continue;
            }
            if !self.is("=") {
                return None;
            }
            self.w(" ");
            self.take();
            self.w(" ");
            self.explist()?;
            return Some(true);
        }
    }
    fn funcbody(&mut self) -> R {
        let (begin, c, m) = (self.i, self.out.len(), (self.multi, self.multi_tab));
        self.expect("(")?;
        let params = self.i;
        if !self.is(")") {
            loop {
                if self.is("...") {
                    self.take();
                    if !self.relaxed || !self.is(",") {
                        break;
                    }
                    self.relaxed_used = true;
                } else {
                    self.name()?;
                }
                if self.is(",") {
                    self.take();
                    self.w(" ");
                } else {
                    break;
                }
            }
        }
        // (comments between the parameters)
        if self.i > params {
            self.wraps.push((2 * params, 2 * self.i, b""));
        }
        self.expect(")")?;
        let nl = self.st.nl_fn;
        let empty = self.block_end();
        if !empty {
            self.level += 1;
        }
        self.body(nl)?;
        if !empty {
            self.level -= 1;
        }
        self.expect("end")?;
        self.node(NK::Func, begin, c, m, false);
        // a function outside of others is never put on one line
        if self.level == 0 {
            self.multi += 1;
        }
        Some(())
    }
    fn explist(&mut self) -> R {
        let st = self.st;
        let start = self.i;
        let mut lines = false;
        if self.may(st.nl_item1) {
            self.brk(true);
            lines = true;
        }
        self.exp(0)?;
        while self.is(",") {
            self.take();
            let tab = self.is("{") && !self.empty_table();
            let nl = if tab && st.nl_tab && (st.nl_item || st.nl_item1) { true } else { st.nl_item };
            let nl = self.may(nl);
            lines |= nl;
            self.brk(nl);
            let (begin, c, m) = (self.i, self.out.len(), (self.multi, self.multi_tab));
            let tab = self.is("{");
            self.exp(0)?;
            if tab {
                self.multi_tab += 1;
            } else {
                self.node(NK::Item, begin, c, m, false);
            }
        }
        if st.ind_list && (st.ind_list1 || lines || self.extra(start)) {
            self.wrap(start);
        }
        Some(())
    }
    /// `{ }`
    fn empty_table(&self) -> bool {
        self.is("{") && self.i + 1 < self.t.len() && self.s[self.t[self.i + 1].a] == b'}'
    }
    /// suffixedexp
    fn suffixed(&mut self) -> Option<Suf> {
        let mut k;
        let st = self.st;
        let mut lines = false;
        let mut first = true;
        if self.is("(") {
            self.take();
            self.exp(0)?;
            self.expect(")")?;
            k = Suf::Paren;
        } else {
            self.name()?;
            k = Suf::Var;
        }
        let start = self.i;
        loop {
            if (self.is(".") || self.is(":")) && self.may(st.nl_suf) {
                self.brk(true);
                lines = true;
            }
            let (begin, c, m) = (self.i, self.out.len(), (self.multi, self.multi_tab));
            if self.is(".") {
                self.take();
                self.name()?;
                self.node(NK::Suffix, begin, c, m, false);
                k = Suf::Var;
            } else if self.is("[") {
                self.take();
                self.index_exp()?;
                self.expect("]")?;
                k = Suf::Var;
            } else if self.is(":") {
                self.take();
                self.name()?;
                // the argument follows without a blank
                let nx = self.i + 1;
                let name_only = self.is("{") || (self.is("(") && nx < self.t.len() && &self.s[self.t[nx].a..self.t[nx].b] == b")");
                if name_only {
                    self.node(NK::Suffix, begin, c, m, false);
                }
                self.args(false)?;
                if !name_only {
                    self.node(NK::Suffix, begin, c, m, false);
                }
                k = Suf::Call;
            } else if self.is("(") || self.is("{") || matches!(self.kind(), K::Str | K::Long(_)) {
                // the first suffix follows directly, a later string argument after a blank
                self.args(!first)?;
                k = Suf::Call;
            } else {
                if st.ind_suf && (st.ind_suf1 || lines || self.extra(start)) {
                    self.wrap(start);
                }
                return Some(k);
            }
            first = false;
        }
    }
    fn index_exp(&mut self) -> R {
        // `[[`: keep apart
        if let K::Long(_) = self.kind() {
            self.w(" ");
        }
        self.exp(0)
    }
    fn args(&mut self, blank: bool) -> R {
        match self.kind() {
            K::Str | K::Long(_) => {
                if blank {
                    self.w(" ");
                }
                self.take();
                return Some(());
            }
            _ => {}
        }
        if self.is("{") {
            return self.table();
        }
        self.expect("(")?;
        if !self.is(")") {
            self.explist()?;
        }
        self.expect(")")
    }
    fn table(&mut self) -> R {
        let (begin, c, m) = (self.i, self.out.len(), (self.multi, self.multi_tab));
        let (mut n, mut named) = (0, false);
        let st = self.st;
        if st.nl_open && !self.empty_table() {
            if self.out.last() != Some(&b'\n') {
                self.newline(2 * self.i + 1);
            } else if let Some(l) = self.brks.last_mut() {
                l.2 = true;
            }
        }
        self.expect("{")?;
        let h = if self.st.hint_table { " " } else { "" };
        self.w(h);
        if self.is("}") {
            self.take();
            return Some(());
        }
        self.depth += 1;
        self.level += 1;
        let start = self.i;
        let mut lines = false;
        loop {
            if self.may(st.nl_field) {
                self.brk(true);
                lines = true;
            }
            n += 1;
            if self.is("[") {
                named = true;
                self.take();
                self.index_exp()?;
                self.expect("]")?;
                self.w(" ");
                self.expect("=")?;
                self.w(" ");
                self.exp(0)?;
            } else if self.kind() == K::Name && !is_kw(self.cur()) && self.peek_eq() {
                named = true;
                self.take();
                self.w(" ");
                self.take();
                self.w(" ");
                self.exp(0)?;
            } else {
                self.exp(0)?;
            }
            if self.is(",") || self.is(";") {
                self.i += 1;
                let a = self.out.len();
                if self.is("}") && !st.follow {
                    self.pos.push((a, a));
                    break;
                }
                let sep = self.sep;
                self.w(sep);
                self.pos.push((a, self.out.len()));
                if self.is("}") {
                    break;
                }
                self.w(" ");
            } else {
                break;
            }
        }
        self.depth -= 1;
        self.level -= 1;
        // (when tables are put on one line, one of a single value gets no indentation unless the value starts a line)
        if !st.follow || lines || n > 1 || named {
            self.wrap(start);
        }
        if self.may(st.nl_close) {
            self.brk(true);
        } else {
            self.w(h);
        }
        self.expect("}")?;
        self.node(NK::Table, begin, c, m, n == 1 && !named);
        Some(())
    }
    fn peek_eq(&self) -> bool {
        if self.i + 1 < self.t.len() {
            let t = self.t[self.i + 1];
            return t.k == K::Op && &self.s[t.a..t.b] == b"=";
        }
        false
    }
    /// binary operator precedences of the manual: (left, right)
    fn binop(&self) -> Option<(u8, u8)> {
        if !matches!(self.kind(), K::Name | K::Op) {
            return None;
        }
        Some(match self.cur() {
            b"or" => (1, 1),
            b"and" => (2, 2),
            b"<" | b">" | b"<=" | b">=" | b"~=" | b"==" => (3, 3),
            b"|" => (4, 4),
            b"~" => (5, 5),
            b"&" => (6, 6),
            b"<<" | b">>" => (7, 7),
            b".." => (9, 8),
            b"+" | b"-" => (10, 10),
            b"*" | b"/" | b"//" | b"%" => (11, 11),
            b"^" => (14, 13),
            _ => return None,
        })
    }
    fn exp(&mut self, limit: u8) -> R {
        let start = self.i;
        let st = self.st;
        if self.is("not") {
            self.take();
            self.w(" ");
            self.exp(12)?;
        } else if self.is("-") || self.is("#") || self.is("~") {
            let m = self.is("-");
            self.take();
            if m && self.is("-") {
                self.minus_minus = true;
            }
            self.exp(12)?;
        } else {
            self.simple()?;
        }
        while let Some((l, r)) = self.binop() {
            if l <= limit {
                break;
            }
            self.brk(st.nl_op == 1);
            let (begin, c, m) = (self.i, self.out.len(), (self.multi, self.multi_tab));
            let op = self.cur();
            self.take();
            self.brk(st.nl_op == 2);
            self.exp(r)?;
            self.node(NK::Op, begin, c, m, false);
            self.wraps.push((2 * start + 1, 2 * self.i - 1, op));
        }
        Some(())
    }
    fn simple(&mut self) -> R {
        match self.kind() {
            K::Num => {
                let x = self.cur();
                if x.len() > 1 && (x[1] | 32) == b'x' && x.iter().any(|c| *c == b'.' || (*c | 32) == b'p') {
                    self.hexfloat = true;
                }
                if !good_num(x) {
                    return None;
                }
                self.take();
                Some(())
            }
            K::Str | K::Long(_) => {
                self.take();
                Some(())
            }
            K::Name => match self.cur() {
                b"nil" | b"true" | b"false" => {
                    self.take();
                    Some(())
                }
                b"function" => {
                    self.take();
                    self.funcbody()
                }
                _ => self.suffixed().map(|_| ()),
            },
            K::Op => {
                if self.is("...") {
                    self.take();
                    Some(())
                } else if self.is("{") {
                    self.table()
                } else {
                    self.suffixed().map(|_| ())
                }
            }
            _ => None,
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Suf {
    Var,
    Call,
    Paren,
}
/// well-formed numeral
pub fn good_num(x: &[u8]) -> bool {
    let dig = |c: u8| (c >= b'0') & (c <= b'9');
    let hex = x.len() > 2 && x[0] == b'0' && (x[1] | 32) == b'x';
    let mut i = if hex { 2 } else { 0 };
    let isd = |c: u8| if hex { dig(c) | (((c | 32) >= b'a') & ((c | 32) <= b'f')) } else { dig(c) };
    let mut n = 0;
    while i < x.len() && isd(x[i]) {
        i += 1;
        n += 1;
    }
    if i < x.len() && x[i] == b'.' {
        i += 1;
        while i < x.len() && isd(x[i]) {
            i += 1;
            n += 1;
        }
    }
    if n == 0 {
        return false;
    }
    if i < x.len() && (x[i] | 32) == if hex { b'p' } else { b'e' } {
        i += 1;
        if i < x.len() && ((x[i] == b'+') | (x[i] == b'-')) {
            i += 1;
        }
        let s = i;
        while i < x.len() && dig(x[i]) {
            i += 1;
        }
        if i == s {
            return false;
        }
    }
    i == x.len()
}
