//! Bounded families of Lua programs: every statement / expression form of the grammar as a token list,
//! with gaps between the tokens that are filled with symbolic white space and comments.
use crate::rt::*;

/// `$n` one symbolic identifier letter, `$i` one symbolic digit, `$s`/`$c` a quoted string with two symbolic
/// characters, `$l` a long string with two symbolic characters; everything else is literal.
pub const TEMPLATES: &[&str] = &[
    // assignments and expressions
    "$n = $i",
    "x , y . z [ 1 ] = nil , true , false",
    "a = $s",
    "a = $c",
    "a = $l",
    "a = b + c * d ^ e",
    "a = b - - c",
    "a = not b and # c or ~ d",
    "a = b .. 'c' .. \"d\" .. 1",
    "a = ( b + c ) % d // e / f",
    "a = b < c and b <= c or b > c and b >= c or b == c or b ~= c",
    "a = b & c | d ~ e << f >> g",
    "a = ...",
    "a = - b ^ c",
    "a = 0x1F + 1.5e-3 + .5 + 3. + 10",
    "a [ [[k]] ] = { [ [[k]] ] = [[v]] }",
    "a [ [=[k]=] .. b ] = c [ d [ e ] ]",
    // tables
    "t = { }",
    "t = { 1 }",
    "t = { 1 , }",
    "t = { 1 , 2 ; 3 }",
    "t = { a = 1 ; }",
    "t = { a = 1 , b = 2 }",
    "t = { [ 1 ] = 2 , [ a ] = b , }",
    "t = { { 1 } , { 2 , } }",
    "t = { a = { b = { 1 } } , c }",
    "t = { f ( ) , function ( ) return 1 ; end , ... }",
    // calls and suffixes
    "f ( )",
    "f ( 1 , 2 )",
    "f { }",
    "f { 1 , a = 2 }",
    "f \"s\"",
    "f 's'",
    "f [[s]]",
    "a : b ( )",
    "a : b { 1 } : c \"s\" : d ( 1 )",
    "a . b [ c ] . d = e . f ( ) . g",
    "( f ) ( x )",
    "( a ) . b = 1",
    "( a . b ) : m ( 1 ) [ 2 ] = 3",
    "x = ( f ) ( 1 ) ( 2 )",
    "x = f ( g ( h ) , i ) . j",
    // local
    "local x",
    "local x , y",
    "local x = 1",
    "local x , y = f ( ) , 2",
    // blocks
    "do end",
    "do x = 1 end",
    "while a do end",
    "while a do b ( ) end",
    "repeat until a",
    "repeat b ( ) until a == 1",
    // if
    "if a then end",
    "if a then b ( ) end",
    "if a then else end",
    "if a then b ( ) else end",
    "if a then else c ( ) end",
    "if a then b ( ) else c ( ) end",
    "if a then elseif b then end",
    "if a then b ( ) elseif c then d ( ) end",
    "if a then elseif b then elseif c then x = 1 else end",
    "if a then b ( ) elseif c then else end",
    "if a then elseif b then else c ( ) end",
    "if a then b ( ) elseif c then d ( ) else e ( ) end",
    // for
    "for i = 1 , 2 do end",
    "for i = 1 , 2 do a ( ) end",
    "for i = 1 , 2 , 3 do end",
    "for i = 1 , 2 , 3 do a ( ) end",
    "for k in a do end",
    "for k , v in pairs ( t ) , 1 do b ( ) end",
    // functions
    "function f ( ) end",
    "function f ( ) g ( ) end",
    "function f ( a ) end",
    "function f ( a , b ) return a , b end",
    "function a . b . c ( ... ) end",
    "function a . b : c ( x , ... ) return end",
    "local function f ( ) end",
    "local function f ( a ) return ; end",
    "f = function ( ) end",
    "f = function ( a , ... ) local b = a return b end",
    "f ( function ( a ) g ( ) end , 1 )",
    // simple statements
    "return",
    "return ;",
    "return 1",
    "return 1 , f ( 2 )",
    "return 1 ;",
    "return ( f ) ( 1 )",
    "return f ( 1 ) ( 2 ) , { 1 }",
    "x = 1 return x",
    "f ( ) ; return f ( x ) ;",
    "goto a",
    ":: a ::",
    "while 1 do break end",
    ";",
    "; ; a = 1 ;",
    "a = 1 ; b = 2 c ( )",
    "a = 1 b = 2",
    "local a = 1 f ( a ) do local b = a end",
    // nesting
    "do do x = 1 end end",
    "if a then if b then c ( ) end end",
    "while a do repeat b ( ) until c end d ( )",
    "for i = 1 , 2 do if i then f ( { i } ) end end",
    "function f ( ) return function ( ) return { g ( ) } end end",
    "f ( { a = 1 , b = function ( ) x ( ) y ( ) end } , { 2 } )",
    // brackets in brackets
    "a = ( ( b ) )",
    "f ( ( ( g ) ( ) ) ) ( ( ... ) )",
    // shebang
    "#!s\n a = 1",
    "#!s\n ",
    "",
];
pub const NT: usize = TEMPLATES.len();

pub fn ident_byte(c: u8) -> bool {
    ((c | 32) >= b'a' && (c | 32) <= b'z') | (c >= b'0' && c <= b'9') | (c == b'_') | (c >= 128)
}
/// must these two tokens be kept apart?
pub fn needs_space(a: &[u8], b: &[u8]) -> bool {
    if a.is_empty() || b.is_empty() {
        return false;
    }
    let (x, y) = (a[a.len() - 1], b[0]);
    let num = (a[0] >= b'0' && a[0] <= b'9') || (a[0] == b'.' && a.len() > 1 && a[1] != b'.');
    (ident_byte(x) && ident_byte(y))
        || (num && (y == b'.' || ident_byte(y)))
        || (x == b'.' && (y == b'.' || (y >= b'0' && y <= b'9')))
        || (x == b'-' && y == b'-')
        || (x == b'[' && (y == b'[' || y == b'='))
        || ((x == b'=' || x == b'<' || x == b'>' || x == b'~' || x == b'/' || x == b':') && (y == b'=' || y == x))
}

pub fn split(t: &'static str) -> Vec<&'static str> {
    let mut v = vec![];
    for p in t.split(' ') {
        if !p.is_empty() {
            v.push(p);
        }
    }
    v
}
pub fn ngaps(t: usize) -> usize {
    split(TEMPLATES[t]).len() + 1
}

/// one symbolic printable ASCII character (or tab) that may stand inside a quoted string
fn str_char(q: u8) -> u8 {
    let c = u8_();
    assume(((c >= 32) & (c < 127)) | (c == 9));
    assume((c != b'\\') & (c != q));
    c
}
/// one symbolic character of a quoted string: plain, or an escape sequence
pub fn str_elem(q: u8, out: &mut Vec<u8>) {
    match choice(3) {
        0 => out.push(str_char(q)),
        1 => {
            out.push(b'\\');
            out.push(one_of(b"abfnrtv\\'\""));
        }
        _ => {
            // the other kind of quote, or a non-ASCII letter
            if boolean() {
                out.push(if q == b'"' { b'\'' } else { b'"' });
            } else {
                out.extend_from_slice("\u{e9}".as_bytes());
            }
        }
    }
}
/// symbolic comment text of n characters (no line break)
pub fn text(n: usize, out: &mut Vec<u8>) {
    for _ in 0..n {
        let c = u8_();
        assume(((c >= 32) & (c < 127)) | (c == 9));
        out.push(c);
    }
}
/// symbolic long-bracket content of n characters which does not close a bracket of the given level
pub fn long_text(n: usize, level: usize, out: &mut Vec<u8>) {
    let s = out.len();
    for _ in 0..n {
        let c = u8_();
        assume(((c >= 32) & (c < 127)) | (c == 9) | (c == 10));
        out.push(c);
    }
    // the closing bracket that follows must be the first one
    let e = out.len();
    out.push(b']');
    for _ in 0..level {
        out.push(b'=');
    }
    out.push(b']');
    for i in s..e {
        let mut m = (out[i] == b']') & (out[i + 1 + level] == b']');
        for k in 0..level {
            m &= out[i + 1 + k] == b'=';
        }
        assume(!m);
    }
    out.truncate(e);
}
/// concrete stand-ins for the symbolic tokens
pub fn put_plain(t: &str, out: &mut Vec<u8>) {
    out.extend_from_slice(match t {
        "$n" => b"v",
        "$i" => b"7",
        "$s" => b"\"a\\\"'\"",
        "$c" => b"'a\\'\"'",
        "$l" => b"[=[\n]]]=]",
        _ => t.as_bytes(),
    });
}
pub fn put_token(t: &str, out: &mut Vec<u8>) {
    match t {
        "$n" => {
            let c = u8_();
            assume((((c | 32) >= b'a') & ((c | 32) <= b'z')) | (c == b'_'));
            out.push(c);
        }
        "$i" => out.push(range(b'0', b'9')),
        "$s" | "$c" => {
            let q = if t == "$s" { b'"' } else { b'\'' };
            out.push(q);
            str_elem(q, out);
            str_elem(q, out);
            out.push(q);
        }
        "$l" => {
            let lv = choice(2) as usize;
            out.push(b'[');
            for _ in 0..lv {
                out.push(b'=');
            }
            out.push(b'[');
            long_text(2, lv, out);
            out.push(b']');
            for _ in 0..lv {
                out.push(b'=');
            }
            out.push(b']');
        }
        _ => out.extend_from_slice(t.as_bytes()),
    }
}
/// kinds of gap filler
pub const NFILL: u8 = 8;
/// Fill a gap. `need`: some white space is required between the neighbours.
pub fn fill(kind: u8, need: bool, minus: bool, out: &mut Vec<u8>) {
    match kind {
        // tight
        0 => {
            if need {
                out.push(b' ');
            }
        }
        // two symbolic blanks
        1 => {
            out.push(one_of(b" \t\r\x0c"));
            out.push(one_of(b" \t\n\x0b"));
        }
        // blank lines
        2 => {
            out.push(b'\n');
            if boolean() {
                out.push(one_of(b" \t\n"));
            } else {
                out.extend_from_slice(b"\n\n\n\n \n\r");
            }
            out.push(b'\n');
        }
        // one-line comment with symbolic text
        3 => {
            out.push(one_of(b" \n"));
            out.extend_from_slice(b"--");
            comment_text(out);
            out.push(b'\n');
        }
        // long comment, level 0
        4 => {
            if minus {
                out.push(b' ');
            }
            out.extend_from_slice(b"--[[");
            long_text(2, 0, out);
            out.extend_from_slice(b"]]");
        }
        // long comment, level 1
        5 => {
            out.push(one_of(b" \n"));
            out.extend_from_slice(b"--[=[");
            long_text(1, 1, out);
            out.extend_from_slice(b"]=]");
            out.push(one_of(b" \n"));
        }
        // mixed run of comments
        6 => {
            out.extend_from_slice(b" --a\n");
            out.push(one_of(b" \n"));
            out.extend_from_slice(b"--[[b]]--c\n");
        }
        _ => {
            out.extend_from_slice(b"--[[a]]");
            out.push(one_of(b" \n"));
            out.extend_from_slice(b"--[[b]] \n\n--c\n\n");
        }
    }
}
/// symbolic one-line comment text (two characters) that does not open a long comment
pub fn comment_text(out: &mut Vec<u8>) {
    let s = out.len();
    text(2, out);
    // `--[[` / `--[=` : the latter is still a one-line comment as no second bracket follows
    assume(!((out[s] == b'[') & (out[s + 1] == b'[')));
}
/// Build template `t`, filling gap `g` with a filler of a (decided) symbolic kind, the other gaps tightly
/// or with single blanks.
pub fn program(t: usize, g: usize, kind: u8, tight: bool) -> Vec<u8> {
    let toks = split(TEMPLATES[t]);
    let mut out = Vec::with_capacity(64);
    for i in 0..=toks.len() {
        let prev: &[u8] = if i > 0 { toks[i - 1].as_bytes() } else { b"" };
        let next: &[u8] = if i < toks.len() { toks[i].as_bytes() } else { b"" };
        let after_shebang = prev.len() > 1 && prev[0] == b'#' && prev[1] == b'!';
        let before_shebang = next.len() > 1 && next[0] == b'#' && next[1] == b'!';
        let need = !after_shebang && (needs_space(prev, next) || dollar(prev, next));
        if i == g && !before_shebang {
            fill(kind, need, prev.ends_with(b"-"), &mut out);
        } else if need || (!tight && i > 0 && i < toks.len() && !after_shebang) {
            out.push(b' ');
        }
        if i < toks.len() {
            put_token(toks[i], &mut out);
        }
    }
    out
}
pub fn dollar(a: &[u8], b: &[u8]) -> bool {
    // symbolic identifiers / numbers
    let id = |x: &[u8]| x == b"$n" || x == b"$i";
    (id(a) && !b.is_empty() && ident_byte(b[0])) || (id(b) && !a.is_empty() && ident_byte(a[a.len() - 1])) || (id(a) && id(b))
}

/// ways to fill all gaps of a program at once
pub const NMODE: usize = 7;
pub const MODES: [&str; NMODE] = ["tight", "spaces", "newlines", "line comments", "long comments", "blank lines", "comment runs"];
pub fn mode_fill(mode: usize, need: bool, minus: bool, i: usize, out: &mut Vec<u8>) {
    match mode {
        0 => {
            if need {
                out.push(b' ');
            }
        }
        1 => out.push(b' '),
        2 => out.push(b'\n'),
        3 => {
            out.extend_from_slice(b" --");
            out.push(b'A' + (i % 26) as u8);
            out.push(b'\n');
        }
        4 => {
            if minus {
                out.push(b' ');
            }
            out.extend_from_slice(b"--[[");
            out.push(b'A' + (i % 26) as u8);
            out.extend_from_slice(b"]]");
        }
        5 => out.extend_from_slice(b" \n\t\n "),
        // far to the right (not one of the NMODE fillings)
        7 => out.extend_from_slice(b"\n              "),
        _ => {
            out.extend_from_slice(b" --[=[");
            out.push(b'A' + (i % 26) as u8);
            out.extend_from_slice(b"\n]=] --");
            out.push(b'a' + (i % 26) as u8);
            out.extend_from_slice(b"\n");
        }
    }
}
/// the tokens of `text` with every gap filled in the same way
pub fn fill_all(text: &str, mode: usize) -> Vec<u8> {
    let toks: Vec<&str> = text.split(' ').filter(|p| !p.is_empty()).collect();
    let mut out = Vec::with_capacity(128);
    for i in 0..=toks.len() {
        let prev: &[u8] = if i > 0 { toks[i - 1].as_bytes() } else { b"" };
        let next: &[u8] = if i < toks.len() { toks[i].as_bytes() } else { b"" };
        let after_shebang = prev.len() > 1 && prev[0] == b'#' && prev[1] == b'!';
        let before_shebang = next.len() > 1 && next[0] == b'#' && next[1] == b'!';
        let need = !after_shebang && (needs_space(prev, next) || dollar(prev, next));
        if !before_shebang && !(mode == 1 && (i == 0 || i == toks.len())) {
            mode_fill(mode, need, prev.ends_with(b"-"), i, &mut out);
        }
        if i < toks.len() {
            put_plain(toks[i], &mut out);
        }
    }
    out
}
/// statement contexts: `@` stands for a statement list
pub const CTX: &[&str] = &[
    "@",
    "do @ end",
    "function f ( ) @ end",
    "if a then @ else x = 1 end",
    "t = { f = function ( ) @ end , 1 }",
    "x ( ) while a do @ end y ( )",
    "repeat local function g ( ) @ end until b",
    "for i = 1 , 2 do if a then b ( ) elseif c then @ end end",
    "a : b ( function ( ... ) @ end ) : c ( )",
];
pub fn in_ctx(c: usize, t: &str) -> String {
    let mut s = String::with_capacity(128);
    for p in CTX[c].split('@').enumerate() {
        if p.0 == 1 {
            s.push_str(t);
        }
        s.push_str(p.1);
    }
    s
}

// ---- bigger programs

/// what stands for one operand of a template
pub const SUBST: &[&str] = &[
    "'q\"'",
    "function ( ) return end",
    "function ( a ) b ( ) return c end",
    "{ 1 , a = 2 ; }",
    "f ( x ) . y",
    "( a + b )",
    "not a",
    "a . b : c ( { } , d )",
    "[[\n]]",
    "{ { } , function ( ) x = 1 end }",
    "a and b == c or d .. e",
    "...",
];
fn operand(t: &str) -> bool {
    let c = t.as_bytes()[0];
    (ident_byte(c) && !crate::refp::is_kw(t.as_bytes())) || t == "$n" || t == "$i" || t == "$s" || t == "$c" || t == "$l" || t == "..."
}
const NSUB: usize = NT * 16 * SUBST.len();
const NPAIR: usize = NT * NT;
const NNEST: usize = (CTX.len() - 1) * (CTX.len() - 1) * NT;
const DEEP: usize = 12;
/// things nested DEEP times: (before, middle, after)
const DEEPS: &[(&str, &str, &str)] = &[
    ("do ", "x = 1", " end"),
    ("if a then ", "b ( )", " else c ( ) end"),
    ("while a do ", "break", " end"),
    ("repeat ", "local x", " until a"),
    ("for i = 1 , 2 do ", "f ( i )", " end"),
    ("for k in a do ", "", " end"),
    ("function f ( ) ", "return 1", " end"),
    ("local function g ( a ) ", "return", " end"),
    ("do x = 1 ", "y = 2 z ( )", " end w ( )"),
    ("if a then elseif b then ", "", " end"),
];
const NDEEP: usize = DEEPS.len() * DEEP;
/// every place for a block, and a function in every place for an expression
const BLOCKS: &[&str] = &[
    "do @ end",
    "while a do @ end",
    "repeat @ until a",
    "if a then @ end",
    "if a then @ else end",
    "if a then @ else x ( ) end",
    "if a then else @ end",
    "if a then x ( ) else @ end",
    "if a then @ elseif b then end",
    "if a then elseif b then @ end",
    "if a then @ elseif b then c ( ) end",
    "if a then x ( ) elseif b then @ end",
    "if a then elseif b then @ elseif c then y ( ) end",
    "if a then elseif b then y ( ) elseif c then @ end",
    "if a then @ elseif b then else end",
    "if a then elseif b then @ else end",
    "if a then elseif b then else @ end",
    "if a then @ elseif b then else y ( ) end",
    "if a then x ( ) elseif b then @ else end",
    "if a then x ( ) elseif b then else @ end",
    "if a then elseif b then @ else y ( ) end",
    "if a then x ( ) elseif b then y ( ) else @ end",
    "for i = 1 , 2 do @ end",
    "for i = 1 , 2 , 3 do @ end",
    "for k in a do @ end",
    "for k , v in a , b do @ end",
    "function f ( ) @ end",
    "function f ( a , ... ) @ end",
    "function a . b : c ( x ) @ end",
    "local function f ( ) @ end",
    "local function f ( a ) @ end",
    "f = function ( ) @ end",
    "a , b . c = 1 , function ( ... ) @ end",
    "local f = function ( ) @ end",
    "local f , g = function ( ) @ end , function ( a ) @ end",
    "a = not function ( ) @ end",
    "a = b + function ( ) @ end .. c",
    "a = function ( ) @ end == - function ( a ) @ end",
    "a = ( function ( ) @ end )",
    "a [ function ( ) @ end ] . b = 1",
    "( function ( ) @ end ) ( )",
    "( a ) ( function ( ) @ end ) . b = 1",
    "f ( a , function ( ) @ end )",
    "f ( function ( ) @ end ) ( function ( ) @ end )",
    "f { function ( ) @ end } . c = 1",
    "a : b ( function ( ) @ end ) : c { function ( ) @ end }",
    "t = { function ( ) @ end }",
    "t = { a , function ( ) @ end ; b = function ( a ) @ end , }",
    "t = { [ function ( ) @ end ] = function ( ) @ end }",
    "t = { { function ( ) @ end } , { a = { function ( ) @ end } } }",
    "for i = function ( ) @ end , 2 do end",
    "for i = 1 , function ( ) @ end do x ( ) end",
    "for i = function ( ) @ end , 2 , function ( ) @ end do end",
    "for i = 1 , function ( ) @ end , 3 do x ( ) end",
    "for k in function ( ) @ end do end",
    "for k in a , function ( ) @ end do x ( ) end",
    "if function ( ) @ end then end",
    "if a then elseif function ( ) @ end then else end",
    "if a then x ( ) elseif b then elseif function ( ) @ end then y ( ) end",
    "while function ( ) @ end do end",
    "while function ( ) @ end do x ( ) end",
    "repeat until function ( ) @ end",
    "repeat x ( ) until function ( ) @ end",
    "return function ( ) @ end",
    "return a , function ( ) @ end ;",
    "x ( ) return { function ( ) @ end }",
    "#!s\n f = function ( ) @ end",
];
/// what the blocks have in them
const INNER: &[&str] = &[
    "x = 'q\"' f ( )",
    "return g ( 'q' ) ;",
    "local a = { 1 , 'b' ; } ; c ( )",
    "a . b 'a' : c \"d\" . e = [[\n]]",
    "if b then return 'x' else end break",
    "",
];
const NBLOCK: usize = BLOCKS.len() * INNER.len();
/// every kind of expression
const EXPRS: &[&str] = &[
    "nil",
    "true",
    "false",
    "0",
    "'q'",
    "\"q\"",
    "[[q]]",
    "[==[q]==]",
    "...",
    "a",
    "{ }",
    "{ { } }",
    "{ 1 , 'b' ; }",
    "{ a = nil , [ 'b' ] = 2 }",
    "( a )",
    "( ( a ) )",
    "( ( { } ) )",
    "( ... )",
    "( f ( ) )",
    "( a + b )",
    "( function ( ) end )",
    "- ( a )",
    "not ( a )",
    "# { }",
    "not { 1 }",
    "~ 1",
    "# 'q'",
    "not not a",
    "- # a",
    "- 1",
    "a + b",
    "1 .. 2",
    "a and b or c",
    "a == b",
    "a ^ - b ^ c",
    "a - ( b - c )",
    "f ( )",
    "f ( { } )",
    "f { }",
    "f 'q'",
    "f [[q]]",
    "f ( ) . x",
    "a . b",
    "a [ b ]",
    "a [ [[b]] ]",
    "a . b : c ( )",
    "a : c { }",
    "( f ) ( )",
    "( f ) ( ) : m 'q'",
    "( { } ) . a",
    "( 'q' ) : rep ( 2 )",
    "function ( ) end",
    "function ( a , ... ) return a end",
    "function ( ... ) local a = ... end",
];
/// every place for an expression, some in a program
const PLACES: &[&str] = &[
    "a = @ ; b , c = 1 , @",
    "a = not @ b = - @ c = # @",
    "a = @ + b c = d .. @ e = f == @",
    "a = @ < @ b = ( @ )",
    "a = @ and @ or @",
    "f ( @ ) g ( a , @ ) h ( @ , a )",
    "x = { @ } y = { k = @ , }",
    "x = { 1 ; [ @ ] = @ } y = { @ ; a }",
    "a [ @ ] = b [ @ ] . c",
    "if @ then end if a then x ( ) elseif @ then elseif b then y ( ) end",
    "if a then elseif @ then elseif b then elseif @ then else end",
    "if @ then x ( ) elseif @ then y ( ) else end",
    "while @ do end while @ do x ( ) end",
    "repeat until @ repeat x ( ) until @",
    "for i = @ , @ do end for i = a , b , @ do x ( ) end",
    "for k in @ do end for k in a , @ do x ( ) end",
    "local x = @ local y , z = @ , @",
    "return @",
    "x ( ) return @ , @ ;",
    "function f ( ... ) return @ end",
    "do local x = @ return end",
];
/// the first ones: every place for a block and every kind of expression in every place
pub const NBLK: usize = NBLOCK + EXPRS.len() * PLACES.len();
pub const NBIG: usize = NSUB + NPAIR + NNEST + NDEEP + NBLK;
/// job -> index of a program and a way to fill its gaps; a prefix of the jobs is spread over all programs
pub fn big_job(j: u32, modes: usize) -> (usize, usize) {
    let j = j as usize;
    // the blocks first, in every mode
    if j < NBLK * modes {
        return (NBIG - 1 - j % NBLK, j / NBLK);
    }
    let n = (NBIG - NBLK) * modes;
    // (245489 = 31 * 7919 has no factor in common with the sizes used)
    let k = ((j - NBLK * modes) * 245489) % n;
    (k / modes, k % modes)
}
/// program k of the family (tokens separated by blanks); None: not a program
pub fn big(k: usize) -> Option<String> {
    let mut s = String::with_capacity(256);
    if k < NSUB {
        let (t, i, r) = (k % NT, k / NT % 16, SUBST[k / NT / 16]);
        let ts = split(TEMPLATES[t]);
        let mut n = 0;
        let mut hit = false;
        for p in &ts {
            if operand(p) {
                if n == i {
                    s.push_str(r);
                    s.push(' ');
                    n += 1;
                    hit = true;
                    continue;
                }
                n += 1;
            }
            s.push_str(p);
            s.push(' ');
        }
        if !hit {
            return None;
        }
    } else if k < NSUB + NPAIR {
        let k = k - NSUB;
        let (a, b) = (TEMPLATES[k % NT], TEMPLATES[k / NT]);
        if b.starts_with('#') {
            return None;
        }
        s.push_str(a);
        s.push(' ');
        s.push_str(b);
    } else if k < NSUB + NPAIR + NNEST {
        let k = k - NSUB - NPAIR;
        let n = CTX.len() - 1;
        let (a, b, t) = (1 + k % n, 1 + k / n % n, k / n / n);
        if !crate::p1::ctx_ok(b, t) {
            return None;
        }
        s = in_ctx(a, &in_ctx(b, TEMPLATES[t]));
    } else if k >= NBIG - NBLK {
        let k = k - (NBIG - NBLK);
        s = if k < NBLOCK {
            BLOCKS[k / INNER.len()].replace('@', INNER[k % INNER.len()])
        } else {
            PLACES[(k - NBLOCK) % PLACES.len()].replace('@', EXPRS[(k - NBLOCK) / PLACES.len()])
        };
    } else {
        let k = k - NSUB - NPAIR - NNEST;
        let (d, n) = (DEEPS[k % DEEPS.len()], 1 + k / DEEPS.len());
        for _ in 0..n {
            s.push_str(d.0);
        }
        s.push_str(d.1);
        for _ in 0..n {
            s.push_str(d.2);
        }
    }
    // a program at all?
    let src = fill_all(&s, 0);
    let mut p = crate::refp::P::new(&src, crate::refp::NO_NL, "");
    if p.chunk().is_none() || p.paren_stmt || p.minus_minus {
        return None;
    }
    Some(s)
}

/// template t in context c with every operand that can be one replaced by the string literal r
pub fn all_operands(c: usize, t: usize, r: &str) -> String {
    let full: &'static str = Box::leak(in_ctx(c, TEMPLATES[t]).into_boxed_str());
    let ts = split(&full);
    let mut cur: Vec<&str> = ts.clone();
    for i in 0..ts.len() {
        if operand(ts[i]) {
            cur[i] = r;
            let s = cur.join(" ");
            let text = fill_all(&s, 0);
            let ok = crate::refp::P::new(&text, crate::refp::NO_NL, "").chunk().is_some();
            if !ok {
                cur[i] = ts[i];
            }
        }
    }
    cur.join(" ")
}
