//! LLVM textual IR -> compact in-memory program.
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    F(u32),
    Ptr,
    Struct(Arc<Vec<Ty>>, bool),
    Array(u64, Arc<Ty>),
    Vector(u64, Arc<Ty>),
    Meta,
    Label,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F(w) => (*w / 8) as u64,
            Ty::Ptr => 8,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// store size
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => ((*w + 7) / 8) as u64,
            Ty::F(w) => (*w / 8) as u64,
            Ty::Ptr => 8,
            Ty::Struct(..) => self.alloc_size(),
            Ty::Array(n, t) => n * t.alloc_size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut off = 0u64;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.alloc_size();
                }
                if !*p {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Array(n, t) => n * t.alloc_size(),
            _ => {
                let s = self.size();
                let a = self.align();
                (s + a - 1) / a * a
            }
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut off = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return (off, t.clone());
                    }
                    off += t.alloc_size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => (i as u64 * t.alloc_size(), (**t).clone()),
            Ty::Vector(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::I(w) | Ty::F(w) => *w,
            Ty::Ptr => 64,
            Ty::Vector(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::I(_) | Ty::F(_) | Ty::Ptr)
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Zero, // also undef, poison, null
    Str(Arc<Vec<u8>>),
    Agg(Arc<Vec<(Ty, C)>>),
    Global(Arc<str>, i64),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(u64),
    Wide(Box<u128>),
    Cst(Box<(Ty, C)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opnd),
    Intr(Intr),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    UMin,
    UMax,
    SMin,
    SMax,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bitreverse,
    Bswap,
    Fshl,
    Fshr,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UCmp,
    SCmp,
    IsConst,
    Ident,
    Trap,
    Expect,
    ObjSize,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    PtrMask,
    Bad,
}

#[derive(Debug)]
pub enum Inst {
    Bin(Bin, u32, u32, Opnd, Opnd),
    ICmp(Pred, u32, u32, Opnd, Opnd),
    Cast(CastK, u32, u32, u32, Opnd), // from,to,dst
    Load(Ty, u32, Opnd),
    LoadS(u8, u32, Opnd), // scalar load: bytes (1,2,4,8) with bits = 8*bytes
    Store(Ty, Opnd, Opnd),
    StoreS(u8, Opnd, Opnd),
    Gep(u32, Opnd, i64, Box<Vec<(Opnd, u32, i64)>>),
    GepC(u32, Opnd, i64),
    Alloca(u32, u64),
    Call(Box<Call>),
    Select(Ty, u32, Opnd, Opnd, Opnd),
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Ty, Opnd, Opnd, Vec<u32>),
    InsertElem(u32, Ty, Opnd, Opnd, Opnd),
    ExtractElem(u32, Opnd, Opnd),
    Shuffle(u32, u64, Opnd, Opnd, Vec<u32>),
    VBin(Bin, Ty, u32, Opnd, Opnd),
    VICmp(Pred, Ty, u32, Opnd, Opnd),
    VCast(CastK, Ty, Ty, u32, Opnd),
    Copy(u32, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Box<Vec<(u64, u32)>>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub callee: Callee,
    pub ret: Ty,
    pub args: Vec<(Ty, Opnd)>,
}
#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opnd)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub start: u32, // index in code
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub code: Vec<Inst>,
    pub is_decl: bool,
    pub ret: Ty,
    pub byval: Vec<Option<u64>>,
}
#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
}
#[derive(Clone, Copy, Debug)]
pub enum SymKind {
    Func(u32),
    Global(u32),
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub syms: Vec<SymKind>,
    pub fname: HashMap<String, u32>,
    pub gname: HashMap<String, u32>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(Rc<str>),   // bare word
    G(Rc<str>),   // @name
    L(Rc<str>),   // %name
    S(Rc<Vec<u8>>), // "..." or c"..."
    M,            // !something
    N(i128),      // number
    P(char),
    Dots,
}

fn lex(line: &str, out: &mut Vec<T>) {
    let b = line.as_bytes();
    let mut i = 0;
    let n = b.len();
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], i: &mut usize) -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut v = vec![];
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                *i += 3;
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    }
    while i < n {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => break,
            b'@' | b'%' => {
                let name: String;
                if b[i + 1] == b'"' {
                    i += 1;
                    name = String::from_utf8_lossy(&quoted(b, &mut i)).into_owned();
                } else {
                    let s = i + 1;
                    i += 1;
                    while i < n && isid(b[i]) {
                        i += 1;
                    }
                    name = line[s..i].to_string();
                }
                out.push(if c == b'@' { T::G(name.as_str().into()) } else { T::L(name.as_str().into()) });
            }
            b'!' => {
                i += 1;
                while i < n && (isid(b[i]) || b[i] == b'\\') {
                    i += 1;
                }
                out.push(T::M);
            }
            b'#' => {
                i += 1;
                while i < n && isid(b[i]) {
                    i += 1;
                }
            }
            b'"' => {
                let v = quoted(b, &mut i);
                out.push(T::S(Rc::new(v)));
            }
            b'c' if i + 1 < n && b[i + 1] == b'"' => {
                i += 1;
                let v = quoted(b, &mut i);
                out.push(T::S(Rc::new(v)));
            }
            b'.' if line[i..].starts_with("...") => {
                out.push(T::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let s = i;
                i += 1;
                if c == b'0' && i < n && b[i] == b'x' {
                    while i < n && b[i].is_ascii_alphanumeric() {
                        i += 1;
                    }
                    let h = &line[s + 2..i];
                    out.push(T::N(i128::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0)));
                    continue;
                }
                while i < n && (b[i].is_ascii_digit() || b[i] == b'.' || b[i] == b'e' || b[i] == b'+' || b[i] == b'-') {
                    i += 1;
                }
                let t = &line[s..i];
                if let Ok(v) = t.parse::<i128>() {
                    out.push(T::N(v));
                } else if let Ok(v) = t.parse::<u128>() {
                    out.push(T::N(v as i128));
                } else if let Ok(f) = t.parse::<f64>() {
                    out.push(T::N(f.to_bits() as i128));
                } else {
                    // label like 12:
                    out.push(T::W(t.into()));
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let s = i;
                while i < n && isid(b[i]) {
                    i += 1;
                }
                out.push(T::W(line[s..i].into()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
}

struct P<'a> {
    t: &'a [T],
    i: usize,
    named: &'a HashMap<String, Ty>,
}
const VALWORDS: &[&str] = &[
    "null", "true", "false", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "none", "splat", "asm",
    "sub", "add", "bitcast", "trunc", "xor", "blockaddress",
];

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &'a T {
        self.i += 1;
        &self.t[self.i - 1]
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if &**x == w)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected {:?} at {:?} in {:?}", c, self.i, self.t);
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            T::W(w) => match &**w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F(32),
                "double" => Ty::F(64),
                "half" => Ty::F(16),
                "fp128" | "x86_fp80" => Ty::F(128),
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::I(w[1..].parse().unwrap()),
                w => panic!("type word {} in {:?}", w, self.t),
            },
            T::L(n) => self.named.get(&**n).cloned().unwrap_or_else(|| panic!("named type {}", n)),
            T::P('{') => {
                let mut f = vec![];
                while !self.isp('}') {
                    f.push(self.ty());
                    self.eatp(',');
                }
                self.exp('}');
                Ty::Struct(Arc::new(f), false)
            }
            T::P('[') => {
                let n = match self.next() {
                    T::N(n) => *n as u64,
                    x => panic!("{:?}", x),
                };
                self.next(); // x
                let t = self.ty();
                self.exp(']');
                Ty::Array(n, Arc::new(t))
            }
            T::P('<') => {
                if self.isp('{') {
                    self.next();
                    let mut f = vec![];
                    while !self.isp('}') {
                        f.push(self.ty());
                        self.eatp(',');
                    }
                    self.exp('}');
                    self.exp('>');
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = match self.next() {
                        T::N(n) => *n as u64,
                        x => panic!("{:?}", x),
                    };
                    self.next();
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vector(n, Arc::new(t))
                }
            }
            x => panic!("type {:?} in {:?}", x, self.t),
        };
        t
    }
    fn is_ty_start(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                matches!(&**w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "half")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::L(_)) | Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            _ => false,
        }
    }
    /// skip parameter/return attributes; returns byval type if seen
    fn attrs(&mut self) -> Option<Ty> {
        let mut bv = None;
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    if VALWORDS.contains(&&**w) {
                        return bv;
                    }
                    if self.is_ty_start() {
                        return bv;
                    }
                    let w = w.clone();
                    self.i += 1;
                    if &*w == "align" {
                        if self.isp('(') {
                            self.skip_balanced();
                        } else {
                            self.i += 1;
                        }
                    } else if &*w == "byval" {
                        self.exp('(');
                        bv = Some(self.ty());
                        self.exp(')');
                    } else if self.isp('(') {
                        self.skip_balanced();
                    }
                }
                Some(T::S(_)) => {
                    // "attr"="v"
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                _ => return bv,
            }
        }
    }
    fn cval(&mut self, ty: &Ty) -> C {
        match self.next() {
            T::N(n) => C::Int(*n as u128),
            T::W(w) => match &**w {
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => C::Zero,
                "true" => C::Int(1),
                "false" => C::Int(0),
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.exp(')');
                    let n = match ty {
                        Ty::Vector(n, _) | Ty::Array(n, _) => *n,
                        _ => panic!(),
                    };
                    C::Agg(Arc::new((0..n).map(|_| (t.clone(), v.clone())).collect()))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.eatw("to");
                    self.ty();
                    self.exp(')');
                    v
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.exp('(');
                    let t = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let base = self.cval(&pt);
                    let mut idx = vec![];
                    while self.eatp(',') {
                        self.eatw("inrange");
                        let it = self.ty();
                        match self.cval(&it) {
                            C::Int(v) => idx.push(v as i64),
                            C::Zero => idx.push(0),
                            x => panic!("gep idx {:?}", x),
                        }
                    }
                    self.exp(')');
                    let mut off = idx[0] * t.alloc_size() as i64;
                    let mut cur = t;
                    for k in &idx[1..] {
                        let (o, nt) = cur.field(*k as usize);
                        off += o as i64;
                        cur = nt;
                    }
                    match base {
                        C::Global(n, o) => C::Global(n, o + off),
                        C::Int(v) => C::Int(v.wrapping_add(off as u128)),
                        C::Zero => C::Int(off as u128),
                        x => panic!("gep base {:?}", x),
                    }
                }
                "sub" | "add" | "xor" => {
                    let op = w.clone();
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.cval(&t);
                    self.exp(',');
                    let t = self.ty();
                    let b = self.cval(&t);
                    self.exp(')');
                    match (a, b) {
                        (C::Int(a), C::Int(b)) => C::Int(match &*op {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        }),
                        (C::Global(..), _) => C::Zero, // relative tables: unused
                        x => panic!("constexpr {:?}", x),
                    }
                }
                w => panic!("const word {} in {:?}", w, self.t),
            },
            T::S(s) => C::Str(Arc::new(s.to_vec())),
            T::G(n) => C::Global((&**n).into(), 0),
            T::P('{') => {
                let v = self.aggbody('}');
                C::Agg(Arc::new(v))
            }
            T::P('[') => {
                let v = self.aggbody(']');
                C::Agg(Arc::new(v))
            }
            T::P('<') => {
                if self.isp('{') {
                    self.next();
                    let v = self.aggbody('}');
                    self.exp('>');
                    C::Agg(Arc::new(v))
                } else {
                    let v = self.aggbody('>');
                    C::Agg(Arc::new(v))
                }
            }
            x => panic!("const {:?} at {} in {:?}", x, self.i, self.t),
        }
    }
    fn aggbody(&mut self, end: char) -> Vec<(Ty, C)> {
        let mut v = vec![];
        while !self.isp(end) {
            let t = self.ty();
            let c = self.cval(&t);
            v.push((t, c));
            self.eatp(',');
        }
        self.exp(end);
        v
    }
}

fn intr(name: &str) -> Option<Intr> {
    let n = name.strip_prefix("llvm.")?;
    let has = |p: &str| n == p || n.starts_with(&format!("{}.", p));
    Some(
        if has("memcpy") || has("memmove") {
            Intr::Memcpy
        } else if has("memset") {
            Intr::Memset
        } else if has("assume") || has("lifetime") || has("experimental.noalias.scope.decl") || has("x86.sse2.pause") || has("dbg") || has("prefetch") || has("sideeffect") || has("fake.use") {
            Intr::Nop
        } else if has("umin") {
            Intr::UMin
        } else if has("umax") {
            Intr::UMax
        } else if has("smin") {
            Intr::SMin
        } else if has("smax") {
            Intr::SMax
        } else if has("usub.sat") {
            Intr::USubSat
        } else if has("uadd.sat") {
            Intr::UAddSat
        } else if has("ssub.sat") {
            Intr::SSubSat
        } else if has("sadd.sat") {
            Intr::SAddSat
        } else if has("abs") {
            Intr::Abs
        } else if has("ctlz") {
            Intr::Ctlz
        } else if has("cttz") {
            Intr::Cttz
        } else if has("ctpop") {
            Intr::Ctpop
        } else if has("bitreverse") {
            Intr::Bitreverse
        } else if has("bswap") {
            Intr::Bswap
        } else if has("fshl") {
            Intr::Fshl
        } else if has("fshr") {
            Intr::Fshr
        } else if has("uadd.with.overflow") {
            Intr::UAddO
        } else if has("usub.with.overflow") {
            Intr::USubO
        } else if has("umul.with.overflow") {
            Intr::UMulO
        } else if has("sadd.with.overflow") {
            Intr::SAddO
        } else if has("ssub.with.overflow") {
            Intr::SSubO
        } else if has("smul.with.overflow") {
            Intr::SMulO
        } else if has("ucmp") {
            Intr::UCmp
        } else if has("scmp") {
            Intr::SCmp
        } else if has("is.constant") {
            Intr::IsConst
        } else if has("threadlocal.address") || has("launder.invariant.group") || has("strip.invariant.group") {
            Intr::Ident
        } else if has("trap") || has("ubsantrap") {
            Intr::Trap
        } else if has("expect") {
            Intr::Expect
        } else if has("objectsize") {
            Intr::ObjSize
        } else if has("vector.reduce.or") {
            Intr::VecReduceOr
        } else if has("vector.reduce.and") {
            Intr::VecReduceAnd
        } else if has("vector.reduce.add") {
            Intr::VecReduceAdd
        } else if has("ptrmask") {
            Intr::PtrMask
        } else {
            Intr::Bad
        },
    )
}

struct FB<'a> {
    regs: HashMap<Rc<str>, u32>,
    blocks: HashMap<Rc<str>, u32>,
    syms: &'a HashMap<String, u32>,
    named: &'a HashMap<String, Ty>,
    sk: &'a [SymKind],
}
pub const FUNC_BASE: u64 = 0x7000_0000;
pub fn symptr(s: SymKind) -> u64 {
    match s {
        SymKind::Func(f) => (FUNC_BASE + f as u64) << 32,
        SymKind::Global(g) => (g as u64 + 1) << 32,
    }
}
impl<'a> FB<'a> {
    fn reg(&mut self, n: &Rc<str>) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.clone()).or_insert(k)
    }
    fn blk(&mut self, n: &Rc<str>) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("block {}", n))
    }
    fn copnd(&self, ty: &Ty, c: C) -> Opnd {
        match c {
            C::Int(v) => {
                let w = if ty.is_scalar() { ty.bits() } else { 64 };
                if w <= 64 {
                    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                    Opnd::K(v as u64 & m)
                } else {
                    Opnd::Wide(Box::new(v))
                }
            }
            C::Zero if ty.is_scalar() => {
                if ty.bits() <= 64 {
                    Opnd::K(0)
                } else {
                    Opnd::Wide(Box::new(0))
                }
            }
            C::Global(n, o) => {
                let s = *self.syms.get(&*n).unwrap_or_else(|| panic!("sym {}", n));
                Opnd::K(symptr(self.sk[s as usize]).wrapping_add(o as u64))
            }
            c => Opnd::Cst(Box::new((ty.clone(), c))),
        }
    }
    fn val(&mut self, p: &mut P, ty: &Ty) -> Opnd {
        if let Some(T::L(n)) = p.peek() {
            p.i += 1;
            return Opnd::Reg(self.reg(n));
        }
        if *ty == Ty::Meta {
            // metadata operand: skip until , or )
            while let Some(t) = p.peek() {
                match t {
                    T::P(',') | T::P(')') => break,
                    _ => p.i += 1,
                }
            }
            return Opnd::K(0);
        }
        let c = p.cval(ty);
        self.copnd(ty, c)
    }
    fn tyval(&mut self, p: &mut P) -> (Ty, Opnd) {
        let t = p.ty();
        p.attrs();
        let v = self.val(p, &t);
        (t, v)
    }
    fn lab(&mut self, p: &mut P) -> u32 {
        p.eatw("label");
        match p.next() {
            T::L(n) => self.blk(n),
            x => panic!("label {:?}", x),
        }
    }
}

pub fn parse(text: &str) -> Module {
    let mut named: HashMap<String, Ty> = HashMap::new();
    let mut syms: HashMap<String, u32> = HashMap::new();
    let mut sk: Vec<SymKind> = vec![];
    let mut funcs: Vec<Func> = vec![];
    let mut globals: Vec<Global> = vec![];
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: named types (in order; rustc emits few), global names, function headers
    let mut toks = vec![];
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            toks.clear();
            lex(l, &mut toks);
            let name = match &toks[0] {
                T::L(n) => n.to_string(),
                _ => panic!(),
            };
            let mut p = P { t: &toks, i: 3, named: &named };
            let t = if p.isw("opaque") { Ty::Void } else { p.ty() };
            named.insert(name, t);
        }
    }
    let mut bodies: Vec<(usize, usize, usize)> = vec![]; // func idx, first line, last line
    let mut gl: Vec<usize> = vec![];
    let mut aliases: Vec<(String, String)> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define ") || l.starts_with("declare ") {
            toks.clear();
            lex(l, &mut toks);
            let is_decl = l.starts_with("declare");
            // find function name = first T::G
            let gi = toks.iter().position(|t| matches!(t, T::G(_))).unwrap();
            let name = match &toks[gi] {
                T::G(n) => n.to_string(),
                _ => unreachable!(),
            };
            // return type: skip words until type start
            let mut p = P { t: &toks, i: 1, named: &named };
            loop {
                if p.is_ty_start() {
                    break;
                }
                p.attrs();
                if !p.is_ty_start() {
                    p.i += 1;
                }
            }
            let ret = p.ty();
            p.i = gi + 1;
            p.exp('(');
            let mut params = vec![];
            let mut byval = vec![];
            while !p.isp(')') {
                if p.peek() == Some(&T::Dots) {
                    p.i += 1;
                    continue;
                }
                let t = p.ty();
                let bv = p.attrs();
                if let Some(T::L(_)) = p.peek() {
                    p.i += 1;
                }
                params.push(t);
                byval.push(bv.map(|t| t.alloc_size()));
                p.eatp(',');
            }
            let fi = funcs.len();
            syms.insert(name.clone(), sk.len() as u32);
            sk.push(SymKind::Func(fi as u32));
            funcs.push(Func { name, params, nregs: 0, blocks: vec![], code: vec![], is_decl, ret, byval });
            if !is_decl {
                let s = i + 1;
                while lines[i] != "}" {
                    i += 1;
                }
                bodies.push((fi, s, i));
            }
        } else if l.starts_with('@') {
            toks.clear();
            lex(l, &mut toks);
            let name = match &toks[0] {
                T::G(n) => n.to_string(),
                _ => panic!(),
            };
            if toks.iter().take(10).any(|t| matches!(t, T::W(w) if &**w=="alias")) {
                let tgt = toks.iter().skip(1).find_map(|t| if let T::G(n) = t { Some(n.to_string()) } else { None }).unwrap();
                aliases.push((name, tgt));
            } else if !name.starts_with("llvm.") {
                syms.insert(name.clone(), sk.len() as u32);
                sk.push(SymKind::Global(globals.len() as u32));
                globals.push(Global { name, ty: Ty::Void, init: None, constant: false });
                gl.push(i);
            }
        }
        i += 1;
    }
    for (a, t) in aliases {
        let s = syms[&t];
        syms.insert(a, s);
    }
    for (gi, li) in gl.iter().enumerate() {
        toks.clear();
        lex(lines[*li], &mut toks);
        let k = toks
            .iter()
            .position(|t| matches!(t, T::W(w) if &**w=="global" || &**w=="constant"))
            .unwrap_or_else(|| panic!("{}", lines[*li]));
        let constant = matches!(&toks[k], T::W(w) if &**w=="constant");
        let external = toks[..k].iter().any(|t| matches!(t, T::W(w) if &**w=="external" || &**w=="extern_weak"));
        let mut p = P { t: &toks, i: k + 1, named: &named };
        let ty = p.ty();
        let init = if external { None } else { Some(p.cval(&ty)) };
        globals[gi].ty = ty;
        globals[gi].init = init;
        globals[gi].constant = constant;
    }
    // bodies
    for (fi, s, e) in bodies {
        let mut fb = FB { regs: HashMap::new(), blocks: HashMap::new(), syms: &syms, named: &named, sk: &sk };
        // header param names
        toks.clear();
        lex(lines[s - 1], &mut toks);
        let gi = toks.iter().position(|t| matches!(t, T::G(_))).unwrap();
        {
            let mut p = P { t: &toks, i: gi + 1, named: &named };
            p.exp('(');
            let mut k = 0;
            while !p.isp(')') {
                if p.peek() == Some(&T::Dots) {
                    p.i += 1;
                    continue;
                }
                p.ty();
                p.attrs();
                if let Some(T::L(n)) = p.peek() {
                    p.i += 1;
                    fb.reg(n);
                } else {
                    let n: Rc<str> = format!("{}", k).into();
                    fb.reg(&n);
                }
                k += 1;
                p.eatp(',');
            }
        }
        // blocks
        let mut nb = 0;
        let mut body: Vec<(Option<u32>, Vec<T>)> = vec![];
        let nparams = funcs[fi].params.len();
        let mut li = s;
        // the first block may have an explicit label or not
        let mut first = true;
        while li < e {
            let l = lines[li];
            li += 1;
            if l.is_empty() || l.trim_start().starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut name = l.split(" ;").next().unwrap().trim_end();
                name = name.strip_suffix(':').unwrap_or_else(|| panic!("label {:?}", l));
                let nm: Rc<str> = if name.starts_with('"') {
                    name.trim_matches('"').into()
                } else {
                    name.into()
                };
                fb.blocks.insert(nm, nb);
                body.push((Some(nb), vec![]));
                nb += 1;
                first = false;
                continue;
            }
            if first {
                let nm: Rc<str> = format!("{}", nparams).into();
                fb.blocks.insert(nm, nb);
                body.push((Some(nb), vec![]));
                nb += 1;
                first = false;
            }
            let mut tv = vec![];
            lex(l, &mut tv);
            // multi-line switch
            if l.trim_start().starts_with("switch ") {
                while !lines[li - 1].trim_end().ends_with(']') && !lines[li - 1].contains("], !") && !lines[li - 1].trim_start().starts_with(']') {
                    lex(lines[li], &mut tv);
                    li += 1;
                }
            }
            body.push((None, tv));
        }
        let mut blocks: Vec<Block> = vec![];
        let mut code: Vec<Inst> = vec![];
        for (b, tv) in &body {
            if b.is_some() {
                blocks.push(Block { phis: vec![], start: code.len() as u32 });
                continue;
            }
            parse_inst(tv, &mut fb, blocks.last_mut().unwrap(), &mut code, &sk);
        }
        let f = &mut funcs[fi];
        f.nregs = fb.regs.len() as u32;
        f.blocks = blocks;
        f.code = code;
    }
    let fname = funcs.iter().enumerate().map(|(i, f)| (f.name.clone(), i as u32)).collect();
    let gname = globals.iter().enumerate().map(|(i, f)| (f.name.clone(), i as u32)).collect();
    Module { funcs, globals, syms: sk, fname, gname }
}

fn binop(w: &str) -> Option<Bin> {
    Some(match w {
        "add" => Bin::Add,
        "sub" => Bin::Sub,
        "mul" => Bin::Mul,
        "udiv" => Bin::UDiv,
        "sdiv" => Bin::SDiv,
        "urem" => Bin::URem,
        "srem" => Bin::SRem,
        "and" => Bin::And,
        "or" => Bin::Or,
        "xor" => Bin::Xor,
        "shl" => Bin::Shl,
        "lshr" => Bin::LShr,
        "ashr" => Bin::AShr,
        _ => return None,
    })
}

fn parse_inst(tv: &[T], fb: &mut FB, blk: &mut Block, code: &mut Vec<Inst>, sk: &[SymKind]) {
    let named = fb.named;
    let mut p = P { t: tv, i: 0, named };
    let mut dst: Option<u32> = None;
    if let (Some(T::L(n)), Some(T::P('='))) = (tv.get(0), tv.get(1)) {
        dst = Some(fb.reg(n));
        p.i = 2;
    }
    let mut op = match p.next() {
        T::W(w) => w.clone(),
        x => panic!("inst {:?} {:?}", x, tv),
    };
    while matches!(&*op, "tail" | "musttail" | "notail") {
        op = match p.next() {
            T::W(w) => w.clone(),
            x => panic!("inst {:?}", x),
        };
    }
    let skipflags = |p: &mut P| {
        while let Some(T::W(w)) = p.peek() {
            if matches!(&**w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                p.i += 1;
            } else if &**w == "inrange" {
                p.i += 1;
                p.skip_balanced();
            } else {
                break;
            }
        }
    };
    let d = dst.unwrap_or(u32::MAX);
    if let Some(b) = binop(&op) {
        skipflags(&mut p);
        let t = p.ty();
        let a = fb.val(&mut p, &t);
        p.exp(',');
        let c = fb.val(&mut p, &t);
        if t.is_scalar() {
            code.push(Inst::Bin(b, t.bits(), d, a, c));
        } else {
            code.push(Inst::VBin(b, t, d, a, c));
        }
        return;
    }
    match &*op {
        "icmp" => {
            skipflags(&mut p);
            let pr = match p.next() {
                T::W(w) => match &**w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {}", x),
                },
                x => panic!("pred {:?}", x),
            };
            let t = p.ty();
            let a = fb.val(&mut p, &t);
            p.exp(',');
            let c = fb.val(&mut p, &t);
            if t.is_scalar() {
                code.push(Inst::ICmp(pr, t.bits(), d, a, c));
            } else {
                code.push(Inst::VICmp(pr, t, d, a, c));
            }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            skipflags(&mut p);
            let t = p.ty();
            let a = fb.val(&mut p, &t);
            p.eatw("to");
            let t2 = p.ty();
            if t.is_scalar() && t2.is_scalar() {
                let (w1, w2) = (t.bits(), t2.bits());
                let k = match &*op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    _ => {
                        if w1 == w2 {
                            CastK::Bit
                        } else if w1 > w2 {
                            CastK::Trunc
                        } else {
                            CastK::ZExt
                        }
                    }
                };
                if k == CastK::Bit {
                    code.push(Inst::Copy(d, a));
                } else {
                    code.push(Inst::Cast(k, w1, w2, d, a));
                }
            } else {
                let k = match &*op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    _ => CastK::Bit,
                };
                code.push(Inst::VCast(k, t, t2, d, a));
            }
        }
        "load" => {
            skipflags(&mut p);
            let t = p.ty();
            p.exp(',');
            let (_, a) = fb.tyval(&mut p);
            match t {
                Ty::I(8) => code.push(Inst::LoadS(1, d, a)),
                Ty::I(16) => code.push(Inst::LoadS(2, d, a)),
                Ty::I(32) => code.push(Inst::LoadS(4, d, a)),
                Ty::I(64) | Ty::Ptr => code.push(Inst::LoadS(8, d, a)),
                t => code.push(Inst::Load(t, d, a)),
            }
        }
        "store" => {
            skipflags(&mut p);
            let (t, v) = fb.tyval(&mut p);
            p.exp(',');
            let (_, a) = fb.tyval(&mut p);
            match t {
                Ty::I(8) => code.push(Inst::StoreS(1, v, a)),
                Ty::I(16) => code.push(Inst::StoreS(2, v, a)),
                Ty::I(32) => code.push(Inst::StoreS(4, v, a)),
                Ty::I(64) | Ty::Ptr => code.push(Inst::StoreS(8, v, a)),
                t => code.push(Inst::Store(t, v, a)),
            }
        }
        "getelementptr" => {
            skipflags(&mut p);
            let t = p.ty();
            p.exp(',');
            let (bt, base) = fb.tyval(&mut p);
            if !bt.is_scalar() {
                code.push(Inst::Unsupported("vector gep".into()));
                return;
            }
            let mut off = 0i64;
            let mut var = vec![];
            let mut cur = t.clone();
            let mut first = true;
            while p.eatp(',') {
                if matches!(p.peek(), Some(T::M)) {
                    break;
                }
                let (it, iv) = fb.tyval(&mut p);
                let scale;
                let next;
                if first {
                    scale = cur.alloc_size() as i64;
                    next = cur.clone();
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            if let Opnd::K(k) = iv {
                                let (o, nt) = cur.field(k as usize);
                                off += o as i64;
                                cur = nt;
                                continue;
                            } else {
                                panic!("gep struct")
                            }
                        }
                        Ty::Array(_, e) | Ty::Vector(_, e) => {
                            scale = e.alloc_size() as i64;
                            next = (**e).clone();
                        }
                        x => panic!("gep into {:?}", x),
                    }
                }
                match iv {
                    Opnd::K(k) => {
                        let w = it.bits();
                        let s = if w >= 64 { k as i64 } else { ((k << (64 - w)) as i64) >> (64 - w) };
                        off += s * scale;
                    }
                    v => var.push((v, it.bits(), scale)),
                }
                cur = next;
            }
            if var.is_empty() {
                code.push(Inst::GepC(d, base, off));
            } else {
                code.push(Inst::Gep(d, base, off, Box::new(var)));
            }
        }
        "alloca" => {
            let t = p.ty();
            code.push(Inst::Alloca(d, t.alloc_size()));
        }
        "select" => {
            skipflags(&mut p);
            let (ct, c) = fb.tyval(&mut p);
            p.exp(',');
            let (t, a) = fb.tyval(&mut p);
            p.exp(',');
            let (_, b) = fb.tyval(&mut p);
            if !ct.is_scalar() {
                code.push(Inst::Unsupported("vector select".into()));
                return;
            }
            code.push(Inst::Select(t, d, c, a, b));
        }
        "freeze" => {
            let (_, a) = fb.tyval(&mut p);
            code.push(Inst::Copy(d, a));
        }
        "extractvalue" => {
            let (_, a) = fb.tyval(&mut p);
            let mut ix = vec![];
            while p.eatp(',') {
                if let Some(T::N(n)) = p.peek() {
                    ix.push(*n as u32);
                    p.i += 1;
                } else {
                    break;
                }
            }
            code.push(Inst::ExtractValue(d, a, ix));
        }
        "insertvalue" => {
            let (t, a) = fb.tyval(&mut p);
            p.exp(',');
            let (_, v) = fb.tyval(&mut p);
            let mut ix = vec![];
            while p.eatp(',') {
                if let Some(T::N(n)) = p.peek() {
                    ix.push(*n as u32);
                    p.i += 1;
                } else {
                    break;
                }
            }
            code.push(Inst::InsertValue(d, t, a, v, ix));
        }
        "insertelement" => {
            let (t, a) = fb.tyval(&mut p);
            p.exp(',');
            let (_, v) = fb.tyval(&mut p);
            p.exp(',');
            let (_, i) = fb.tyval(&mut p);
            code.push(Inst::InsertElem(d, t, a, v, i));
        }
        "extractelement" => {
            let (_, a) = fb.tyval(&mut p);
            p.exp(',');
            let (_, i) = fb.tyval(&mut p);
            code.push(Inst::ExtractElem(d, a, i));
        }
        "shufflevector" => {
            let (t, a) = fb.tyval(&mut p);
            p.exp(',');
            let (_, b) = fb.tyval(&mut p);
            p.exp(',');
            let mt = p.ty();
            let m = p.cval(&mt);
            let n = match t {
                Ty::Vector(n, _) => n,
                _ => panic!(),
            };
            let mn = match mt {
                Ty::Vector(n, _) => n,
                _ => panic!(),
            };
            let mask = match m {
                C::Zero => vec![0; mn as usize],
                C::Agg(v) => v
                    .iter()
                    .map(|(_, c)| match c {
                        C::Int(k) => *k as u32,
                        _ => 0,
                    })
                    .collect(),
                _ => panic!(),
            };
            code.push(Inst::Shuffle(d, n, a, b, mask));
        }
        "phi" => {
            skipflags(&mut p);
            let t = p.ty();
            let mut inc = vec![];
            loop {
                p.exp('[');
                let v = fb.val(&mut p, &t);
                p.exp(',');
                let b = match p.next() {
                    T::L(n) => fb.blk(n),
                    x => panic!("phi {:?}", x),
                };
                p.exp(']');
                inc.push((b, v));
                if !(p.isp(',') && matches!(p.t.get(p.i + 1), Some(T::P('[')))) {
                    break;
                }
                p.i += 1;
            }
            blk.phis.push(Phi { dst: d, inc });
        }
        "br" => {
            if p.isw("label") {
                let l = fb.lab(&mut p);
                code.push(Inst::Br(l));
            } else {
                let (_, c) = fb.tyval(&mut p);
                p.exp(',');
                let a = fb.lab(&mut p);
                p.exp(',');
                let b = fb.lab(&mut p);
                code.push(Inst::CondBr(c, a, b));
            }
        }
        "switch" => {
            let (t, v) = fb.tyval(&mut p);
            p.exp(',');
            let def = fb.lab(&mut p);
            p.exp('[');
            let mut cs = vec![];
            while !p.isp(']') {
                let (_, k) = fb.tyval(&mut p);
                p.exp(',');
                let l = fb.lab(&mut p);
                let k = match k {
                    Opnd::K(k) => k,
                    x => panic!("switch const {:?}", x),
                };
                cs.push((k, l));
            }
            code.push(Inst::Switch(t.bits(), v, def, Box::new(cs)));
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                code.push(Inst::Ret(None));
            } else {
                p.attrs();
                let v = fb.val(&mut p, &t);
                code.push(Inst::Ret(Some(v)));
            }
        }
        "unreachable" => code.push(Inst::Unreachable),
        "resume" => code.push(Inst::Unsupported("resume".into())),
        "landingpad" => code.push(Inst::Unsupported("landingpad".into())),
        "cleanup" | "catch" | "filter" => {}
        "call" => {
            skipflags(&mut p);
            // calling conv words and ret attrs
            loop {
                if p.is_ty_start() {
                    break;
                }
                let i0 = p.i;
                p.attrs();
                if p.i == i0 {
                    panic!("call header {:?}", tv);
                }
            }
            let ret = p.ty();
            // optional function type (varargs): '(' types ')'
            let mut cname: Option<Rc<str>> = None;
            if p.isp('(') {
                p.skip_balanced();
            }
            let callee = match p.next() {
                T::G(n) => {
                    cname = Some(n.clone());
                    None
                }
                T::L(n) => Some(Opnd::Reg(fb.reg(n))),
                T::W(w) if &**w == "asm" => {
                    // asm sideeffect "..", ".."(args)
                    while matches!(p.peek(), Some(T::W(_))) {
                        p.i += 1;
                    }
                    p.i += 1;
                    p.exp(',');
                    p.i += 1;
                    cname = Some("$asm".into());
                    None
                }
                T::W(w) if &**w == "inttoptr" || &**w == "null" => {
                    code.push(Inst::Unreachable);
                    return;
                }
                x => panic!("callee {:?} {:?}", x, tv),
            };
            p.exp('(');
            let mut args = vec![];
            while !p.isp(')') {
                let (t, v) = fb.tyval(&mut p);
                args.push((t, v));
                p.eatp(',');
            }
            let callee = match (callee, cname) {
                (Some(o), _) => Callee::Ind(o),
                (None, Some(n)) => {
                    if &*n == "$asm" {
                        // empty-asm black boxes: return first arg if any
                        Callee::Intr(Intr::Nop)
                    } else if let Some(i) = intr(&n) {
                        if i == Intr::Bad {
                            code.push(Inst::Unsupported(n.to_string()));
                            return;
                        }
                        Callee::Intr(i)
                    } else {
                        match sk[*fb.syms.get(&*n).unwrap_or_else(|| panic!("callee sym {}", n)) as usize] {
                            SymKind::Func(f) => Callee::Func(f),
                            SymKind::Global(_) => {
                                code.push(Inst::Unsupported(format!("call of data {}", n)));
                                return;
                            }
                        }
                    }
                }
                _ => unreachable!(),
            };
            if let Callee::Intr(Intr::Nop) = callee {
                if dst.is_none() {
                    return;
                }
            }
            code.push(Inst::Call(Box::new(Call { dst, callee, ret, args })));
        }
        x => code.push(Inst::Unsupported(x.to_string())),
    }
}
