//! Hash-consed bit-vector expressions with simplification, concrete evaluation and Z3 translation.
use crate::z3::*;
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // c = lo
    Concat,  // a = high, b = low
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}
pub struct Pool {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>, // var mask
    pub umax: Vec<u128>,
    pub size: Vec<u32>, // saturating tree size
    map: HashMap<Node, E>,
    z3c: Vec<Option<Ast>>,  // bv ast
    z3b: Vec<Option<Ast>>,  // bool ast for width 1
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    pub true_: E,
    pub false_: E,
    sets: HashMap<E, [u64; 4]>,
    tabs: HashMap<E, std::rc::Rc<[u8; 256]>>,
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
pub fn fold(op: Op, w: u32, wa: u32, a: u128, b: u128, c: u128, lo: u32, wb: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Not => !a,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        Op::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
        Op::Ite => {
            if a == 1 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => sx(a, wa) as u128,
        Op::Extract => a >> lo,
        Op::Concat => (a << wb) | b,
        Op::Const | Op::Var => unreachable!(),
    };
    r & m
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            vars: vec![],
            umax: vec![],
            size: vec![],
            map: HashMap::new(),
            z3c: vec![],
            z3b: vec![],
            ev_gen: vec![],
            ev_val: vec![],
            gen: 0,
            true_: 0,
            false_: 0,
            sets: HashMap::new(), tabs: HashMap::new(),
        };
        p.false_ = p.konst(0, 1);
        p.true_ = p.konst(1, 1);
        p
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as u32;
        let m = mask(n.w);
        let (vars, umax, size) = match n.op {
            Op::Const => (0, n.k, 1),
            Op::Var => (1u128 << n.k, m, 1),
            Op::Not => (self.vars[n.a as usize], m, self.size[n.a as usize]),
            Op::ZExt => (self.vars[n.a as usize], self.umax[n.a as usize], self.size[n.a as usize]),
            Op::SExt => (self.vars[n.a as usize], m, self.size[n.a as usize]),
            Op::Extract => {
                let u = if n.c == 0 { self.umax[n.a as usize].min(m) } else { (self.umax[n.a as usize] >> n.c).min(m) };
                (self.vars[n.a as usize], u, self.size[n.a as usize])
            }
            Op::Ite => (
                self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
                self.umax[n.b as usize].max(self.umax[n.c as usize]),
                self.size[n.a as usize].saturating_add(self.size[n.b as usize]).saturating_add(self.size[n.c as usize]),
            ),
            _ => {
                let (ua, ub) = (self.umax[n.a as usize], self.umax[n.b as usize]);
                let u = match n.op {
                    Op::And => ua.min(ub),
                    Op::Or | Op::Xor => {
                        let x = ua | ub;
                        let bits = 128 - x.leading_zeros();
                        mask(bits).min(m)
                    }
                    Op::Add => match ua.checked_add(ub) {
                        Some(v) if v <= m => v,
                        _ => m,
                    },
                    Op::Mul => match ua.checked_mul(ub) {
                        Some(v) if v <= m => v,
                        _ => m,
                    },
                    Op::UDiv => m,
                    Op::URem => {
                        if self.nodes[n.b as usize].op == Op::Const && ub > 0 {
                            ub - 1
                        } else {
                            m
                        }
                    }
                    Op::LShr => {
                        if self.nodes[n.b as usize].op == Op::Const && ub < 128 {
                            ua >> ub
                        } else {
                            ua
                        }
                    }
                    Op::Shl => {
                        if self.nodes[n.b as usize].op == Op::Const && ub < n.w as u128 && ua.leading_zeros() as u128 >= ub && (ua << ub) <= m {
                            ua << ub
                        } else {
                            m
                        }
                    }
                    Op::Concat => {
                        let wb = self.nodes[n.b as usize].w;
                        ((ua << wb) | mask(wb).min(if ua == 0 { ub } else { mask(wb) })).min(m)
                    }
                    _ => m,
                };
                (self.vars[n.a as usize] | self.vars[n.b as usize], u, self.size[n.a as usize].saturating_add(self.size[n.b as usize]))
            }
        };
        self.nodes.push(n);
        self.vars.push(vars);
        self.umax.push(umax);
        self.size.push(size.saturating_add(1));
        self.z3c.push(None);
        self.z3b.push(None);
        self.ev_gen.push(0);
        self.ev_val.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, k: u128, w: u32) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: u32) -> E {
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn kv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        if let Some(k) = self.kv(a) {
            return self.konst(!k, n.w);
        }
        match n.op {
            Op::Not => return n.a,
            Op::Ult if n.w == 1 => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule if n.w == 1 => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt if n.w == 1 => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle if n.w == 1 => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        self.intern(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }
    fn const_ite(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n(e);
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.kv(n.b), self.kv(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }
    /// ite tree whose leaves are all constants (bounded)
    fn const_tree(&self, e: E, depth: u32) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Const => true,
            Op::Ite if depth > 0 => self.const_tree(n.b, depth - 1) && self.const_tree(n.c, depth - 1),
            _ => false,
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.kv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.kv(a), self.kv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.bin(Op::Or, c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(k) = self.kv(a) {
            return self.konst(k, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.const_tree(a, 6) {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(k) = self.kv(a) {
            return self.konst(sx(k, n.w) as u128, w);
        }
        if self.umax[a as usize] < (1u128 << (n.w - 1)) {
            return self.zext(a, w);
        }
        if n.op == Op::Ite && self.const_tree(a, 6) {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if n.w == 1 {
            let x = self.konst(u128::MAX, w);
            let y = self.konst(0, w);
            return self.ite(a, x, y);
        }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        if let Some(k) = self.kv(a) {
            return self.konst(k >> lo, w);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.c + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, w - (wb - lo));
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.const_tree(a, 6) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not if n.w > 1 => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => {
                if let Some(k) = self.kv(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(0, w);
                    }
                }
            }
            Op::LShr => {
                if let Some(k) = self.kv(n.b) {
                    let k = k as u32;
                    if lo + k + w <= n.w {
                        return self.extract(n.a, lo + k, w);
                    }
                }
            }
            _ => {}
        }
        if self.umax[a as usize] >> lo == 0 {
            return self.konst(0, w);
        }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: lo, k: 0 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w + nl.w;
        if let (Some(x), Some(y)) = (self.kv(h), self.kv(l)) {
            return self.konst((x << nl.w) | y, w);
        }
        if self.kv(h) == Some(0) {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.c == nl.c + nl.w {
            return self.extract(nh.a, nl.c, w);
        }
        // Concat(Extract(x, k..), x') where x' is low part of x given as whole extract of ZExt
        if nh.op == Op::Concat {
            // try to merge the low part
            let nhb = self.n(nh.b);
            if nhb.op == Op::Extract && nl.op == Op::Extract && nhb.a == nl.a && nhb.c == nl.c + nl.w {
                let m = self.extract(nl.a, nl.c, nhb.w + nl.w);
                return self.concat(nh.a, m);
            }
        }
        self.intern(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    fn commutes(op: Op) -> bool {
        matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let wa = self.w(a);
        debug_assert_eq!(wa, self.w(b), "{:?}", op);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { wa };
        let (mut ka, mut kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = fold(op, rw, wa, x, y, 0, 0, 0);
            return self.konst(v, rw);
        }
        if Self::commutes(op) && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        let m = mask(wa);
        let na = self.n(a);
        let nb = self.n(b);
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.konst(0, wa),
                Op::Eq | Op::Ule | Op::Sle => return self.true_,
                Op::Ult | Op::Slt => return self.false_,
                _ => {}
            }
        }
        // unsigned range knowledge
        let (ua, ub) = (self.umax[a as usize], self.umax[b as usize]);
        match op {
            Op::Ult => {
                if let Some(k) = kb {
                    if k == 0 {
                        return self.false_;
                    }
                    if ua < k {
                        return self.true_;
                    }
                    if k == 1 {
                        let z = self.konst(0, wa);
                        return self.eq(a, z);
                    }
                }
                if let Some(k) = ka {
                    if k >= ub {
                        return self.false_;
                    }
                    if k == 0 {
                        let z = self.konst(0, wa);
                        let e = self.eq(b, z);
                        return self.not(e);
                    }
                }
            }
            Op::Ule => {
                if let Some(k) = kb {
                    if ua <= k {
                        return self.true_;
                    }
                    if k < m {
                        let k1 = self.konst(k + 1, wa);
                        return self.bin(Op::Ult, a, k1);
                    }
                }
                if let Some(k) = ka {
                    if k == 0 {
                        return self.true_;
                    }
                    if k > ub {
                        return self.false_;
                    }
                    let k1 = self.konst(k - 1, wa);
                    return self.bin(Op::Ult, k1, b);
                }
            }
            Op::Slt | Op::Sle => {
                let h = 1u128 << (wa - 1);
                if ua < h && ub < h {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                // a non-negative vs negative constant
                if let Some(k) = kb {
                    if ua < h && k >= h {
                        return self.false_;
                    }
                }
                if let Some(k) = ka {
                    if ub < h && k >= h {
                        return self.true_;
                    }
                }
            }
            Op::Eq => {
                if let Some(k) = kb {
                    if k > ua {
                        return self.false_;
                    }
                }
            }
            _ => {}
        }
        if let Some(k) = kb {
            match op {
                Op::And => {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // mask of low bits covering umax
                    if k & (k + 1) == 0 && ua <= k {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.kv(na.b) {
                            let kk = self.konst(k & k2, wa);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(k, iw);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, wa);
                    }
                    if k & (k + 1) == 0 {
                        // low mask: zext(extract)
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, wa);
                    }
                }
                Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::Or if k == m => return b,
                Op::Xor if k == m => return self.not(a),
                Op::Mul if k == 0 => return b,
                Op::Mul | Op::UDiv if k == 1 => return a,
                Op::Mul if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, wa);
                    return self.bin(Op::Shl, a, s);
                }
                Op::UDiv if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, wa);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if k.is_power_of_two() => {
                    let s = self.konst(k - 1, wa);
                    return self.bin(Op::And, a, s);
                }
                Op::Shl | Op::LShr if k >= wa as u128 => return self.konst(0, wa),
                Op::LShr => {
                    // zext(extract(a, k, wa-k))
                    let x = self.extract(a, k as u32, wa - k as u32);
                    return self.zext(x, wa);
                }
                Op::Sub => {
                    let nk = self.konst(0u128.wrapping_sub(k), wa);
                    return self.bin(Op::Add, a, nk);
                }
                Op::Add if na.op == Op::Add => {
                    if let Some(k2) = self.kv(na.b) {
                        let kk = self.konst(k.wrapping_add(k2), wa);
                        return self.bin(Op::Add, na.a, kk);
                    }
                }
                Op::Xor if na.op == Op::Xor => {
                    if let Some(k2) = self.kv(na.b) {
                        let kk = self.konst(k ^ k2, wa);
                        return self.bin(Op::Xor, na.a, kk);
                    }
                }
                _ => {}
            }
            // push through const ite trees
            if na.op == Op::Ite && self.const_tree(a, 6) {
                let x = self.bin(op, na.b, b);
                let y = self.bin(op, na.c, b);
                return self.ite(na.a, x, y);
            }
            match op {
                Op::Eq => {
                    if wa == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            let kk = self.konst(k, iw);
                            return self.eq(na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if sx(k & mask(iw), iw) as u128 & m != k {
                                return self.false_;
                            }
                            let kk = self.konst(k, iw);
                            return self.eq(na.a, kk);
                        }
                        Op::Concat => {
                            let wb = self.w(na.b);
                            let kh = self.konst(k >> wb, wa - wb);
                            let kl = self.konst(k, wb);
                            let x = self.eq(na.a, kh);
                            let y = self.eq(na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Xor => {
                            if let Some(k2) = self.kv(na.b) {
                                let kk = self.konst(k ^ k2, wa);
                                return self.eq(na.a, kk);
                            }
                            if k == 0 {
                                return self.eq(na.a, na.b);
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.kv(na.b) {
                                let kk = self.konst(k.wrapping_sub(k2), wa);
                                return self.eq(na.a, kk);
                            }
                        }
                        Op::Sub if k == 0 => return self.eq(na.a, na.b),
                        Op::Or if k == 0 => {
                            let z = self.konst(0, wa);
                            let x = self.eq(na.a, z);
                            let y = self.eq(na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Not => {
                            let kk = self.konst(!k, wa);
                            return self.eq(na.a, kk);
                        }
                        Op::Shl => {
                            if let Some(s) = self.kv(na.b) {
                                let s = s as u32;
                                if k & mask(s) != 0 {
                                    return self.false_;
                                }
                                let x = self.extract(na.a, 0, wa - s);
                                let kk = self.konst(k >> s, wa - s);
                                return self.eq(x, kk);
                            }
                        }
                        Op::Ite => {
                            // ite(c, K, y) == k
                            if self.kv(na.b).is_some() || self.kv(na.c).is_some() {
                                let x = self.eq(na.b, b);
                                let y = self.eq(na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                }
                Op::Ult => {
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(k, iw);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    // concat op const -> per part
                    if na.op == Op::Concat {
                        let wb = self.w(na.b);
                        let kh = self.konst(k >> wb, wa - wb);
                        let kl = self.konst(k, wb);
                        let x = self.bin(op, na.a, kh);
                        let y = self.bin(op, na.b, kl);
                        return self.concat(x, y);
                    }
                }
                _ => {}
            }
        }
        if let Some(k) = ka {
            if nb.op == Op::Ite && self.const_tree(b, 6) {
                let x = self.bin(op, a, nb.b);
                let y = self.bin(op, a, nb.c);
                return self.ite(nb.a, x, y);
            }
            match op {
                Op::Ult => {
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let kk = self.konst(k, iw);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
                Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem if k == 0 => return a,
                _ => {}
            }
        }
        if kb.is_none() && ka.is_none() {
            // both zext from same width
            if matches!(op, Op::Eq | Op::Ult | Op::Ule) && na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.bin(op, na.a, nb.a);
            }
            if op == Op::Eq && na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                let x = self.eq(na.a, nb.a);
                let y = self.eq(na.b, nb.b);
                return self.bin(Op::And, x, y);
            }
            if wa == 1 {
                match op {
                    Op::And => {
                        if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                            return self.false_;
                        }
                    }
                    Op::Or => {
                        if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                            return self.true_;
                        }
                    }
                    _ => {}
                }
            }
            // or of disjoint zext / shl (utf-8 decode, int from bytes)
            if op == Op::Or || op == Op::Add || op == Op::Xor {
                if let Some(r) = self.or_concat(a, b, wa).or_else(|| self.or_concat(b, a, wa)) {
                    return r;
                }
            }
        }
        self.intern(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    /// a = Shl(x, s), b <= mask(s)  ->  concat
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let na = self.n(a);
        if na.op != Op::Shl {
            return None;
        }
        let s = self.kv(na.b)? as u32;
        if s == 0 || s >= w || self.umax[b as usize] > mask(s) {
            return None;
        }
        let h = self.extract(na.a, 0, w - s);
        let l = self.extract(b, 0, s);
        Some(self.concat(h, l))
    }

    /// evaluate under a model (values of 8-bit vars)
    pub fn eval_begin(&mut self) {
        self.gen += 1;
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.gen += 1;
        self.eval_in(e, model)
    }
    pub fn eval_in(&mut self, e: E, model: &[u8]) -> u128 {
        let i = e as usize;
        if self.ev_gen[i] == self.gen {
            return self.ev_val[i];
        }
        let n = self.nodes[i];
        let v = match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128,
            Op::Ite => {
                if self.eval_in(n.a, model) == 1 {
                    self.eval_in(n.b, model)
                } else {
                    self.eval_in(n.c, model)
                }
            }
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => {
                let a = self.eval_in(n.a, model);
                let wa = self.nodes[n.a as usize].w;
                fold(n.op, n.w, wa, a, 0, 0, n.c, 0)
            }
            _ => {
                let a = self.eval_in(n.a, model);
                let b = self.eval_in(n.b, model);
                let wa = self.nodes[n.a as usize].w;
                let wb = self.nodes[n.b as usize].w;
                fold(n.op, n.w, wa, a, b, 0, 0, wb)
            }
        };
        self.ev_gen[i] = self.gen;
        self.ev_val[i] = v;
        v
    }

    /// For a boolean over exactly one byte variable: the set of values that satisfy it.
    pub fn byte_set(&mut self, e: E) -> [u64; 4] {
        if let Some(s) = self.sets.get(&e) {
            return *s;
        }
        let v = self.vars[e as usize].trailing_zeros() as usize;
        let mut m = vec![0u8; v + 1];
        let mut s = [0u64; 4];
        for k in 0..256usize {
            m[v] = k as u8;
            if self.eval(e, &m) == 1 {
                s[k >> 6] |= 1 << (k & 63);
            }
        }
        self.sets.insert(e, s);
        s
    }

    /// values of a one-byte term of at most 8 bits, by the byte's value
    pub fn byte_table(&mut self, e: E) -> std::rc::Rc<[u8; 256]> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let v = self.vars[e as usize].trailing_zeros() as usize;
        let mut m = vec![0u8; v + 1];
        let mut t = [0u8; 256];
        for k in 0..256usize {
            m[v] = k as u8;
            t[k] = self.eval(e, &m) as u8;
        }
        let t = std::rc::Rc::new(t);
        self.tabs.insert(e, t.clone());
        t
    }

    pub fn show(&self, e: E) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Extract => format!("{}[{}..{}]", self.show(n.a), n.c, n.c + n.w),
            Op::Not | Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a), self.show(n.b), self.show(n.c)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a), self.show(n.b)),
        }
    }

    pub fn to_bv(&mut self, z: &Z3, e: E) -> Ast {
        if let Some(a) = self.z3c[e as usize] {
            return a;
        }
        let n = self.n(e);
        let r = if n.w == 1 && !matches!(n.op, Op::Extract | Op::Const | Op::Var) {
            let b = self.to_bool(z, e);
            z.bool2bv(b)
        } else {
            match n.op {
                Op::Const => z.konst(n.k, n.w),
                Op::Var => z.var(n.k as u32),
                Op::Ite => {
                    let c = self.to_bool(z, n.a);
                    let a = self.to_bv(z, n.b);
                    let b = self.to_bv(z, n.c);
                    z.ite(c, a, b)
                }
                Op::Not => {
                    let a = self.to_bv(z, n.a);
                    z.bvnot(a)
                }
                Op::ZExt => {
                    let a = self.to_bv(z, n.a);
                    let wa = self.w(n.a);
                    z.zext(n.w - wa, a)
                }
                Op::SExt => {
                    let a = self.to_bv(z, n.a);
                    let wa = self.w(n.a);
                    z.sext(n.w - wa, a)
                }
                Op::Extract => {
                    let a = self.to_bv(z, n.a);
                    z.extract(n.c + n.w - 1, n.c, a)
                }
                _ => {
                    let a = self.to_bv(z, n.a);
                    let b = self.to_bv(z, n.b);
                    z.bin(n.op, a, b)
                }
            }
        };
        self.z3c[e as usize] = Some(r);
        r
    }
    pub fn to_bool(&mut self, z: &Z3, e: E) -> Ast {
        if let Some(a) = self.z3b[e as usize] {
            return a;
        }
        let n = self.n(e);
        debug_assert_eq!(n.w, 1);
        let r = match n.op {
            Op::Const => z.boolc(n.k == 1),
            Op::Not => {
                let a = self.to_bool(z, n.a);
                z.not(a)
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.to_bool(z, n.a);
                let b = self.to_bool(z, n.b);
                z.boolbin(n.op, a, b)
            }
            Op::Ite => {
                let c = self.to_bool(z, n.a);
                let a = self.to_bool(z, n.b);
                let b = self.to_bool(z, n.c);
                z.ite(c, a, b)
            }
            Op::Eq if self.w(n.a) == 1 => {
                let a = self.to_bool(z, n.a);
                let b = self.to_bool(z, n.b);
                z.eq(a, b)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.to_bv(z, n.a);
                let b = self.to_bv(z, n.b);
                z.cmp(n.op, a, b)
            }
            Op::Add | Op::Sub => {
                let a = self.to_bool(z, n.a);
                let b = self.to_bool(z, n.b);
                z.boolbin(Op::Xor, a, b)
            }
            Op::Mul => {
                let a = self.to_bool(z, n.a);
                let b = self.to_bool(z, n.b);
                z.boolbin(Op::And, a, b)
            }
            Op::Extract => {
                let a = self.to_bv(z, e);
                let one = z.konst(1, 1);
                z.eq(a, one)
            }
            _ => panic!("to_bool {:?}", n.op),
        };
        self.z3b[e as usize] = Some(r);
        r
    }
}
