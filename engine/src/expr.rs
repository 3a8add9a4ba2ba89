//! Hash-consed bit-vector expressions with light simplification.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Rotl,
    Rotr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
/// Width 0 = boolean.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum E {
    Const(u64),
    Var(u32),
    Bin(B, u32, u32),
    Cmp(C, u32, u32),
    Not(u32),
    AndB(u32, u32),
    OrB(u32, u32),
    Ite(u32, u32, u32),
    /// low bit, source; the width is the node's
    Extract(u32, u32),
    /// high part, low part
    Concat(u32, u32),
    ZExt(u32),
    SExt(u32),
}
pub struct Arena {
    pub nodes: Vec<(E, u8)>,
    map: HashMap<(E, u8), u32>,
    pub t: u32,
    pub f: u32,
}
pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else if w == 0 {
        1
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}
pub fn eval_bin(op: B, a: u64, b: u64, w: u8) -> u64 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u64
            }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sext(a, w);
            if b >= w as u64 {
                if x < 0 {
                    m
                } else {
                    0
                }
            } else {
                (x >> b) as u64
            }
        }
        B::Rotl => {
            let s = (b % w as u64) as u32;
            if s == 0 {
                a
            } else {
                (a << s) | ((a & m) >> (w as u32 - s))
            }
        }
        B::Rotr => {
            let s = (b % w as u64) as u32;
            if s == 0 {
                a
            } else {
                ((a & m) >> s) | (a << (w as u32 - s))
            }
        }
    };
    r & m
}
pub fn eval_cmp(op: C, a: u64, b: u64, w: u8) -> bool {
    match op {
        C::Eq => a == b,
        C::Ult => a < b,
        C::Ule => a <= b,
        C::Slt => sext(a, w) < sext(b, w),
        C::Sle => sext(a, w) <= sext(b, w),
    }
}
impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![(E::Const(0), 1)],
            map: HashMap::new(),
            t: 0,
            f: 0,
        };
        a.t = a.mk(E::Const(1), 0);
        a.f = a.mk(E::Const(0), 0);
        a
    }
    fn mk(&mut self, e: E, w: u8) -> u32 {
        if let Some(&i) = self.map.get(&(e, w)) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push((e, w));
        self.map.insert((e, w), i);
        i
    }
    pub fn w(&self, i: u32) -> u8 {
        self.nodes[i as usize].1
    }
    pub fn e(&self, i: u32) -> E {
        self.nodes[i as usize].0
    }
    pub fn c(&mut self, v: u64, w: u8) -> u32 {
        self.mk(E::Const(v & mask(w)), w)
    }
    pub fn is_c(&self, i: u32) -> Option<u64> {
        match self.nodes[i as usize].0 {
            E::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn var(&mut self, n: u32, w: u8) -> u32 {
        self.mk(E::Var(n), w)
    }
    pub fn bool(&self, b: bool) -> u32 {
        if b {
            self.t
        } else {
            self.f
        }
    }
    pub fn not(&mut self, a: u32) -> u32 {
        match self.e(a) {
            E::Const(v) => self.bool(v == 0),
            E::Not(x) => x,
            E::Cmp(C::Ult, x, y) => self.cmp(C::Ule, y, x),
            E::Cmp(C::Ule, x, y) => self.cmp(C::Ult, y, x),
            E::Cmp(C::Slt, x, y) => self.cmp(C::Sle, y, x),
            E::Cmp(C::Sle, x, y) => self.cmp(C::Slt, y, x),
            _ => self.mk(E::Not(a), 0),
        }
    }
    pub fn andb(&mut self, a: u32, b: u32) -> u32 {
        if a == self.f || b == self.f {
            return self.f;
        }
        if a == self.t || a == b {
            return b;
        }
        if b == self.t {
            return a;
        }
        self.mk(E::AndB(a.min(b), a.max(b)), 0)
    }
    pub fn orb(&mut self, a: u32, b: u32) -> u32 {
        if a == self.t || b == self.t {
            return self.t;
        }
        if a == self.f || a == b {
            return b;
        }
        if b == self.f {
            return a;
        }
        self.mk(E::OrB(a.min(b), a.max(b)), 0)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if let Some(v) = self.is_c(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let E::Not(x) = self.e(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        self.mk(E::Ite(c, a, b), w)
    }
    /// bool -> bit-vector 0/1
    pub fn b2i(&mut self, b: u32, w: u8) -> u32 {
        let one = self.c(1, w);
        let zero = self.c(0, w);
        self.ite(b, one, zero)
    }
    /// `e != 0`
    pub fn nonzero(&mut self, e: u32) -> u32 {
        let z = self.c(0, self.w(e));
        let q = self.cmp(C::Eq, e, z);
        self.not(q)
    }
    /// is `e` of the form ite(c, 1, 0) (or 0, 1)?
    fn as_b2i(&mut self, e: u32) -> Option<u32> {
        match self.e(e) {
            E::Ite(c, a, b) => match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => Some(c),
                (Some(0), Some(1)) => Some(self.not(c)),
                _ => None,
            },
            E::Const(1) => Some(self.t),
            E::Const(0) => Some(self.f),
            E::ZExt(x) => self.as_b2i(x),
            _ => None,
        }
    }
    pub fn cmp(&mut self, op: C, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "cmp widths");
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            return self.bool(eval_cmp(op, x, y, w));
        }
        if a == b {
            return self.bool(matches!(op, C::Eq | C::Ule | C::Sle));
        }
        // constants to the right for Eq
        let (a, b) = if op == C::Eq && self.is_c(a).is_some() {
            (b, a)
        } else {
            (a, b)
        };
        if op == C::Ult && self.is_c(b) == Some(0) {
            return self.f;
        }
        if op == C::Ule && self.is_c(a) == Some(0) {
            return self.t;
        }
        // comparisons of ite(c, const, const) with a constant
        for (x, k, flip) in [(a, b, false), (b, a, true)] {
            if let (E::Ite(c, p, q), Some(kv)) = (self.e(x), self.is_c(k)) {
                if let (Some(pv), Some(qv)) = (self.is_c(p), self.is_c(q)) {
                    let (rp, rq) = if flip {
                        (eval_cmp(op, kv, pv, w), eval_cmp(op, kv, qv, w))
                    } else {
                        (eval_cmp(op, pv, kv, w), eval_cmp(op, qv, kv, w))
                    };
                    return match (rp, rq) {
                        (true, true) => self.t,
                        (false, false) => self.f,
                        (true, false) => c,
                        (false, true) => self.not(c),
                    };
                }
            }
        }
        // narrow comparisons through zero extension
        let za = if let E::ZExt(x) = self.e(a) { Some(x) } else { None };
        let zb = if let E::ZExt(x) = self.e(b) { Some(x) } else { None };
        let uop = match op {
            // zero-extended values are non-negative at the wider width
            C::Slt => C::Ult,
            C::Sle => C::Ule,
            o => o,
        };
        match (za, zb) {
            (Some(x), Some(y)) if self.w(x) == self.w(y) => return self.cmp(uop, x, y),
            (Some(x), None) => {
                if let Some(k) = self.is_c(b) {
                    let nw = self.w(x);
                    if k <= mask(nw) {
                        let kc = self.c(k, nw);
                        return self.cmp(uop, x, kc);
                    } else {
                        return match op {
                            C::Eq => self.f,
                            C::Ult | C::Ule => self.t,
                            C::Slt | C::Sle => self.bool(sext(k, w) > 0),
                        };
                    }
                }
            }
            (None, Some(y)) => {
                if let Some(k) = self.is_c(a) {
                    let nw = self.w(y);
                    if k <= mask(nw) {
                        let kc = self.c(k, nw);
                        return self.cmp(uop, kc, y);
                    } else {
                        return match op {
                            C::Eq => self.f,
                            C::Ult | C::Ule => self.f,
                            C::Slt | C::Sle => self.bool(sext(k, w) < 0),
                        };
                    }
                }
            }
            _ => {}
        }
        if op == C::Eq {
            // (x + c1) == c2, (x ^ c1) == c2
            if let (E::Bin(bop, x, k1), Some(k2)) = (self.e(a), self.is_c(b)) {
                if let Some(k1) = self.is_c(k1) {
                    match bop {
                        B::Add => {
                            let k = self.c(k2.wrapping_sub(k1), w);
                            return self.cmp(C::Eq, x, k);
                        }
                        B::Xor => {
                            let k = self.c(k2 ^ k1, w);
                            return self.cmp(C::Eq, x, k);
                        }
                        _ => {}
                    }
                }
            }
            let (a, b) = if self.is_c(b).is_some() {
                (a, b)
            } else {
                (a.min(b), a.max(b))
            };
            return self.mk(E::Cmp(op, a, b), 0);
        }
        self.mk(E::Cmp(op, a, b), 0)
    }
    pub fn bin(&mut self, op: B, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin widths");
        let (ca, cb) = (self.is_c(a), self.is_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(eval_bin(op, x, y, w), w);
        }
        let commut = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        let (a, b, ca, cb) = if commut && ca.is_some() {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        let _ = ca;
        if let Some(k) = cb {
            match op {
                B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr | B::Rotl
                | B::Rotr
                    if k == 0 =>
                {
                    return a
                }
                B::Mul | B::And if k == 0 => return self.c(0, w),
                B::Mul | B::UDiv if k == 1 => return a,
                B::And if k == mask(w) => return a,
                B::Or if k == mask(w) => return self.c(k, w),
                _ => {}
            }
            if op == B::Sub {
                let k = self.c(k.wrapping_neg(), w);
                return self.bin(B::Add, a, k);
            }
            if op == B::Add {
                if let E::Bin(B::Add, x, k1) = self.e(a) {
                    if let Some(k1) = self.is_c(k1) {
                        let k = self.c(k.wrapping_add(k1), w);
                        return self.bin(B::Add, x, k);
                    }
                }
            }
            // x & (2^n - 1) = zext(extract)
            if op == B::And && (k & (k.wrapping_add(1))) == 0 {
                let n = 64 - k.leading_zeros();
                if n < w as u32 {
                    let lo = self.extract(a, 0, n as u8);
                    return self.zext(lo, w);
                }
            }
            if op == B::URem && k.is_power_of_two() {
                let kk = self.c(k - 1, w);
                return self.bin(B::And, a, kk);
            }
            if (op == B::And || op == B::Or || op == B::Xor) && k == 1 {
                if let Some(c) = self.as_b2i(a) {
                    match op {
                        B::And => return self.b2i(c, w),
                        B::Xor => {
                            let n = self.not(c);
                            return self.b2i(n, w);
                        }
                        _ => return self.c(1, w),
                    }
                }
            }
            // push into ite of constants
            if let E::Ite(c, p, q) = self.e(a) {
                if let (Some(pv), Some(qv)) = (self.is_c(p), self.is_c(q)) {
                    let x = self.c(eval_bin(op, pv, k, w), w);
                    let y = self.c(eval_bin(op, qv, k, w), w);
                    return self.ite(c, x, y);
                }
            }
            // logical shift right by whole zero-extended part
            if op == B::LShr {
                if k >= w as u64 {
                    return self.c(0, w);
                }
                let hi = self.extract(a, k as u8, w - k as u8);
                return self.zext(hi, w);
            }
            if op == B::Shl {
                if k >= w as u64 {
                    return self.c(0, w);
                }
                let lo = self.extract(a, 0, w - k as u8);
                let z = self.c(0, k as u8);
                return self.concat(lo, z);
            }
        }
        if a == b {
            match op {
                B::Sub | B::Xor => return self.c(0, w),
                B::And | B::Or => return a,
                _ => {}
            }
        }
        if matches!(op, B::And | B::Or | B::Xor) && cb.is_none() {
            let is_b = |s: &mut Self, e| match s.e(e) {
                E::Const(_) => None,
                _ => s.as_b2i(e),
            };
            if let (Some(x), Some(y)) = (is_b(self, a), is_b(self, b)) {
                let r = match op {
                    B::And => self.andb(x, y),
                    B::Or => self.orb(x, y),
                    _ => {
                        let n = self.not(y);
                        self.ite_b(x, n, y)
                    }
                };
                return self.b2i(r, w);
            }
            // disjoint or: (zext lo) | (hi << k)
            if op == B::Or {
                for (p, q) in [(a, b), (b, a)] {
                    if let (E::ZExt(lo), E::Concat(hi, z)) = (self.e(p), self.e(q)) {
                        let zw = self.w(z);
                        if self.is_c(z) == Some(0) && self.w(lo) <= zw {
                            let lo2 = self.zext(lo, zw);
                            return self.concat(hi, lo2);
                        }
                    }
                }
            }
        }
        let (a, b) = if commut && cb.is_none() {
            (a.min(b), a.max(b))
        } else {
            (a, b)
        };
        self.mk(E::Bin(op, a, b), w)
    }
    fn ite_b(&mut self, c: u32, a: u32, b: u32) -> u32 {
        // boolean if-then-else
        if let Some(v) = self.is_c(c) {
            return if v != 0 { a } else { b };
        }
        let x = self.andb(c, a);
        let nc = self.not(c);
        let y = self.andb(nc, b);
        self.orb(x, y)
    }
    pub fn extract(&mut self, a: u32, lo: u8, w: u8) -> u32 {
        let aw = self.w(a);
        debug_assert!(lo as u32 + w as u32 <= aw as u32 && w > 0);
        if lo == 0 && w == aw {
            return a;
        }
        match self.e(a) {
            E::Const(v) => self.c(v >> lo, w),
            E::Extract(l2, x) => self.extract(x, l2 as u8 + lo, w),
            E::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.c(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let p = self.extract(x, lo, xw - lo);
                    self.zext(p, w)
                }
            }
            E::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let p = self.extract(l, lo, lw - lo);
                    let q = self.extract(h, 0, lo + w - lw);
                    self.concat(q, p)
                }
            }
            E::Ite(c, p, q) if self.is_c(p).is_some() || self.is_c(q).is_some() => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                self.ite(c, x, y)
            }
            E::Bin(op, p, q) if lo == 0 && matches!(op, B::And | B::Or | B::Xor | B::Add | B::Sub) => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                self.bin(op, x, y)
            }
            E::Bin(op, p, q) if matches!(op, B::And | B::Or | B::Xor) => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                self.bin(op, x, y)
            }
            _ => self.mk(E::Extract(lo as u32, a), w),
        }
    }
    pub fn concat(&mut self, h: u32, l: u32) -> u32 {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        debug_assert!(w as u32 <= 64);
        if let (Some(x), Some(y)) = (self.is_c(h), self.is_c(l)) {
            return self.c((x << lw) | y, w);
        }
        if self.is_c(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (E::Extract(hl, x), E::Extract(ll, y)) = (self.e(h), self.e(l)) {
            if x == y && hl == ll + lw as u32 {
                return self.extract(x, ll as u8, w);
            }
        }
        // (extract hi x) ++ x[0..] when l is the low part itself is covered by Extract above;
        // nested: (h ++ (m ++ l'))
        if let E::Concat(m, l2) = self.e(l) {
            if let (E::Extract(hl, x), E::Extract(ml, y)) = (self.e(h), self.e(m)) {
                if x == y && hl == ml + self.w(m) as u32 {
                    let hm = self.extract(x, ml as u8, hw + self.w(m));
                    return self.concat(hm, l2);
                }
            }
        }
        self.mk(E::Concat(h, l), w)
    }
    pub fn zext(&mut self, a: u32, w: u8) -> u32 {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.e(a) {
            E::Const(v) => self.c(v, w),
            E::ZExt(x) => self.zext(x, w),
            E::Ite(c, p, q) if self.is_c(p).is_some() && self.is_c(q).is_some() => {
                let x = self.zext(p, w);
                let y = self.zext(q, w);
                self.ite(c, x, y)
            }
            _ => self.mk(E::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: u32, w: u8) -> u32 {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.e(a) {
            E::Const(v) => self.c(sext(v, aw) as u64, w),
            E::ZExt(x) => self.zext(x, w),
            E::Ite(c, p, q) if self.is_c(p).is_some() && self.is_c(q).is_some() => {
                let x = self.sext(p, w);
                let y = self.sext(q, w);
                self.ite(c, x, y)
            }
            _ => self.mk(E::SExt(a), w),
        }
    }
    /// Evaluate under an assignment of the variables.
    pub fn eval(&self, e: u32, model: &[u64], memo: &mut HashMap<u32, u64>) -> u64 {
        let (n, w) = self.nodes[e as usize];
        match n {
            E::Const(v) => return v,
            E::Var(i) => return model.get(i as usize).copied().unwrap_or(0) & mask(w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let r = match n {
            E::Const(_) | E::Var(_) => unreachable!(),
            E::Bin(op, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                eval_bin(op, x, y, w)
            }
            E::Cmp(op, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                eval_cmp(op, x, y, self.w(a)) as u64
            }
            E::Not(a) => 1 - self.eval(a, model, memo),
            E::AndB(a, b) => self.eval(a, model, memo) & self.eval(b, model, memo),
            E::OrB(a, b) => self.eval(a, model, memo) | self.eval(b, model, memo),
            E::Ite(c, a, b) => {
                if self.eval(c, model, memo) != 0 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            E::Extract(lo, a) => (self.eval(a, model, memo) >> lo) & mask(w),
            E::Concat(h, l) => {
                (self.eval(h, model, memo) << self.w(l)) | self.eval(l, model, memo)
            }
            E::ZExt(a) => self.eval(a, model, memo),
            E::SExt(a) => (sext(self.eval(a, model, memo), self.w(a)) as u64) & mask(w),
        };
        memo.insert(e, r);
        r
    }
    /// Partially evaluate with some sub-expressions known to be constants.
    pub fn subst(
        &mut self,
        e: u32,
        known: &HashMap<u32, u64>,
        memo: &mut HashMap<u32, u32>,
    ) -> u32 {
        let (n, w) = self.nodes[e as usize];
        if let E::Const(_) = n {
            return e;
        }
        if let Some(&v) = known.get(&e) {
            return self.c(v, w);
        }
        if let E::Var(_) = n {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let r = match n {
            E::Const(_) | E::Var(_) => e,
            E::Bin(op, a, b) => {
                let (x, y) = (self.subst(a, known, memo), self.subst(b, known, memo));
                if x == a && y == b {
                    e
                } else {
                    self.bin(op, x, y)
                }
            }
            E::Cmp(op, a, b) => {
                let (x, y) = (self.subst(a, known, memo), self.subst(b, known, memo));
                if x == a && y == b {
                    e
                } else {
                    self.cmp(op, x, y)
                }
            }
            E::Not(a) => {
                let x = self.subst(a, known, memo);
                if x == a {
                    e
                } else {
                    self.not(x)
                }
            }
            E::AndB(a, b) => {
                let (x, y) = (self.subst(a, known, memo), self.subst(b, known, memo));
                self.andb(x, y)
            }
            E::OrB(a, b) => {
                let (x, y) = (self.subst(a, known, memo), self.subst(b, known, memo));
                self.orb(x, y)
            }
            E::Ite(c, a, b) => {
                let z = self.subst(c, known, memo);
                if let Some(v) = self.is_c(z) {
                    if v != 0 {
                        self.subst(a, known, memo)
                    } else {
                        self.subst(b, known, memo)
                    }
                } else {
                    let (x, y) = (self.subst(a, known, memo), self.subst(b, known, memo));
                    self.ite(z, x, y)
                }
            }
            E::Extract(lo, a) => {
                let x = self.subst(a, known, memo);
                if x == a {
                    e
                } else {
                    self.extract(x, lo as u8, w)
                }
            }
            E::Concat(h, l) => {
                let (x, y) = (self.subst(h, known, memo), self.subst(l, known, memo));
                if x == h && y == l {
                    e
                } else {
                    self.concat(x, y)
                }
            }
            E::ZExt(a) => {
                let x = self.subst(a, known, memo);
                if x == a {
                    e
                } else {
                    self.zext(x, w)
                }
            }
            E::SExt(a) => {
                let x = self.subst(a, known, memo);
                if x == a {
                    e
                } else {
                    self.sext(x, w)
                }
            }
        };
        memo.insert(e, r);
        r
    }
}
