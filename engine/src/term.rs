//! Hash-consed terms: bit-vectors (width 1..=128), booleans (width 1) and mathematical integers (width 0).
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32), // index in var table
    Bin(B, T, T),
    Eq(T, T),
    Ult(T, T),
    Ule(T, T),
    Slt(T, T),
    Sle(T, T),
    Ite(T, T, T),
    Concat(T, T), // hi, lo
    Extract(T, u16), // lo bit; width from node
    ZExt(T),
    SExt(T),
    /// bit-vector holding an integer known to be within [0, 2^w)
    I2B(T),
    // integer sort
    IVar(u32),
    /// polynomial: sum of coeff * product(atoms); sorted
    Poly(Rc<Vec<(Vec<T>, BigInt)>>),
    IDiv(T, T), // floor division, divisor > 0 asserted by creator
    IMod(T, T),
    B2I(T),
    // boolean over integers
    ILe(T, T), // a <= b
    IEq(T, T),
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u16, // 0 = integer
    pub lo: Option<BigInt>,
    pub hi: Option<BigInt>,
}

pub struct Node {
    pub n: N,
    pub w: u16,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MV {
    B(u128),
    N(BigInt),
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u16), T>,
    pub vars: Vec<VarInfo>,
    supp: HashMap<T, Rc<Vec<u32>>>,
    tables: HashMap<T, Rc<[u64; 4]>>,
    ranges: HashMap<T, (Option<BigInt>, Option<BigInt>)>,
    clamps: HashMap<T, (BigInt, BigInt)>,
    hasint: HashMap<T, bool>,
    /// integer variables standing for byte term - base
    pub twins: HashMap<u32, (T, u64)>,
    /// integer variables standing for another term on the paths where it lies within their range
    pub narrowed: HashMap<u32, T>,
    pub nonlin: HashMap<T, bool>,
    pub rootc: HashMap<T, Rc<Vec<u32>>>,
    pub itables: HashMap<(T, [u64; 4]), Rc<[u64; 4]>>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn bin_const(op: B, a: u128, b: u128, w: u16) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        B::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        B::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                return None;
            }
            (x.wrapping_div(y) as u128) & m
        }
        B::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                return None;
            }
            (x.wrapping_rem(y) as u128) & m
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = sext128(a, w);
            let sh = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((s >> sh) as u128) & m
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    })
}

impl Terms {
    pub fn new() -> Terms {
        Terms {
            nodes: Vec::new(),
            map: HashMap::new(),
            vars: Vec::new(),
            supp: HashMap::new(),
            tables: HashMap::new(),
            ranges: HashMap::new(),
            clamps: HashMap::new(),
            hasint: HashMap::new(),
            twins: HashMap::new(),
            narrowed: HashMap::new(),
            rootc: HashMap::new(),
            nonlin: HashMap::new(),
            itables: HashMap::new(),
        }
    }
    fn mk(&mut self, n: N, w: u16) -> T {
        if let Some(&t) = self.map.get(&(n.clone(), w)) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.map.insert((n.clone(), w), t);
        self.nodes.push(Node { n, w });
        t
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn n(&self, t: T) -> &N {
        &self.nodes[t as usize].n
    }
    pub fn cst(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].n {
            N::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn c(&mut self, v: u128, w: u16) -> T {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn tru(&mut self) -> T {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.c(0, 1)
    }
    pub fn var(&mut self, idx: u32) -> T {
        let w = self.vars[idx as usize].w;
        if w == 0 {
            self.mk(N::IVar(idx), 0)
        } else {
            self.mk(N::Var(idx), w)
        }
    }
    pub fn is_bool_known(&self, t: T) -> Option<bool> {
        self.cst(t).map(|c| c != 0)
    }
    pub fn not(&mut self, a: T) -> T {
        debug_assert!(self.w(a) == 1);
        if let Some(c) = self.cst(a) {
            return self.c(c ^ 1, 1);
        }
        match self.n(a).clone() {
            N::Bin(B::Xor, x, y) if self.cst(y) == Some(1) => return x,
            N::Ult(x, y) => return self.ule(y, x),
            N::Ule(x, y) => return self.ult(y, x),
            N::Slt(x, y) => return self.sle(y, x),
            N::Sle(x, y) => return self.slt(y, x),
            _ => {}
        }
        let one = self.c(1, 1);
        self.mk(N::Bin(B::Xor, a, one), 1)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(B::Or, a, b)
    }

    /// view of a BV term as I2B(int) if possible
    fn as_i2b(&mut self, t: T) -> Option<T> {
        match self.n(t).clone() {
            N::I2B(i) => Some(i),
            N::Const(c) => Some(self.iconst(&BigInt::from(c))),
            _ => None,
        }
    }
    fn has_i2b(&self, t: T) -> bool {
        matches!(self.n(t), N::I2B(_))
    }
    /// an integer term twin + c, with twin standing for byte - base, as a bit-vector over the byte itself
    fn untwin(&mut self, i: T, w: u16) -> Option<T> {
        let (v, c) = match self.n(i) {
            N::IVar(v) => (*v, BigInt::zero()),
            N::Poly(p) if p.len() <= 2 => {
                let (mut v, mut c) = (None, BigInt::zero());
                for (m, k) in p.iter() {
                    if m.is_empty() {
                        c = k.clone();
                    } else if m.len() == 1 && k.is_one() {
                        match self.n(m[0]) {
                            N::IVar(x) if v.is_none() => v = Some(*x),
                            _ => return None,
                        }
                    } else {
                        return None;
                    }
                }
                (v?, c)
            }
            _ => return None,
        };
        let (t, base) = *self.twins.get(&v)?;
        let k = c - BigInt::from(base);
        let t = if w > self.w(t) { self.zext(t, w) } else { t };
        let m = BigInt::one() << w as usize;
        let kk = k.mod_floor(&m).to_u128()?;
        let kc = self.c(kk, w);
        Some(self.bin(B::Add, t, kc))
    }
    pub fn i2b(&mut self, i: T, w: u16) -> Option<T> {
        let (lo, hi) = self.range(i);
        match (lo, hi) {
            (Some(lo), Some(hi)) if !lo.is_negative() && hi < (BigInt::one() << w as usize) => {
                if let Some(c) = self.iconst_val(i) {
                    let v = c.to_u128().unwrap();
                    return Some(self.c(v, w));
                }
                if w >= 8 {
                    if let Some(t) = self.untwin(i, w) {
                        return Some(t);
                    }
                }
                Some(self.mk(N::I2B(i), w))
            }
            _ => None,
        }
    }

    pub fn bin(&mut self, op: B, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin {:?}", op);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = bin_const(op, x, y, w) {
                return self.c(r, w);
            }
        }
        // canonical order: constant on the right for commutative operators
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            if ca.is_some() && cb.is_none() || (ca.is_none() && cb.is_none()) {
                return self.bin2(op, b, a, w);
            }
        }
        self.bin2(op, a, b, w)
    }
    fn bin2(&mut self, op: B, a: T, b: T, w: u16) -> T {
        let ca = self.cst(a);
        let cb = self.cst(b);
        let m = mask(w);
        if (self.has_i2b(a) || self.has_i2b(b)) && w > 1 {
            if let (Some(x), Some(y)) = (self.as_i2b(a), self.as_i2b(b)) {
                let r = match op {
                    B::Add => {
                        // allow "negative" constants
                        let y2 = match cb {
                            Some(c) if w >= 8 && c >> (w - 1) == 1 => {
                                self.iconst(&(BigInt::from(c) - (BigInt::one() << w as usize)))
                            }
                            _ => y,
                        };
                        Some(self.iadd(x, y2))
                    }
                    B::Sub => Some(self.isub(x, y)),
                    B::Mul => Some(self.imul(x, y)),
                    B::UDiv if cb.map_or(false, |c| c > 0) => Some(self.idiv(x, y)),
                    B::URem if cb.map_or(false, |c| c > 0) => Some(self.imod(x, y)),
                    B::Shl if cb.map_or(false, |c| c < 64) => {
                        let k = self.iconst(&(BigInt::one() << cb.unwrap() as usize));
                        Some(self.imul(x, k))
                    }
                    B::LShr if cb.map_or(false, |c| c < w as u128) => {
                        let k = self.iconst(&(BigInt::one() << cb.unwrap() as usize));
                        Some(self.idiv(x, k))
                    }
                    B::And if cb.map_or(false, |c| c != 0 && (c & (c + 1)) == 0 && c != !0) => {
                        let k = self.iconst(&(BigInt::from(cb.unwrap()) + 1));
                        Some(self.imod(x, k))
                    }
                    B::And | B::Or | B::Xor if cb.is_some() && w <= 64 => {
                        // the affected bits are the same for the whole range
                        let c = cb.unwrap();
                        let hit = if op == B::And { !c & m } else { c };
                        match self.range(x) {
                            (Some(lo), Some(hi)) if hit != 0 => {
                                let (l, h) = (lo.to_u128().unwrap_or(0), hi.to_u128().unwrap_or(0));
                                let low = hit.trailing_zeros();
                                if l >> low == h >> low {
                                    let v = bin_const(op, l, c, w).unwrap();
                                    let k = self.iconst(&(BigInt::from(v) - BigInt::from(l)));
                                    Some(self.iadd(x, k))
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(i) = r {
                    if let Some(t) = self.i2b(i, w) {
                        return t;
                    }
                    // wrapped by a known single multiple?
                    let (lo, hi) = self.range(i);
                    if let (Some(lo), Some(hi)) = (lo, hi) {
                        let modu = BigInt::one() << w as usize;
                        let k1 = lo.div_floor(&modu);
                        let k2 = hi.div_floor(&modu);
                        if k1 == k2 {
                            let off = self.iconst(&(-(k1 * modu)));
                            let j = self.iadd(i, off);
                            if let Some(t) = self.i2b(j, w) {
                                return t;
                            }
                        }
                    }
                }
            }
        }
        match op {
            B::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if let N::Bin(B::Add, x, y) = *self.n(a) {
                        if let Some(d) = self.cst(y) {
                            let k = self.c(c.wrapping_add(d) & m, w);
                            return self.bin(B::Add, x, k);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
            }
            B::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(c) = cb {
                    let k = self.c(c.wrapping_neg() & m, w);
                    return self.bin(B::Add, a, k);
                }
                // (x + c) - x
                if let N::Bin(B::Add, x, y) = *self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    // (x + c) - (x + d)
                    if let N::Bin(B::Add, x2, y2) = *self.n(b) {
                        if x == x2 {
                            return self.bin(B::Sub, y, y2);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
            }
            B::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if w == 1 {
                    return self.bin(B::And, a, b);
                }
            }
            B::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    match self.n(a).clone() {
                        N::Bin(B::And, x, y) if self.cst(y).is_some() => {
                            let d = self.cst(y).unwrap();
                            let k = self.c(c & d, w);
                            return self.bin(B::And, x, k);
                        }
                        N::ZExt(x) => {
                            let wx = self.w(x);
                            let k = self.c(c & mask(wx), wx);
                            let y = self.bin(B::And, x, k);
                            return self.zext(y, w);
                        }
                        N::Concat(h, l) => {
                            let wl = self.w(l);
                            let wh = self.w(h);
                            let kh = self.c(c >> wl, wh);
                            let kl = self.c(c & mask(wl), wl);
                            let nh = self.bin(B::And, h, kh);
                            let nl = self.bin(B::And, l, kl);
                            return self.concat(nh, nl);
                        }
                        _ => {}
                    }
                    // low mask => zext(extract)
                    if c & (c + 1) == 0 && w > 1 {
                        let bits = 128 - c.leading_zeros();
                        let e = self.extract(a, 0, bits as u16);
                        return self.zext(e, w);
                    }
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.fls();
                    }
                }
            }
            B::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.tru();
                    }
                }
                // or of disjoint zext / shl parts => concat
                if let Some(t) = self.or_concat(a, b, w) {
                    return t;
                }
                if let Some(t) = self.or_concat(b, a, w) {
                    return t;
                }
            }
            B::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if let N::Bin(B::Xor, x, y) = *self.n(a) {
                        if let Some(d) = self.cst(y) {
                            let k = self.c(c ^ d, w);
                            return self.bin(B::Xor, x, k);
                        }
                    }
                    if w == 1 && c == 1 {
                        return self.not_raw(a);
                    }
                    if c == mask(w) && w <= 64 {
                        if let N::I2B(i) = *self.n(a) {
                            let k = self.iconst(&BigInt::from(c));
                            let d = self.isub(k, i);
                            self.clamp(d, BigInt::zero(), BigInt::from(c));
                            if let Some(t) = self.i2b(d, w) {
                                return t;
                            }
                        }
                    }
                }
            }
            B::Shl | B::LShr | B::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if c >= w as u128 {
                        if op != B::AShr {
                            return self.c(0, w);
                        }
                    } else {
                        let k = c as u16;
                        match op {
                            B::Shl => {
                                let e = self.extract(a, 0, w - k);
                                let z = self.c(0, k);
                                return self.concat(e, z);
                            }
                            B::LShr => {
                                let e = self.extract(a, k, w - k);
                                return self.zext(e, w);
                            }
                            _ => {
                                let e = self.extract(a, k, w - k);
                                return self.sext(e, w);
                            }
                        }
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            B::UDiv | B::SDiv => {
                if cb == Some(1) {
                    return a;
                }
                if op == B::UDiv {
                    if let Some(c) = cb {
                        if c != 0 && c & (c - 1) == 0 {
                            let k = self.c(c.trailing_zeros() as u128, w);
                            return self.bin(B::LShr, a, k);
                        }
                        // narrow
                        if let Some((x, wx)) = self.narrow(a) {
                            if c <= mask(wx) {
                                let k = self.c(c, wx);
                                let r = self.bin(B::UDiv, x, k);
                                return self.zext(r, w);
                            } else {
                                return self.c(0, w);
                            }
                        }
                    }
                }
            }
            B::URem | B::SRem => {
                if cb == Some(1) {
                    return self.c(0, w);
                }
                if op == B::URem {
                    if let Some(c) = cb {
                        if c != 0 && c & (c - 1) == 0 {
                            let k = self.c(c - 1, w);
                            return self.bin(B::And, a, k);
                        }
                        if let Some((x, wx)) = self.narrow(a) {
                            if c <= mask(wx) {
                                let k = self.c(c, wx);
                                let r = self.bin(B::URem, x, k);
                                return self.zext(r, w);
                            } else {
                                return a;
                            }
                        }
                    }
                }
            }
        }
        // push a binary operation with a constant into an ite of constants
        if cb.is_some() {
            if let N::Ite(c, x, y) = *self.n(a) {
                if self.cst(x).is_some() && self.cst(y).is_some() {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        self.mk(N::Bin(op, a, b), w)
    }
    fn not_raw(&mut self, a: T) -> T {
        match self.n(a).clone() {
            N::Ult(x, y) => return self.ule(y, x),
            N::Ule(x, y) => return self.ult(y, x),
            N::Slt(x, y) => return self.sle(y, x),
            N::Sle(x, y) => return self.slt(y, x),
            N::Bin(B::Xor, x, y) if self.cst(y) == Some(1) => return x,
            _ => {}
        }
        let one = self.c(1, 1);
        self.mk(N::Bin(B::Xor, a, one), 1)
    }
    fn narrow(&self, a: T) -> Option<(T, u16)> {
        match *self.n(a) {
            N::ZExt(x) => Some((x, self.w(x))),
            _ => None,
        }
    }
    fn or_concat(&mut self, a: T, b: T, w: u16) -> Option<T> {
        // a = concat(h, 0_k), b = zext(l) with width(l) <= k
        if let N::Concat(h, z) = *self.n(a) {
            if self.cst(z) == Some(0) {
                let k = self.w(z);
                let lo_part = match self.n(b).clone() {
                    N::ZExt(l) if self.w(l) <= k => Some(self.zext(l, k)),
                    N::Const(c) if c <= mask(k) => Some(self.c(c, k)),
                    N::Concat(h2, l2) => {
                        // zext representation of concat with zero high
                        if self.cst(h2) == Some(0) && self.w(l2) <= k {
                            Some(self.zext(l2, k))
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some(l) = lo_part {
                    let r = self.concat(h, l);
                    debug_assert_eq!(self.w(r), w);
                    return Some(r);
                }
            }
        }
        None
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x == y) as u128, 1);
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        if w == 1 {
            if let Some(c) = cb {
                return if c == 1 { a } else { self.not(a) };
            }
        }
        if self.has_i2b(a) || self.has_i2b(b) {
            if let (Some(x), Some(y)) = (self.as_i2b(a), self.as_i2b(b)) {
                return self.ieq(x, y);
            }
        }
        if let Some(c) = cb {
            match self.n(a).clone() {
                N::ZExt(x) => {
                    let wx = self.w(x);
                    if c > mask(wx) {
                        return self.fls();
                    }
                    let k = self.c(c, wx);
                    return self.eq(x, k);
                }
                N::SExt(x) => {
                    let wx = self.w(x);
                    let lo = c & mask(wx);
                    if (sext128(lo, wx) as u128) & mask(w) != c {
                        return self.fls();
                    }
                    let k = self.c(lo, wx);
                    return self.eq(x, k);
                }
                N::Concat(h, l) => {
                    let wl = self.w(l);
                    let wh = self.w(h);
                    let kl = self.c(c & mask(wl), wl);
                    let kh = self.c(c >> wl, wh);
                    let e1 = self.eq(h, kh);
                    let e2 = self.eq(l, kl);
                    return self.and(e1, e2);
                }
                N::Bin(B::Add, x, y) if self.cst(y).is_some() => {
                    let d = self.cst(y).unwrap();
                    let k = self.c(c.wrapping_sub(d) & mask(w), w);
                    return self.eq(x, k);
                }
                N::Bin(B::Xor, x, y) if self.cst(y).is_some() => {
                    let d = self.cst(y).unwrap();
                    let k = self.c(c ^ d, w);
                    return self.eq(x, k);
                }
                N::Ite(q, x, y) => {
                    let (cx, cy) = (self.cst(x), self.cst(y));
                    if cx.is_some() || cy.is_some() {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(y, b);
                        return self.ite(q, e1, e2);
                    }
                }
                _ => {}
            }
        } else {
            match (self.n(a).clone(), self.n(b).clone()) {
                (N::ZExt(x), N::ZExt(y)) => {
                    let (wx, wy) = (self.w(x), self.w(y));
                    let m = wx.max(wy);
                    let p = self.zext(x, m);
                    let q = self.zext(y, m);
                    return self.eq(p, q);
                }
                (N::Concat(h1, l1), N::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                    let e1 = self.eq(h1, h2);
                    let e2 = self.eq(l1, l2);
                    return self.and(e1, e2);
                }
                (N::Bin(B::Add, x, y), N::Bin(B::Add, x2, y2)) if x == x2 => {
                    return self.eq(y, y2);
                }
                _ => {}
            }
        }
        let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Eq(a, b), 1)
    }
    /// i2b(i) + k u< c as a condition on integers
    /// t = 0 - I2B(i): i
    fn neg_i2b(&self, t: T) -> Option<T> {
        if let N::Bin(B::Sub, x, y) = *self.n(t) {
            if let (Some(0), N::I2B(i)) = (self.cst(x), self.n(y)) {
                return Some(*i);
            }
        }
        None
    }
    /// a bit-vector read as a signed integer, as (condition that this form applies or None if always, value) pairs
    /// whose conditions exclude each other and cover everything
    fn signed(&mut self, t: T) -> Option<Vec<(Option<T>, T)>> {
        let w = self.w(t) as usize;
        if w == 1 || w > 64 {
            return None;
        }
        if let Some(c) = self.cst(t) {
            return Some(vec![(None, self.iconst(&BigInt::from(sext128(c, w as u16))))]);
        }
        let half = BigInt::one() << (w - 1);
        let full = BigInt::one() << w;
        let (i, neg) = match *self.n(t) {
            N::I2B(i) => (i, false),
            _ => (self.neg_i2b(t)?, true),
        };
        let (_, hi) = self.range(i);
        let hi = hi?;
        let n = self.ineg(i);
        let f = self.iconst(&full);
        if neg {
            if hi <= half {
                return Some(vec![(None, n)]);
            }
            let h = self.iconst(&half);
            let c = self.ile(i, h);
            let nc = self.not(c);
            let v = self.iadd(f, n);
            return Some(vec![(Some(c), n), (Some(nc), v)]);
        }
        if hi < half {
            return Some(vec![(None, i)]);
        }
        let h = self.iconst(&half);
        let c = self.ilt(i, h);
        let nc = self.not(c);
        let nf = self.ineg(f);
        let v = self.iadd(i, nf);
        Some(vec![(Some(c), i), (Some(nc), v)])
    }
    fn slt_int(&mut self, a: T, b: T) -> Option<T> {
        if self.cst(a).is_none() && self.cst(b).is_none() {
            let plain = |v: &Vec<(Option<T>, T)>| v.len() == 1;
            let (x, y) = (self.signed(a)?, self.signed(b)?);
            if plain(&x) && plain(&y) {
                return Some(self.ilt(x[0].1, y[0].1));
            }
            return None;
        }
        let (x, y) = (self.signed(a)?, self.signed(b)?);
        let mut r = self.fls();
        for (c, p) in &x {
            for (d, q) in &y {
                let mut e = self.ilt(*p, *q);
                for k in [c, d] {
                    if let Some(k) = k {
                        e = self.and(*k, e);
                    }
                }
                r = self.or(r, e);
            }
        }
        Some(r)
    }
    fn ult_neg(&mut self, a: T, c: u128) -> Option<T> {
        let w = self.w(a);
        if w > 64 || c == 0 {
            return None;
        }
        let i = self.neg_i2b(a)?;
        let z = self.iconst(&BigInt::zero());
        let e = self.ieq(i, z);
        let k = self.iconst(&BigInt::from((1u128 << w) - c));
        let h = self.ilt(k, i);
        Some(self.or(e, h))
    }
    fn ult_shifted(&mut self, a: T, c: u128) -> Option<T> {
        let w = self.w(a);
        if w > 64 {
            return None;
        }
        let (i, k) = match *self.n(a) {
            N::Bin(B::Add, x, y) => match (self.n(x), self.cst(y)) {
                (N::I2B(i), Some(k)) => (*i, k),
                _ => return None,
            },
            _ => return None,
        };
        // wraps iff i >= m
        let m = (1u128 << w) - k;
        let (mt, mct) = (self.iconst(&BigInt::from(m)), self.iconst(&BigInt::from(m + c)));
        let w1 = self.ile(mt, i);
        let w2 = self.ilt(i, mct);
        let wrapped = self.and(w1, w2);
        if c <= k {
            return Some(wrapped);
        }
        let ct = self.iconst(&BigInt::from(c - k));
        let low = self.ilt(i, ct);
        let n = self.not(wrapped);
        let l = self.not(low);
        let both = self.and(n, l);
        Some(self.not(both))
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x < y) as u128, 1);
        }
        if cb == Some(0) {
            return self.fls();
        }
        if ca == Some(mask(w)) {
            return self.fls();
        }
        if cb == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            let z = self.c(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if self.has_i2b(a) || self.has_i2b(b) {
            if let (Some(x), Some(y)) = (self.as_i2b(a), self.as_i2b(b)) {
                return self.ilt(x, y);
            }
        }
        if let Some(c) = cb {
            if let Some(r) = self.ult_shifted(a, c) {
                return r;
            }
            if let Some(r) = self.ult_neg(a, c) {
                return r;
            }
        }
        if let Some(c) = ca {
            if c < mask(w) {
                if let Some(r) = self.ult_neg(b, c + 1) {
                    return self.not(r);
                }
                if let Some(r) = self.ult_shifted(b, c + 1) {
                    return self.not(r);
                }
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (N::ZExt(x), N::ZExt(y)) => {
                let (wx, wy) = (self.w(x), self.w(y));
                let m = wx.max(wy);
                let p = self.zext(x, m);
                let q = self.zext(y, m);
                return self.ult(p, q);
            }
            (N::ZExt(x), _) if cb.is_some() => {
                let wx = self.w(x);
                let c = cb.unwrap();
                if c > mask(wx) {
                    return self.tru();
                }
                let k = self.c(c, wx);
                return self.ult(x, k);
            }
            (_, N::ZExt(y)) if ca.is_some() => {
                let wy = self.w(y);
                let c = ca.unwrap();
                if c >= mask(wy) {
                    return self.fls();
                }
                let k = self.c(c, wy);
                return self.ult(k, y);
            }
            (N::Ite(q, x, y), _) if cb.is_some() && (self.cst(x).is_some() || self.cst(y).is_some()) => {
                let p = self.ult(x, b);
                let r = self.ult(y, b);
                return self.ite(q, p, r);
            }
            (_, N::Ite(q, x, y)) if ca.is_some() && (self.cst(x).is_some() || self.cst(y).is_some()) => {
                let p = self.ult(a, x);
                let r = self.ult(a, y);
                return self.ite(q, p, r);
            }
            _ => {}
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let Some(c) = cb {
            if c == mask(w) {
                return self.tru();
            }
            let k = self.c(c + 1, w);
            return self.ult(a, k);
        }
        if let Some(c) = ca {
            if c == 0 {
                return self.tru();
            }
            let k = self.c(c - 1, w);
            return self.ult(k, b);
        }
        if self.has_i2b(a) || self.has_i2b(b) {
            if let (Some(x), Some(y)) = (self.as_i2b(a), self.as_i2b(b)) {
                return self.ile(x, y);
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (N::ZExt(x), N::ZExt(y)) => {
                let (wx, wy) = (self.w(x), self.w(y));
                let m = wx.max(wy);
                let p = self.zext(x, m);
                let q = self.zext(y, m);
                return self.ule(p, q);
            }
            _ => {}
        }
        self.mk(N::Ule(a, b), 1)
    }
    fn flip_sign_cmp(&mut self, a: T, b: T) -> bool {
        // both known to have zero top bit
        self.top_zero(a) && self.top_zero(b)
    }
    fn top_zero(&mut self, t: T) -> bool {
        let w = self.w(t);
        match self.n(t).clone() {
            N::Const(c) => c >> (w - 1) == 0,
            N::ZExt(x) => self.w(x) < w,
            N::I2B(i) => {
                let (_, hi) = self.range(i);
                hi.map_or(false, |h| h < (BigInt::one() << (w as usize - 1)))
            }
            N::Concat(h, _) => self.top_zero(h),
            N::Ite(_, x, y) => self.top_zero(x) && self.top_zero(y),
            _ => false,
        }
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((sext128(x, w) < sext128(y, w)) as u128, 1);
        }
        if w > 1 && self.flip_sign_cmp(a, b) {
            return self.ult(a, b);
        }
        if cb == Some(0) {
            if self.top_zero(a) {
                return self.fls();
            }
            if let N::I2B(i) = self.n(a).clone() {
                let k = self.iconst(&(BigInt::one() << (w as usize - 1)));
                return self.ile(k, i);
            }
        }
        if let Some(r) = self.slt_int(a, b) {
            return r;
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (N::SExt(x), N::Const(c)) => {
                let wx = self.w(x);
                let lo = c & mask(wx);
                if (sext128(lo, wx) as u128) & mask(w) == c {
                    let k = self.c(lo, wx);
                    return self.slt(x, k);
                }
            }
            (N::Const(c), N::SExt(x)) => {
                let wx = self.w(x);
                let lo = c & mask(wx);
                if (sext128(lo, wx) as u128) & mask(w) == c {
                    let k = self.c(lo, wx);
                    return self.slt(k, x);
                }
            }
            (N::Ite(q, x, y), _) if cb.is_some() && self.cst(x).is_some() && self.cst(y).is_some() => {
                let p = self.slt(x, b);
                let r = self.slt(y, b);
                return self.ite(q, p, r);
            }
            (_, N::Ite(q, x, y)) if ca.is_some() && self.cst(x).is_some() && self.cst(y).is_some() => {
                let p = self.slt(a, x);
                let r = self.slt(a, y);
                return self.ite(q, p, r);
            }
            _ => {}
        }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((sext128(x, w) <= sext128(y, w)) as u128, 1);
        }
        let smax = mask(w) >> 1;
        let smin = 1u128 << (w - 1);
        if let Some(c) = cb {
            if c == smax {
                return self.tru();
            }
            let k = self.c(c.wrapping_add(1) & mask(w), w);
            return self.slt(a, k);
        }
        if let Some(c) = ca {
            if c == smin {
                return self.tru();
            }
            let k = self.c(c.wrapping_sub(1) & mask(w), w);
            return self.slt(k, b);
        }
        if w > 1 && self.flip_sign_cmp(a, b) {
            return self.ule(a, b);
        }
        self.mk(N::Sle(a, b), 1)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(k) = self.cst(c) {
            return if k != 0 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let N::Bin(B::Xor, x, y) = *self.n(c) {
            if self.cst(y) == Some(1) && self.w(c) == 1 {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, a2, _) = *self.n(a) {
            if c2 == c {
                return self.ite(c, a2, b);
            }
        }
        if let N::Ite(c2, _, b2) = *self.n(b) {
            if c2 == c {
                return self.ite(c, a, b2);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cst(h), self.cst(l)) {
            return self.c((x << wl) | y, w);
        }
        if self.cst(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (N::I2B(a), N::I2B(b)) = (self.n(h).clone(), self.n(l).clone()) {
            let a = self.iscale(a, &(BigInt::one() << wl as usize));
            let s = self.iadd(a, b);
            if let Some(t) = self.i2b(s, w) {
                return t;
            }
        }
        // concat(extract(x, hi), extract(x, lo)) adjacent
        if let (N::Extract(x, lo1), N::Extract(y, lo2)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && lo1 == lo2 + wl {
                return self.extract(x, lo2, w);
            }
        }
        // concat(extract(x, k..), what the low k bits of x simplify to)
        if let N::Extract(x, lo) = *self.n(h) {
            if lo >= wl && self.neg_i2b(x).is_some() && self.extract(x, lo - wl, wl) == l {
                return self.extract(x, lo - wl, w);
            }
        }
        // concat(extract(x,k..), x_low) where low part is extract at 0 of whole
        if let N::Concat(h2, l2) = self.n(l).clone() {
            if let (N::Extract(x, lo1), N::Extract(y, lo2)) = (self.n(h).clone(), self.n(h2).clone()) {
                if x == y && lo1 == lo2 + self.w(h2) {
                    let hh = self.extract(x, lo2, wh + self.w(h2));
                    return self.concat(hh, l2);
                }
            }
            if self.cst(h).is_some() && self.cst(h2).is_some() {
                let k = self.concat(h, h2);
                return self.concat(k, l2);
            }
        }
        if let N::ZExt(x) = self.n(h).clone() {
            let inner = self.concat(x, l);
            return self.zext(inner, w);
        }
        self.mk(N::Concat(h, l), w)
    }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        match self.n(a).clone() {
            N::Const(c) => return self.c(c >> lo, w),
            N::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            N::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                let lp = self.extract(l, lo, wl - lo);
                let hp = self.extract(h, 0, w - (wl - lo));
                return self.concat(hp, lp);
            }
            N::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.c(0, w);
                }
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                let p = self.extract(x, lo, wx - lo);
                return self.zext(p, w);
            }
            N::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
                if lo < wx {
                    let p = self.extract(x, lo, wx - lo);
                    return self.sext(p, w);
                }
            }
            N::I2B(i) => {
                let mut d = i;
                if lo > 0 {
                    let k = self.iconst(&(BigInt::one() << lo as usize));
                    d = self.idiv(i, k);
                }
                if let Some(t) = self.i2b(d, w) {
                    return t;
                }
                let m = self.iconst(&(BigInt::one() << w as usize));
                let d = self.imod(d, m);
                if let Some(t) = self.i2b(d, w) {
                    return t;
                }
            }
            N::Ite(c, x, y) => {
                if self.cst(x).is_some() || self.cst(y).is_some() {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    return self.ite(c, p, q);
                }
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                return self.bin(op, p, q);
            }
            _ => {}
        }
        self.mk(N::Extract(a, lo), w)
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.n(a).clone() {
            N::Const(c) => return self.c(c, w),
            N::ZExt(x) => return self.zext(x, w),
            N::I2B(i) => {
                if let Some(t) = self.i2b(i, w) {
                    return t;
                }
            }
            _ => {}
        }
        self.mk(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(c) = self.cst(a) {
            return self.c(sext128(c, wa) as u128, w);
        }
        if wa > 1 && self.top_zero(a) {
            return self.zext(a, w);
        }
        if let N::SExt(x) = *self.n(a) {
            return self.sext(x, w);
        }
        self.mk(N::SExt(a), w)
    }

    // ---------------- integers ----------------
    pub fn iconst(&mut self, v: &BigInt) -> T {
        if v.is_zero() {
            return self.mk(N::Poly(Rc::new(vec![])), 0);
        }
        self.mk(N::Poly(Rc::new(vec![(vec![], v.clone())])), 0)
    }
    pub fn iconst_val(&self, t: T) -> Option<BigInt> {
        match self.n(t) {
            N::Poly(p) => {
                if p.is_empty() {
                    Some(BigInt::zero())
                } else if p.len() == 1 && p[0].0.is_empty() {
                    Some(p[0].1.clone())
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn poly_of(&self, t: T) -> Rc<Vec<(Vec<T>, BigInt)>> {
        match self.n(t) {
            N::Poly(p) => p.clone(),
            _ => Rc::new(vec![(vec![t], BigInt::one())]),
        }
    }
    pub fn mkpoly(&mut self, mut p: Vec<(Vec<T>, BigInt)>) -> T {
        p.retain(|x| !x.1.is_zero());
        p.sort_by(|a, b| a.0.cmp(&b.0));
        if p.len() == 1 && p[0].0.len() == 1 && p[0].1.is_one() {
            return p[0].0[0];
        }
        self.mk(N::Poly(Rc::new(p)), 0)
    }
    pub fn iadd(&mut self, a: T, b: T) -> T {
        let (p, q) = (self.poly_of(a), self.poly_of(b));
        let mut m: HashMap<Vec<T>, BigInt> = HashMap::new();
        for (k, v) in p.iter().chain(q.iter()) {
            *m.entry(k.clone()).or_insert_with(BigInt::zero) += v;
        }
        self.mkpoly(m.into_iter().collect())
    }
    pub fn iscale(&mut self, a: T, k: &BigInt) -> T {
        let p = self.poly_of(a);
        self.mkpoly(p.iter().map(|(m, c)| (m.clone(), c * k)).collect())
    }
    pub fn ineg(&mut self, a: T) -> T {
        self.iscale(a, &BigInt::from(-1))
    }
    pub fn isub(&mut self, a: T, b: T) -> T {
        let n = self.ineg(b);
        self.iadd(a, n)
    }
    pub fn imul(&mut self, a: T, b: T) -> T {
        let (p, q) = (self.poly_of(a), self.poly_of(b));
        let mut m: HashMap<Vec<T>, BigInt> = HashMap::new();
        for (k, v) in p.iter() {
            for (k2, v2) in q.iter() {
                let mut kk = k.clone();
                kk.extend_from_slice(k2);
                kk.sort();
                *m.entry(kk).or_insert_with(BigInt::zero) += v * v2;
            }
        }
        self.mkpoly(m.into_iter().collect())
    }
    /// floor division; the divisor must be known to be positive
    pub fn idiv(&mut self, a: T, b: T) -> T {
        if let Some(d) = self.iconst_val(b) {
            if d.is_one() {
                return a;
            }
            if let Some(x) = self.iconst_val(a) {
                return self.iconst(&x.div_floor(&d));
            }
            if d.is_positive() {
                // split off the part divisible by d; the other coefficients stay whole so that nested quotients compose
                let p = self.poly_of(a);
                let (mut whole, mut rest) = (vec![], vec![]);
                let (mut rwhole, mut rrest) = (vec![], vec![]);
                for (m, c) in p.iter() {
                    let (q, r) = c.div_mod_floor(&d);
                    if r.is_zero() {
                        whole.push((m.clone(), q.clone()));
                    } else if m.is_empty() {
                        // the constant
                        if !q.is_zero() {
                            whole.push((m.clone(), q.clone()));
                        }
                        rest.push((m.clone(), r.clone()));
                    } else {
                        rest.push((m.clone(), c.clone()));
                    }
                    if !q.is_zero() {
                        rwhole.push((m.clone(), q));
                    }
                    if !r.is_zero() {
                        rrest.push((m.clone(), r));
                    }
                }
                let rrt = self.mkpoly(rrest);
                if let (Some(lo), Some(hi)) = self.range(rrt) {
                    let (q1, q2) = (lo.div_floor(&d), hi.div_floor(&d));
                    if q1 == q2 {
                        let k = self.iconst(&q1);
                        let wt = self.mkpoly(rwhole);
                        return self.iadd(wt, k);
                    }
                }
                let wt = self.mkpoly(whole);
                let rt = self.mkpoly(rest);
                let (lo, hi) = self.range(rt);
                if let (Some(lo), Some(hi)) = (lo, hi) {
                    let (q1, q2) = (lo.div_floor(&d), hi.div_floor(&d));
                    if q1 == q2 {
                        let k = self.iconst(&q1);
                        return self.iadd(wt, k);
                    }
                }
                // (P + x div e) div d == (e*P + x) div (e*d)
                let pr = self.poly_of(rt);
                for (i, (m, c)) in pr.iter().enumerate() {
                    if m.len() != 1 || !c.is_one() {
                        continue;
                    }
                    if let N::IDiv(x, e) = self.n(m[0]).clone() {
                        if let Some(ev) = self.iconst_val(e) {
                            let others: Vec<_> = pr.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, (m, c))| (m.clone(), c * &ev)).collect();
                            let o = self.mkpoly(others);
                            let n = self.iadd(o, x);
                            let k = self.iconst(&(ev * &d));
                            let q = self.idiv(n, k);
                            return self.iadd(wt, q);
                        }
                    }
                }
                let dd = self.iconst(&d);
                let q = self.mk(N::IDiv(rt, dd), 0);
                return self.iadd(wt, q);
            }
        }
        self.mk(N::IDiv(a, b), 0)
    }
    pub fn imod(&mut self, a: T, b: T) -> T {
        if let Some(d) = self.iconst_val(b) {
            if d.is_positive() {
                let q = self.idiv(a, b);
                let m = self.iscale(q, &d);
                let r = self.isub(a, m);
                // keep a compact atom when not simplified
                if let N::Poly(p) = self.n(r) {
                    if p.len() <= 2 || self.iconst_val(r).is_some() {
                        // fallthrough
                    }
                }
                if self.iconst_val(r).is_some() {
                    return r;
                }
                // if the quotient vanished the result is a itself
                if r == a {
                    let top = &d - BigInt::one();
                    self.clamp(r, BigInt::zero(), top);
                    return a;
                }
                let p = self.poly_of(a);
                let rest: Vec<_> = p.iter().map(|(m, c)| (m.clone(), c.mod_floor(&d))).collect();
                let rt = self.mkpoly(rest);
                let (lo, hi) = self.range(rt);
                if let (Some(lo), Some(hi)) = (lo, hi) {
                    if !lo.is_negative() && hi < d {
                        return rt;
                    }
                }
                // represent a mod d as a - d*(a div d), sharing the quotient atom
                let top = &d - BigInt::one();
                    self.clamp(r, BigInt::zero(), top);
                return r;
            }
        }
        self.mk(N::IMod(a, b), 0)
    }
    pub fn b2i(&mut self, a: T) -> T {
        if let Some(c) = self.cst(a) {
            return self.iconst(&BigInt::from(c));
        }
        match self.n(a).clone() {
            N::I2B(i) => i,
            N::ZExt(x) => self.b2i(x),
            _ => self.mk(N::B2I(a), 0),
        }
    }
    /// records that the term always lies within lo..=hi
    fn clamp(&mut self, t: T, lo: BigInt, hi: BigInt) {
        let (l, h) = self.range(t);
        let l = match l {
            Some(l) if l > lo => l,
            _ => lo,
        };
        let h = match h {
            Some(h) if h < hi => h,
            _ => hi,
        };
        if let Some((base, k)) = self.split_const(t) {
            self.clamps.insert(base, (&l - &k, &h - &k));
        }
        self.ranges.insert(t, (Some(l), Some(h)));
    }
    /// a polynomial without its constant, and the constant
    fn split_const(&mut self, t: T) -> Option<(T, BigInt)> {
        let p = match self.n(t) {
            N::Poly(p) if p.len() > 1 => p.clone(),
            _ => return None,
        };
        let k = p.iter().find(|(m, _)| m.is_empty()).map(|x| x.1.clone()).unwrap_or_else(BigInt::zero);
        let b = self.mkpoly(p.iter().filter(|(m, _)| !m.is_empty()).cloned().collect());
        Some((b, k))
    }
    pub fn set_range(&mut self, t: T, lo: BigInt, hi: BigInt) {
        self.ranges.insert(t, (Some(lo), Some(hi)));
    }
    pub fn range(&mut self, t: T) -> (Option<BigInt>, Option<BigInt>) {
        if let Some(r) = self.ranges.get(&t) {
            return r.clone();
        }
        let r = match self.n(t).clone() {
            N::IVar(i) => (self.vars[i as usize].lo.clone(), self.vars[i as usize].hi.clone()),
            N::B2I(b) => {
                let (l, h) = self.brange(b, 6);
                (Some(BigInt::from(l)), Some(BigInt::from(h)))
            }
            N::IDiv(a, b) => match self.iconst_val(b) {
                Some(d) if d.is_positive() => {
                    let (l, h) = self.range(a);
                    (l.map(|x| x.div_floor(&d)), h.map(|x| x.div_floor(&d)))
                }
                _ => (None, None),
            },
            N::IMod(_, b) => match self.iconst_val(b) {
                Some(d) if d.is_positive() => (Some(BigInt::zero()), Some(d - 1)),
                _ => (None, None),
            },
            N::Poly(p) => {
                let (mut lo, mut hi) = (Some(BigInt::zero()), Some(BigInt::zero()));
                for (m, c) in p.iter() {
                    let (mut l, mut h) = (Some(c.clone()), Some(c.clone()));
                    for &a in m {
                        let (al, ah) = self.range(a);
                        match (l.clone(), h.clone(), al, ah) {
                            (Some(x), Some(y), Some(p), Some(q)) => {
                                let v = [&x * &p, &x * &q, &y * &p, &y * &q];
                                l = Some(v.iter().min().unwrap().clone());
                                h = Some(v.iter().max().unwrap().clone());
                            }
                            (Some(x), Some(y), Some(p), None) if !p.is_negative() && x == y => {
                                if x.is_positive() {
                                    l = Some(&x * &p);
                                    h = None;
                                } else {
                                    h = Some(&x * &p);
                                    l = None;
                                }
                            }
                            (Some(x), Some(y), None, Some(p)) if !p.is_positive() && x == y => {
                                if x.is_positive() {
                                    h = Some(&x * &p);
                                    l = None;
                                } else {
                                    l = Some(&x * &p);
                                    h = None;
                                }
                            }
                            (Some(x), Some(y), Some(p), None) if x == y => {
                                if x.is_positive() {
                                    l = Some(&x * &p);
                                    h = None;
                                } else {
                                    h = Some(&x * &p);
                                    l = None;
                                }
                            }
                            (Some(x), Some(y), None, Some(p)) if x == y => {
                                if x.is_positive() {
                                    h = Some(&x * &p);
                                    l = None;
                                } else {
                                    l = Some(&x * &p);
                                    h = None;
                                }
                            }
                            _ => {
                                l = None;
                                h = None;
                            }
                        }
                    }
                    lo = match (lo, l) {
                        (Some(a), Some(b)) => Some(a + b),
                        _ => None,
                    };
                    hi = match (hi, h) {
                        (Some(a), Some(b)) => Some(a + b),
                        _ => None,
                    };
                }
                self.mod_range(&p, lo, hi)
            }
            _ => (None, None),
        };
        let r = match self.split_const(t).and_then(|(b, k)| self.clamps.get(&b).map(|c| (&c.0 + &k, &c.1 + &k))) {
            Some((l, h)) => (
                match r.0 {
                    Some(x) if x > l => Some(x),
                    _ => Some(l),
                },
                match r.1 {
                    Some(x) if x < h => Some(x),
                    _ => Some(h),
                },
            ),
            None => r,
        };
        self.ranges.insert(t, r.clone());
        r
    }
    /// unsigned range of a bit-vector term
    /// an upper bound of a bit-vector
    pub fn bmax(&mut self, b: T) -> u128 {
        if let N::I2B(i) = *self.n(b) {
            if let (_, Some(h)) = self.range(i) {
                return h.to_u128().unwrap_or(u128::MAX >> 2);
            }
        }
        if let N::ZExt(x) = *self.n(b) {
            return self.bmax(x);
        }
        self.brange(b, 8).1
    }
    fn brange(&mut self, b: T, depth: usize) -> (u128, u128) {
        let m = mask(self.w(b));
        if depth == 0 {
            return (0, m);
        }
        match self.n(b).clone() {
            N::Const(c) => (c, c),
            N::Ite(_, x, y) => {
                let (a, b) = (self.brange(x, depth - 1), self.brange(y, depth - 1));
                (a.0.min(b.0), a.1.max(b.1))
            }
            N::ZExt(x) => self.brange(x, depth - 1),
            N::I2B(i) => match self.range(i) {
                (Some(l), Some(h)) => match (l.to_u128(), h.to_u128()) {
                    (Some(l), Some(h)) if h <= m => (l, h),
                    _ => (0, m),
                },
                _ => (0, m),
            },
            _ => (0, m),
        }
    }
    /// tightens the range of a polynomial in which k*(x mod e) occurs as k*x - k*e*(x div e)
    fn mod_range(&mut self, p: &[(Vec<T>, BigInt)], mut lo: Option<BigInt>, mut hi: Option<BigInt>) -> (Option<BigInt>, Option<BigInt>) {
        if p.len() > 40 {
            return (lo, hi);
        }
        for i in 0..p.len() {
            let (m, c) = &p[i];
            if m.len() != 1 || !c.is_negative() {
                continue;
            }
            let (x, e) = match self.n(m[0]) {
                N::IDiv(x, e) => (*x, *e),
                _ => continue,
            };
            let e = match self.iconst_val(e) {
                Some(e) if e.is_positive() => e,
                _ => continue,
            };
            let neg = -c;
            // k*x with k*e == -c
            let mut cand: Vec<(Vec<(Vec<T>, BigInt)>, BigInt)> = vec![];
            if (&neg % &e).is_zero() {
                let k = &neg / &e;
                let top = &k * (&e - 1);
                cand.push((self.poly_of(x).iter().map(|(m, c)| (m.clone(), -c * &k)).collect(), top));
            }
            // k*(x div f) with f | e and k*(e/f) == -c
            for (m2, c2) in p.iter() {
                if m2.len() != 1 || !c2.is_positive() {
                    continue;
                }
                if let N::IDiv(x2, f) = self.n(m2[0]) {
                    if *x2 != x {
                        continue;
                    }
                    if let Some(f) = self.iconst_val(*f) {
                        if f.is_positive() && (&e % &f).is_zero() && e > f {
                            let q = &e / &f;
                            if (&neg % &q).is_zero() {
                                let k = &neg / &q;
                                cand.push((vec![(m2.clone(), -k.clone())], &k * (&q - 1)));
                            }
                        }
                    }
                }
            }
            for (sub, top) in cand {
                let mut r: Vec<(Vec<T>, BigInt)> = p.to_vec();
                r.remove(i);
                let n0 = r.len();
                let (a, b) = (self.mkpoly(r), self.mkpoly(sub));
                let rest = self.iadd(a, b);
                if self.poly_of(rest).len() > n0 {
                    continue;
                }
                let (l, h) = self.range(rest);
                if let Some(l) = l {
                    if lo.as_ref().map_or(true, |x| *x < l) {
                        lo = Some(l);
                    }
                }
                if let Some(h) = h {
                    let h = h + top;
                    if hi.as_ref().map_or(true, |x| *x > h) {
                        hi = Some(h);
                    }
                }
            }
        }
        (lo, hi)
    }
    pub fn ile(&mut self, a: T, b: T) -> T {
        // a <= b  <=>  a - b <= 0
        let d = self.isub(a, b);
        if let Some(c) = self.iconst_val(d) {
            return self.c((!c.is_positive()) as u128, 1);
        }
        let (lo, hi) = self.range(d);
        if let Some(h) = hi {
            if !h.is_positive() {
                return self.tru();
            }
        }
        if let Some(l) = lo {
            if l.is_positive() {
                return self.fls();
            }
        }
        // also use ranges of the sides
        let (_, ha) = self.range(a);
        let (lb, _) = self.range(b);
        if let (Some(x), Some(y)) = (ha, lb) {
            if x <= y {
                return self.tru();
            }
        }
        let (la, _) = self.range(a);
        let (_, hb) = self.range(b);
        if let (Some(x), Some(y)) = (la, hb) {
            if x > y {
                return self.fls();
            }
        }
        let z = self.iconst(&BigInt::zero());
        self.mk(N::ILe(d, z), 1)
    }
    /// a <= b without using the variables' declared ranges (used to assert those ranges)
    pub fn ile_raw(&mut self, a: T, b: T) -> T {
        let d = self.isub(a, b);
        let z = self.iconst(&BigInt::zero());
        self.mk(N::ILe(d, z), 1)
    }
    pub fn has_int(&mut self, t: T) -> bool {
        if let Some(&b) = self.hasint.get(&t) {
            return b;
        }
        let r = self.w(t) == 0 || self.kids(t).into_iter().any(|k| self.has_int(k));
        self.hasint.insert(t, r);
        r
    }
    pub fn ilt(&mut self, a: T, b: T) -> T {
        let r = self.ile(b, a);
        self.not(r)
    }
    pub fn ieq(&mut self, a: T, b: T) -> T {
        let mut d = self.isub(a, b);
        if let Some(c) = self.iconst_val(d) {
            return self.c(c.is_zero() as u128, 1);
        }
        let (lo, hi) = self.range(d);
        if hi.map_or(false, |h| h.is_negative()) || lo.map_or(false, |l| l.is_positive()) {
            return self.fls();
        }
        let (la, ha) = self.range(a);
        let (lb, hb) = self.range(b);
        if let (Some(x), Some(y)) = (&ha, &lb) {
            if x < y {
                return self.fls();
            }
        }
        if let (Some(x), Some(y)) = (&la, &hb) {
            if x > y {
                return self.fls();
            }
        }
        // canonical sign
        if let N::Poly(p) = self.n(d) {
            if p.last().map_or(false, |x| x.1.is_negative()) {
                d = self.ineg(d);
            }
        }
        let z = self.iconst(&BigInt::zero());
        self.mk(N::IEq(d, z), 1)
    }

    // ---------------- analysis ----------------
    pub fn support(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(s) = self.supp.get(&t) {
            return s.clone();
        }
        let kids = self.kids(t);
        let mut v: Vec<u32> = match self.n(t) {
            N::Var(i) | N::IVar(i) => vec![*i],
            _ => vec![],
        };
        for k in kids {
            let s = self.support(k);
            v.extend_from_slice(&s);
        }
        v.sort();
        v.dedup();
        let r = Rc::new(v);
        self.supp.insert(t, r.clone());
        r
    }
    pub fn kids(&self, t: T) -> Vec<T> {
        match self.n(t) {
            N::Const(_) | N::Var(_) | N::IVar(_) => vec![],
            N::Bin(_, a, b)
            | N::Eq(a, b)
            | N::Ult(a, b)
            | N::Ule(a, b)
            | N::Slt(a, b)
            | N::Sle(a, b)
            | N::Concat(a, b)
            | N::IDiv(a, b)
            | N::IMod(a, b)
            | N::ILe(a, b)
            | N::IEq(a, b) => vec![*a, *b],
            N::Ite(a, b, c) => vec![*a, *b, *c],
            N::Extract(a, _) | N::ZExt(a) | N::SExt(a) | N::I2B(a) | N::B2I(a) => vec![*a],
            N::Poly(p) => {
                let mut v: Vec<T> = p.iter().flat_map(|(m, _)| m.iter().cloned()).collect();
                v.sort();
                v.dedup();
                v
            }
        }
    }
    /// the variables below a term, where an integer standing for a byte minus a constant counts as the byte
    pub fn roots(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(s) = self.rootc.get(&t) {
            return s.clone();
        }
        let s = self.support(t);
        let r = if s.iter().any(|v| self.twins.contains_key(v)) {
            let mut o = vec![];
            for v in s.iter() {
                match self.twins.get(v) {
                    Some(&(b, _)) => o.extend_from_slice(&self.support(b)),
                    None => o.push(*v),
                }
            }
            o.sort();
            o.dedup();
            Rc::new(o)
        } else {
            s
        };
        self.rootc.insert(t, r.clone());
        r
    }
    /// whether some product of two non-constants occurs
    pub fn nonlinear(&mut self, t: T) -> bool {
        if let Some(&b) = self.nonlin.get(&t) {
            return b;
        }
        let own = match self.n(t) {
            N::Poly(p) => p.iter().any(|(m, _)| m.len() > 1),
            _ => false,
        };
        let r = own || self.kids(t).into_iter().any(|k| self.nonlinear(k));
        self.nonlin.insert(t, r);
        r
    }
    /// evaluation in which twins take the value given by their byte
    pub fn eval_roots(&self, t: T, f: &dyn Fn(u32) -> MV) -> MV {
        let mut memo = HashMap::new();
        self.eval(
            t,
            &|i| match self.twins.get(&i) {
                Some(&(b, base)) => {
                    let mut m = HashMap::new();
                    match self.eval(b, f, &mut m) {
                        MV::B(x) => MV::N(BigInt::from(x) - BigInt::from(base)),
                        MV::N(_) => panic!("sort"),
                    }
                }
                None => f(i),
            },
            &mut memo,
        )
    }
    /// truth table, over the values in `dom`, of a boolean term with the single (narrow) variable below it
    pub fn itable(&mut self, t: T, var: u32, dom: &[u64; 4]) -> Rc<[u64; 4]> {
        if let Some(x) = self.itables.get(&(t, *dom)) {
            return x.clone();
        }
        let mut tb = [0u64; 4];
        for v in 0..256usize {
            if dom[v / 64] >> (v % 64) & 1 == 1 {
                if let MV::B(1) = self.eval_roots(t, &|i| if i == var { MV::B(v as u128) } else { MV::B(0) }) {
                    tb[v / 64] |= 1 << (v % 64);
                }
            }
        }
        let r = Rc::new(tb);
        self.itables.insert((t, *dom), r.clone());
        r
    }
    /// truth table of a boolean term whose only variable is an 8-bit (or narrower) variable
    pub fn table(&mut self, t: T, var: u32) -> Rc<[u64; 4]> {
        if let Some(x) = self.tables.get(&t) {
            return x.clone();
        }
        let mut tb = [0u64; 4];
        let n = 1usize << self.vars[var as usize].w;
        for v in 0..n {
            let mut memo = HashMap::new();
            if let MV::B(1) = self.eval(t, &|i| if i == var { MV::B(v as u128) } else { MV::B(0) }, &mut memo) {
                tb[v / 64] |= 1 << (v % 64);
            }
        }
        let r = Rc::new(tb);
        self.tables.insert(t, r.clone());
        r
    }
    pub fn eval(&self, t: T, f: &dyn Fn(u32) -> MV, memo: &mut HashMap<T, MV>) -> MV {
        match self.n(t) {
            N::Const(c) => return MV::B(*c),
            N::Var(i) | N::IVar(i) => return f(*i),
            _ => {}
        }
        if let Some(v) = memo.get(&t) {
            return v.clone();
        }
        let w = self.w(t);
        let mut b = |x: T| -> u128 {
            match self.eval(x, f, memo) {
                MV::B(v) => v,
                MV::N(_) => panic!("sort"),
            }
        };
        let r = match self.n(t) {
            N::Bin(op, a, c) => {
                let (x, y) = (b(*a), b(*c));
                MV::B(bin_const(*op, x, y, w).unwrap_or_else(|| match op {
                    // SMT-LIB semantics
                    B::UDiv => mask(w),
                    B::SDiv => {
                        if sext128(x, w) >= 0 {
                            mask(w)
                        } else {
                            1
                        }
                    }
                    _ => x,
                }))
            }
            N::Eq(a, c) => MV::B((b(*a) == b(*c)) as u128),
            N::Ult(a, c) => MV::B((b(*a) < b(*c)) as u128),
            N::Ule(a, c) => MV::B((b(*a) <= b(*c)) as u128),
            N::Slt(a, c) => {
                let wa = self.w(*a);
                MV::B((sext128(b(*a), wa) < sext128(b(*c), wa)) as u128)
            }
            N::Sle(a, c) => {
                let wa = self.w(*a);
                MV::B((sext128(b(*a), wa) <= sext128(b(*c), wa)) as u128)
            }
            N::Ite(c, x, y) => {
                let k = b(*c);
                self.eval(if k != 0 { *x } else { *y }, f, memo)
            }
            N::Concat(h, l) => {
                let wl = self.w(*l);
                MV::B((b(*h) << wl) | b(*l))
            }
            N::Extract(a, lo) => MV::B((b(*a) >> lo) & mask(w)),
            N::ZExt(a) => MV::B(b(*a)),
            N::SExt(a) => {
                let wa = self.w(*a);
                MV::B(sext128(b(*a), wa) as u128 & mask(w))
            }
            N::I2B(i) => {
                let v = self.evali(*i, f, memo);
                let m = BigInt::one() << w as usize;
                MV::B(v.mod_floor(&m).to_u128().unwrap())
            }
            N::Poly(p) => {
                let mut s = BigInt::zero();
                for (m, c) in p.iter() {
                    let mut x = c.clone();
                    for a in m {
                        x *= self.evali(*a, f, memo);
                    }
                    s += x;
                }
                MV::N(s)
            }
            N::IDiv(a, c) => {
                let (x, y) = (self.evali(*a, f, memo), self.evali(*c, f, memo));
                MV::N(if y.is_zero() { BigInt::zero() } else { x.div_floor(&y) })
            }
            N::IMod(a, c) => {
                let (x, y) = (self.evali(*a, f, memo), self.evali(*c, f, memo));
                MV::N(if y.is_zero() { BigInt::zero() } else { x.mod_floor(&y) })
            }
            N::B2I(a) => MV::N(BigInt::from(b(*a))),
            N::ILe(a, c) => MV::B((self.evali(*a, f, memo) <= self.evali(*c, f, memo)) as u128),
            N::IEq(a, c) => MV::B((self.evali(*a, f, memo) == self.evali(*c, f, memo)) as u128),
            N::Const(_) | N::Var(_) | N::IVar(_) => unreachable!(),
        };
        memo.insert(t, r.clone());
        r
    }
    fn evali(&self, t: T, f: &dyn Fn(u32) -> MV, memo: &mut HashMap<T, MV>) -> BigInt {
        match self.eval(t, f, memo) {
            MV::N(v) => v,
            MV::B(_) => panic!("sort"),
        }
    }
    pub fn show(&self, t: T, depth: usize) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.n(t) {
            N::Const(c) => format!("{}", c),
            N::Var(i) | N::IVar(i) => self.vars[*i as usize].name.clone(),
            N::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d), self.show(*b, d)),
            N::Eq(a, b) => format!("(= {} {})", self.show(*a, d), self.show(*b, d)),
            N::Ult(a, b) => format!("(u< {} {})", self.show(*a, d), self.show(*b, d)),
            N::Ule(a, b) => format!("(u<= {} {})", self.show(*a, d), self.show(*b, d)),
            N::Slt(a, b) => format!("(s< {} {})", self.show(*a, d), self.show(*b, d)),
            N::Sle(a, b) => format!("(s<= {} {})", self.show(*a, d), self.show(*b, d)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, d), self.show(*a, d), self.show(*b, d)),
            N::Concat(a, b) => format!("({} ++ {})", self.show(*a, d), self.show(*b, d)),
            N::Extract(a, lo) => format!("{}[{}+{}]", self.show(*a, d), lo, self.w(t)),
            N::ZExt(a) => format!("zx{}({})", self.w(t), self.show(*a, d)),
            N::SExt(a) => format!("sx{}({})", self.w(t), self.show(*a, d)),
            N::I2B(a) => format!("i2b{}({})", self.w(t), self.show(*a, d)),
            N::B2I(a) => format!("b2i({})", self.show(*a, d)),
            N::Poly(p) => {
                let v: Vec<String> = p
                    .iter()
                    .take(6)
                    .map(|(m, c)| {
                        let mut s = format!("{}", c);
                        for a in m {
                            s.push('*');
                            s.push_str(&self.show(*a, d));
                        }
                        s
                    })
                    .collect();
                format!("[{}]", v.join(" + "))
            }
            N::IDiv(a, b) => format!("({} div {})", self.show(*a, d), self.show(*b, d)),
            N::IMod(a, b) => format!("({} mod {})", self.show(*a, d), self.show(*b, d)),
            N::ILe(a, b) => format!("({} <= {})", self.show(*a, d), self.show(*b, d)),
            N::IEq(a, b) => format!("({} == {})", self.show(*a, d), self.show(*b, d)),
        }
    }
}
