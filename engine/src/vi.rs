//! Unbounded integers for the arithmetic model of num-bigint: a handle is 0 for zero, otherwise term id + 1.
use crate::exec::*;
use crate::ext::ExtFn;
use crate::ir::V;
use crate::state::*;
use crate::term::{VarInfo, B, MV, N, T};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{Pow, Signed, ToPrimitive, Zero};
use std::rc::Rc;

/// greatest common divisor, by Lehmer's method
pub fn gcd(x: &BigInt, y: &BigInt) -> BigInt {
    let (mut a, mut b) = (x.abs(), y.abs());
    if a < b {
        std::mem::swap(&mut a, &mut b);
    }
    while b.bits() > 64 {
        let s = a.bits() - 62;
        let (mut h, mut k) = ((&a >> s).to_i128().unwrap(), (&b >> s).to_i128().unwrap());
        let (mut p, mut q, mut r, mut t) = (1i128, 0i128, 0i128, 1i128);
        while k + r != 0 && k + t != 0 {
            let d = (h + p) / (k + r);
            if d != (h + q) / (k + t) {
                break;
            }
            (p, r) = (r, p - d * r);
            (q, t) = (t, q - d * t);
            (h, k) = (k, h - d * k);
        }
        if q == 0 {
            let m = &a % &b;
            a = std::mem::replace(&mut b, m);
        } else {
            let n = &a * p + &b * q;
            b = &a * r + &b * t;
            a = n;
        }
    }
    if b.is_zero() {
        return a;
    }
    let m = &a % &b;
    BigInt::from(num_integer::gcd(b.to_u64().unwrap(), m.to_u64().unwrap()))
}
/// the only byte below a term, and its value when this path leaves it just one
fn only_root(ex: &mut Ex, st: &State, t: T) -> Option<(u32, Option<u64>)> {
    let v = ex.small_var(t)?;
    let d = ex.dom_of(st, v);
    if d.iter().map(|x| x.count_ones()).sum::<u32>() != 1 {
        return Some((v, None));
    }
    let i = d.iter().position(|x| *x != 0).unwrap();
    Some((v, Some(i as u64 * 64 + d[i].trailing_zeros() as u64)))
}
fn get(ex: &mut Ex, st: &mut State, v: V) -> R<T> {
    let h = ex.conc(st, v)?;
    if h == 0 {
        return Ok(ex.tm.iconst(&BigInt::zero()));
    }
    let t = (h - 1) as T;
    if ex.tm.iconst_val(t).is_some() {
        return Ok(t);
    }
    // a univariate polynomial of many terms: one path for each value of its variable
    let big = match ex.tm.n(t) {
        N::Poly(p) => p.iter().any(|(m, _)| m.len() > st.split),
        _ => false,
    };
    match only_root(ex, st, t) {
        Some((v, None)) if big => {
            let x = ex.tm.var(v);
            ex.conc(st, V::S(x))?;
        }
        _ => {}
    }
    if let Some((v, Some(k))) = only_root(ex, st, t) {
        if let MV::N(n) = ex.tm.eval_roots(t, &|i| if i == v { MV::B(k as u128) } else { MV::B(0) }) {
            return Ok(ex.tm.iconst(&n));
        }
    }
    Ok(t)
}
fn put(ex: &Ex, t: T) -> R<V> {
    if ex.tm.iconst_val(t).map_or(false, |c| c.is_zero()) {
        return Ok(V::I(0));
    }
    Ok(V::I(t as u64 + 1))
}
fn boolv(ex: &Ex, t: T) -> R<V> {
    Ok(ex.v(t))
}
impl Ex {
    pub fn eval_int(&self, st: &State, t: T) -> Option<BigInt> {
        match self.eval_model(st, t) {
            MV::N(n) => Some(n),
            _ => None,
        }
    }
    /// fork over the values of an integer term with a small range
    pub fn conc_int(&mut self, st: &mut State, t: T, limit: u64) -> R<BigInt> {
        if let Some(c) = self.tm.iconst_val(t) {
            return Ok(c);
        }
        if let Some(c) = st.ival.get(&t) {
            return Ok(c.clone());
        }
        let (lo, hi) = self.tm.range(t);
        let small = match (lo, hi) {
            (Some(lo), Some(hi)) => hi - lo <= BigInt::from(limit),
            _ => false,
        };
        if !small {
            // enumerate the variables below instead, when they have few values together
            let mut vs: Vec<T> = vec![];
            for (m, _) in self.tm.poly_of(t).iter().cloned() {
                for x in m {
                    if !vs.contains(&x) {
                        vs.push(x);
                    }
                }
            }
            let mut total = BigInt::from(1);
            for &x in &vs {
                if st.ival.contains_key(&x) {
                    continue;
                }
                match self.tm.range(x) {
                    (Some(l), Some(h)) if x != t => total *= h - l + 1,
                    _ => total = BigInt::from(limit) + 1,
                }
            }
            if total > BigInt::from(limit) {
                return Err(Stop::Bad(format!("an integer of large range would have to be enumerated at {} <- {}", st.fr.f.short, st.stack.iter().rev().take(6).map(|f| f.f.short.clone()).collect::<Vec<_>>().join(" <- "))));
            }
            for &x in &vs {
                self.conc_int(st, x, limit)?;
            }
            let v = match self.eval_int(st, t) {
                Some(v) => v,
                None => return Err(Stop::Bad("conc_int".into())),
            };
            Rc::make_mut(&mut st.ival).insert(t, v.clone());
            return Ok(v);
        }
        let v = match self.eval_int(st, t) {
            Some(v) => v,
            None => return Err(Stop::Bad("conc_int".into())),
        };
        let k = self.tm.iconst(&v);
        let e = self.tm.ieq(t, k);
        if self.branch(st, e)? {
            Rc::make_mut(&mut st.ival).insert(t, v.clone());
            Ok(v)
        } else {
            Err(Stop::Bad("conc_int: model".into()))
        }
    }
    /// the known value of a term on this path, if it was enumerated before
    fn val(&mut self, st: &State, t: T) -> T {
        match st.ival.get(&t) {
            Some(c) => {
                let c = c.clone();
                self.tm.iconst(&c)
            }
            None => t,
        }
    }
}

macro_rules! vx {
    ($f:ident, |$ex:ident, $st:ident, $a:ident| $b:block) => {
        fn $f($ex: &mut Ex, $st: &mut State, $a: &[V], _d: (u32, u16)) -> R<V> $b
    };
}
vx!(vi_u64, |ex, st, a| {
    let t = ex.t(a[0], 64);
    // a digit character less its base: the integer variable that already stands for it
    let mut u = t;
    while let N::ZExt(x) = *ex.tm.n(u) {
        u = x;
    }
    if let N::Bin(B::Add, x, k) = *ex.tm.n(u) {
        if let (Some(k), 8) = (ex.tm.cst(k), ex.tm.w(u)) {
            let base = 256 - k as u64;
            for hi in 1..16u64 {
                if let Some(&i) = ex.vars.get(&(format!("tw:{}:{}:{}", x, base, hi), 0u32)) {
                    let iv = ex.tm.var(i);
                    let b = ex.tm.b2i(x);
                    let nb = ex.tm.iconst(&BigInt::from(-(base as i64)));
                    let s = ex.tm.iadd(b, nb);
                    let eq = ex.tm.ieq(iv, s);
                    if st.known.get(&eq) == Some(&true) {
                        return put(ex, iv);
                    }
                }
            }
        }
    }
    let i = ex.tm.b2i(t);
    put(ex, i)
});
// value of an ASCII digit character: byte - base, known by the caller to be within 0..=hi
vx!(vi_digit, |ex, st, a| {
    let base = ex.conc(st, a[1])?;
    let hi = ex.conc(st, a[2])?;
    let t = match a[0] {
        V::I(x) => {
            let k = ex.tm.iconst(&BigInt::from(x as i64 - base as i64));
            return put(ex, k);
        }
        V::S(t) => t,
        _ => return Err(Stop::Bad("vi_digit".into())),
    };
    let nb = ex.tm.iconst(&BigInt::from(-(base as i64)));
    if let N::I2B(i) = ex.tm.n(t).clone() {
        let r = ex.tm.iadd(i, nb);
        let r = widen(ex, r);
        return put(ex, r);
    }
    if let Some(k) = st.kval.get(&t) {
        let k = ex.tm.iconst(&BigInt::from(*k as i64 - base as i64));
        return put(ex, k);
    }
    // a twin integer variable, tied to the byte
    let key = (format!("tw:{}:{}:{}", t, base, hi), 0u32);
    let id = match ex.vars.get(&key) {
        Some(&i) => i,
        None => {
            let i = ex.tm.vars.len() as u32;
            ex.tm.vars.push(VarInfo { name: key.0.clone(), w: 0, lo: Some(BigInt::from(0)), hi: Some(BigInt::from(hi)) });
            ex.vars.insert(key, i);
            ex.tm.twins.insert(i, (t, base));
            i
        }
    };
    let iv = ex.tm.var(id);
    let b = ex.tm.b2i(t);
    let x = ex.tm.iadd(b, nb);
    let eq = ex.tm.ieq(iv, x);
    if st.known.get(&eq) != Some(&true) {
        if let Some(v) = ex.eval_int(st, x) {
            Rc::make_mut(&mut st.model).insert(id, MV::N(v));
        }
        ex.learn(st, eq);
    }
    put(ex, iv)
});
vx!(vi_add, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let r = ex.tm.iadd(x, y);
    put(ex, r)
});
vx!(vi_sub, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let r = ex.tm.isub(x, y);
    put(ex, r)
});
vx!(vi_mul, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let r = ex.tm.imul(x, y);
    put(ex, r)
});
vx!(vi_neg, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let r = ex.tm.ineg(x);
    put(ex, r)
});
fn divisor(ex: &mut Ex, st: &mut State, t: T) -> R<T> {
    if ex.tm.iconst_val(t).is_some() {
        return Ok(t);
    }
    let v = ex.conc_int(st, t, 4096)?;
    Ok(ex.tm.iconst(&v))
}
// floor division; the divisor is positive
vx!(vi_divf, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    if x == y {
        return Ok({
            let k = ex.tm.iconst(&BigInt::from(1));
            put(ex, k)?
        });
    }
    let y = divisor(ex, st, y)?;
    let x = ex.val(st, x);
    let r = ex.tm.idiv(x, y);
    put(ex, r)
});
vx!(vi_modf, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    if x == y {
        return Ok(V::I(0));
    }
    let y = divisor(ex, st, y)?;
    let x = ex.val(st, x);
    let r = ex.tm.imod(x, y);
    put(ex, r)
});
vx!(vi_le, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let r = ex.tm.ile(x, y);
    boolv(ex, r)
});
// as above, decided separately on each path
vx!(vi_fork_le, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let r = ex.tm.ile(x, y);
    let b = ex.branch(st, r)?;
    Ok(V::I(b as u64))
});
// a term known to lie within lo..=hi on this path, as a variable of that range
vx!(vi_narrow, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let x = ex.val(st, x);
    let (lo, hi) = (ex.conc(st, a[1])?, ex.conc(st, a[2])?);
    if ex.tm.iconst_val(x).is_some() {
        return put(ex, x);
    }
    if let (Some(l), Some(h)) = ex.tm.range(x) {
        if l >= BigInt::from(lo) && h <= BigInt::from(hi) {
            return put(ex, x);
        }
    }
    let key = (format!("nw:{}:{}:{}", x, lo, hi), 0u32);
    let id = match ex.vars.get(&key) {
        Some(&i) => i,
        None => {
            let i = ex.tm.vars.len() as u32;
            ex.tm.vars.push(VarInfo { name: key.0.clone(), w: 0, lo: Some(BigInt::from(lo)), hi: Some(BigInt::from(hi)) });
            ex.vars.insert(key, i);
            ex.tm.narrowed.insert(i, x);
            i
        }
    };
    let iv = ex.tm.var(id);
    let eq = ex.tm.ieq(iv, x);
    if st.known.get(&eq) != Some(&true) {
        if let Some(v) = ex.eval_int(st, x) {
            Rc::make_mut(&mut st.model).insert(id, MV::N(v));
        }
        ex.learn(st, eq);
    }
    put(ex, iv)
});
/// narrowed variables replaced by what they stand for
fn widen(ex: &mut Ex, t: T) -> T {
    let p = ex.tm.poly_of(t);
    let mut r = ex.tm.iconst(&BigInt::zero());
    for (m, c) in p.iter() {
        let mut x = ex.tm.iconst(c);
        for &f in m {
            let g = match ex.tm.n(f) {
                N::IVar(v) => ex.tm.narrowed.get(v).cloned().unwrap_or(f),
                _ => f,
            };
            x = ex.tm.imul(x, g);
        }
        r = ex.tm.iadd(r, x);
    }
    r
}
// the kind of digit a character is, decided separately on each path
vx!(vi_class, |ex, st, a| {
    let r = ex.conc(st, a[1])?;
    let t = ex.t(a[0], 8);
    let mut classes = vec![(0u64, 48u64, 48 + r.min(10) - 1)];
    if r > 10 {
        classes.push((1, 97, 97 + r - 11));
        classes.push((2, 65, 65 + r - 11));
    }
    classes.push((3, 95, 95));
    for (c, lo, hi) in classes {
        let (l, h) = (ex.tm.c(lo as u128, 8), ex.tm.c(hi as u128, 8));
        let (p, q) = (ex.tm.ule(l, t), ex.tm.ule(t, h));
        let e = ex.tm.and(p, q);
        if ex.branch(st, e)? {
            return Ok(V::I(c));
        }
    }
    Ok(V::I(4))
});
vx!(vi_eq, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let r = ex.tm.ieq(x, y);
    boolv(ex, r)
});
vx!(vi_pow, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let n = ex.conc(st, a[1])?;
    if let Some(c) = ex.tm.iconst_val(x) {
        if c.bits() * n > 4_000_000 {
            return Err(Stop::Bad("huge power".into()));
        }
        let r = ex.tm.iconst(&Pow::pow(&c, n));
        return put(ex, r);
    }
    if n > 64 {
        return Err(Stop::Bad("large power of a symbolic integer".into()));
    }
    let mut r = ex.tm.iconst(&BigInt::from(1));
    for _ in 0..n {
        r = ex.tm.imul(r, x);
    }
    put(ex, r)
});
vx!(vi_is_const, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let x = ex.val(st, x);
    Ok(V::I(ex.tm.iconst_val(x).is_some() as u64))
});
// number of values in the term's range, saturating
vx!(vi_span, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let (lo, hi) = ex.tm.range(x);
    Ok(V::I(match (lo, hi) {
        (Some(l), Some(h)) => (h - l).to_u64().unwrap_or(u64::MAX),
        _ => u64::MAX,
    }))
});
vx!(vi_conc, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let lim = ex.conc(st, a[1])?;
    let v = ex.conc_int(st, x, lim)?;
    let k = ex.tm.iconst(&v);
    put(ex, k)
});
vx!(vi_coprime, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    Ok(V::I((st.coprime.contains(&(x, y)) || st.coprime.contains(&(y, x))) as u64))
});
// greatest common divisor of two constants
vx!(vi_gcd, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let (x, y) = (ex.val(st, x), ex.val(st, y));
    match (ex.tm.iconst_val(x), ex.tm.iconst_val(y)) {
        (Some(x), Some(y)) => {
            let g = gcd(&x, &y);
            let r = ex.tm.iconst(&g);
            put(ex, r)
        }
        _ => Err(Stop::Bad("gcd".into())),
    }
});
// a common divisor: the gcd of two constants, otherwise the gcd of the polynomials' coefficients
fn content(p: &[(Vec<T>, BigInt)]) -> BigInt {
    let mut g = BigInt::zero();
    for (_, c) in p {
        g = gcd(&g, c);
    }
    g
}
vx!(vi_lgcd, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let (x, y) = (ex.val(st, x), ex.val(st, y));
    let (p, q) = (ex.tm.poly_of(x), ex.tm.poly_of(y));
    let mut g = gcd(&content(&p), &content(&q));
    if g.is_zero() {
        g = if ex.tm.iconst_val(x).is_some() && ex.tm.iconst_val(y).is_some() { BigInt::zero() } else { BigInt::from(1) };
    }
    let r = ex.tm.iconst(&g);
    put(ex, r)
});
// as above, including common factors of the monomials; the second is known to be non-zero
vx!(vi_cancel, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let (x, y) = (ex.val(st, x), ex.val(st, y));
    if x == y {
        return put(ex, y);
    }
    let (p, q) = (ex.tm.poly_of(x), ex.tm.poly_of(y));
    let g = gcd(&content(&p), &content(&q));
    let mut common: Option<Vec<T>> = None;
    for (m, _) in p.iter().chain(q.iter()) {
        common = Some(match common {
            None => m.clone(),
            Some(c) => {
                let mut m = m.clone();
                let mut o = vec![];
                for x in c {
                    if let Some(i) = m.iter().position(|y| *y == x) {
                        m.swap_remove(i);
                        o.push(x);
                    }
                }
                o
            }
        });
    }
    let mut r = ex.tm.iconst(&g);
    for x in common.unwrap_or_default() {
        r = ex.tm.imul(r, x);
    }
    if p.is_empty() {
        // 0/d = 0/1
        return put(ex, y);
    }
    put(ex, r)
});
// exact division
vx!(vi_exact, |ex, st, a| {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let (x, y) = (ex.val(st, x), ex.val(st, y));
    if x == y {
        let k = ex.tm.iconst(&BigInt::from(1));
        return put(ex, k);
    }
    if let Some(c) = ex.tm.iconst_val(y) {
        if !c.is_positive() {
            let (nx, ny) = (ex.tm.ineg(x), ex.tm.iconst(&-c));
            let r = ex.tm.idiv(nx, ny);
            return put(ex, r);
        }
        let r = ex.tm.idiv(x, y);
        return put(ex, r);
    }
    let (p, q) = (ex.tm.poly_of(x), ex.tm.poly_of(y));
    if p.is_empty() {
        return Ok(V::I(0));
    }
    if q.len() == 1 {
        let mut out = vec![];
        for (m, c) in p.iter() {
            let mut m = m.clone();
            for f in &q[0].0 {
                match m.iter().position(|y| y == f) {
                    Some(i) => {
                        m.remove(i);
                    }
                    None => return Err(Stop::Bad("exact division".into())),
                }
            }
            if !(c % &q[0].1).is_zero() {
                return Err(Stop::Bad("exact division".into()));
            }
            out.push((m, c / &q[0].1));
        }
        let r = ex.tm.mkpoly(out);
        return put(ex, r);
    }
    Err(Stop::Bad("exact division".into()))
});
// smallest prime factor (> 1) of a constant, or the constant itself when it has no factor below 2000
vx!(vi_factor, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let x = ex.val(st, x);
    match ex.tm.iconst_val(x) {
        Some(c) => {
            let c = c.abs();
            for p in 2u32..2000 {
                if (&c % p).is_zero() {
                    let r = ex.tm.iconst(&BigInt::from(p));
                    return put(ex, r);
                }
            }
            let r = ex.tm.iconst(&c);
            put(ex, r)
        }
        _ => Err(Stop::Bad("factor".into())),
    }
});
// i-th 64-bit word of a non-negative integer
vx!(vi_word, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let x = ex.val(st, x);
    let i = ex.conc(st, a[1])?;
    let sh = BigInt::from(1) << (64 * i as usize);
    let (k, m) = (ex.tm.iconst(&sh), ex.tm.iconst(&(BigInt::from(1) << 64usize)));
    let q = ex.tm.idiv(x, k);
    let r = ex.tm.imod(q, m);
    match ex.tm.i2b(r, 64) {
        Some(t) => Ok(ex.v(t)),
        None => Err(Stop::Bad("vi_word".into())),
    }
});
vx!(vi_byte, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let x = ex.val(st, x);
    match ex.tm.i2b(x, 8) {
        Some(t) => Ok(ex.v(t)),
        None => {
            let m = ex.tm.iconst(&BigInt::from(256));
            let r = ex.tm.imod(x, m);
            let t = ex.tm.i2b(r, 8).unwrap();
            Ok(ex.v(t))
        }
    }
});
vx!(vi_bits, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let x = ex.val(st, x);
    match ex.tm.iconst_val(x) {
        Some(c) => Ok(V::I(c.bits())),
        None => Err(Stop::Bad("bit length of a symbolic integer".into())),
    }
});
fn bitop(ex: &mut Ex, st: &mut State, a: &[V], f: fn(BigInt, BigInt) -> BigInt) -> R<V> {
    let (x, y) = (get(ex, st, a[0])?, get(ex, st, a[1])?);
    let (x, y) = (ex.val(st, x), ex.val(st, y));
    match (ex.tm.iconst_val(x), ex.tm.iconst_val(y)) {
        (Some(x), Some(y)) => {
            let r = ex.tm.iconst(&f(x, y));
            put(ex, r)
        }
        _ => Err(Stop::Bad("bitwise operation on a symbolic integer".into())),
    }
}
vx!(vi_and, |ex, st, a| { bitop(ex, st, a, |x, y| x & y) });
vx!(vi_or, |ex, st, a| { bitop(ex, st, a, |x, y| x | y) });
vx!(vi_xor, |ex, st, a| { bitop(ex, st, a, |x, y| x ^ y) });
// the model's floor root of a constant
vx!(vi_root, |ex, st, a| {
    let x = get(ex, st, a[0])?;
    let x = ex.val(st, x);
    let n = ex.conc(st, a[1])? as u32;
    match ex.tm.iconst_val(x) {
        Some(c) => {
            let r = ex.tm.iconst(&num_integer::Roots::nth_root(&c, n));
            put(ex, r)
        }
        None => Err(Stop::Bad("root of a symbolic integer".into())),
    }
});

pub fn lookup(name: &str) -> Option<ExtFn> {
    Some(match name {
        "vi_u64" => vi_u64,
        "vi_digit" => vi_digit,
        "vi_add" => vi_add,
        "vi_sub" => vi_sub,
        "vi_mul" => vi_mul,
        "vi_neg" => vi_neg,
        "vi_divf" => vi_divf,
        "vi_modf" => vi_modf,
        "vi_le" => vi_le,
        "vi_class" => vi_class,
        "vi_narrow" => vi_narrow,
        "vi_fork_le" => vi_fork_le,
        "vi_eq" => vi_eq,
        "vi_pow" => vi_pow,
        "vi_is_const" => vi_is_const,
        "vi_span" => vi_span,
        "vi_conc" => vi_conc,
        "vi_gcd" => vi_gcd,
        "vi_coprime" => vi_coprime,
        "vi_lgcd" => vi_lgcd,
        "vi_cancel" => vi_cancel,
        "vi_exact" => vi_exact,
        "vi_factor" => vi_factor,
        "vi_word" => vi_word,
        "vi_byte" => vi_byte,
        "vi_bits" => vi_bits,
        "vi_and" => vi_and,
        "vi_or" => vi_or,
        "vi_xor" => vi_xor,
        "vi_root" => vi_root,
        _ => return None,
    })
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn gcd_matches() {
        let mut s = 12345u64;
        let mut r = |n: u32| {
            let mut x = BigInt::from(1);
            for _ in 0..n {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                x = (x << 31) + BigInt::from(s >> 33);
            }
            x
        };
        for i in 0..3000 {
            let (a, b, c) = (r(i % 40), r(i % 23), r(i % 17));
            let (x, y) = (-&a * &c, &b * &c);
            assert_eq!(gcd(&x, &y), Integer::gcd(&x, &y));
            assert_eq!(gcd(&y, &BigInt::zero()), Integer::gcd(&y, &BigInt::zero()));
        }
    }
}
