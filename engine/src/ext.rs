//! Intrinsics, externals (libc, allocation, file system model) and the harness interface.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::{mask, sext128, B, T};
use std::rc::Rc;

pub type ExtFn = fn(&mut Ex, &mut State, &[V], (u32, u16)) -> R<V>;

fn bin(ex: &mut Ex, st: &mut State, op: B, w: u16, a: V, b: V) -> R<V> {
    ex.binop(st, op, w, a, b)
}
fn ite(ex: &mut Ex, c: V, a: V, b: V, w: u16) -> V {
    match c {
        V::I(x) => {
            if x & 1 != 0 {
                a
            } else {
                b
            }
        }
        V::S(t) => {
            let (p, q) = (ex.t(a, w), ex.t(b, w));
            let r = ex.tm.ite(t, p, q);
            ex.v(r)
        }
        _ => unreachable!(),
    }
}
fn k(v: u128, w: u16) -> V {
    V::from_u128(v & mask(w), w)
}

pub fn intrinsic(ex: &mut Ex, st: &mut State, i: Intr, a: &[V; 6], args: &[Arg], d: u32, nret: u16, retw: u16) -> R<()> {
    let w = args.first().map_or(64, |x| x.w);
    let mut r2: Option<V> = None;
    let r: V = match i {
        Intr::Nop | Intr::Assume => V::I(0),
        Intr::Memcpy | Intr::Memmove => {
            let n = ex.conc(st, a[2])? as usize;
            let dd = ex.conc(st, a[0])?;
            let s = ex.conc(st, a[1])?;
            ex.memcpy(st, dd, s, n)?;
            V::I(0)
        }
        Intr::Memset => {
            let n = ex.conc(st, a[2])? as usize;
            let dd = ex.conc(st, a[0])?;
            memset(ex, st, dd, a[1], n)?;
            V::I(0)
        }
        Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
            let p = match i {
                Intr::UMin => Pred::Ult,
                Intr::UMax => Pred::Ugt,
                Intr::SMin => Pred::Slt,
                _ => Pred::Sgt,
            };
            let c = ex.icmp(p, w, a[0], a[1]);
            ite(ex, c, a[0], a[1], w)
        }
        Intr::Fshl | Intr::Fshr => {
            let s = ex.conc(st, a[2])? % w as u64;
            let s = if i == Intr::Fshl { s } else { (w as u64 - s) % w as u64 };
            if s == 0 {
                if i == Intr::Fshl {
                    a[0]
                } else {
                    a[1]
                }
            } else {
                let x = bin(ex, st, B::Shl, w, a[0], k(s as u128, w))?;
                let y = bin(ex, st, B::LShr, w, a[1], k(w as u128 - s as u128, w))?;
                bin(ex, st, B::Or, w, x, y)?
            }
        }
        Intr::UAddO => {
            let s = bin(ex, st, B::Add, w, a[0], a[1])?;
            r2 = Some(ex.icmp(Pred::Ult, w, s, a[0]));
            s
        }
        Intr::USubO => {
            r2 = Some(ex.icmp(Pred::Ult, w, a[0], a[1]));
            bin(ex, st, B::Sub, w, a[0], a[1])?
        }
        Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
            if w > 64 {
                match (a[0].conc(), a[1].conc()) {
                    (Some(x), Some(y)) if i == Intr::UMulO => {
                        let (p, o) = x.overflowing_mul(y);
                        r2 = Some(V::I(o as u64));
                        k(p, w)
                    }
                    _ => return Err(Stop::Bad("wide overflow operation".into())),
                }
            } else {
                let signed = i != Intr::UMulO;
                let op = match i {
                    Intr::SAddO => B::Add,
                    Intr::SSubO => B::Sub,
                    _ => B::Mul,
                };
                if let (V::I(x), V::I(y)) = (a[0], a[1]) {
                    let (p, o) = if signed {
                        let (x, y) = (sext128(x as u128, w), sext128(y as u128, w));
                        let p = match op {
                            B::Add => x + y,
                            B::Sub => x - y,
                            _ => x * y,
                        };
                        (p as u128 & mask(w), sext128(p as u128 & mask(w), w) != p)
                    } else {
                        let p = x as u128 * y as u128;
                        (p & mask(w), p > mask(w))
                    };
                    r2 = Some(V::I(o as u64));
                    k(p, w)
                } else {
                    let w2 = if op == B::Mul { 2 * w } else { w + 1 };
                    let (x, y) = (ex.t(a[0], w), ex.t(a[1], w));
                    let (x2, y2) = if signed { (ex.tm.sext(x, w2), ex.tm.sext(y, w2)) } else { (ex.tm.zext(x, w2), ex.tm.zext(y, w2)) };
                    let p2 = ex.tm.bin(op, x2, y2);
                    let p = ex.tm.bin(op, x, y);
                    let pe = if signed { ex.tm.sext(p, w2) } else { ex.tm.zext(p, w2) };
                    let e = ex.tm.eq(p2, pe);
                    let ne = ex.tm.not(e);
                    r2 = Some(ex.v(ne));
                    ex.v(p)
                }
            }
        }
        Intr::UCmp | Intr::SCmp => {
            let p = if i == Intr::UCmp { Pred::Ult } else { Pred::Slt };
            let lt = ex.icmp(p, w, a[0], a[1]);
            let eq = ex.icmp(Pred::Eq, w, a[0], a[1]);
            let x = ite(ex, eq, k(0, retw), k(1, retw), retw);
            ite(ex, lt, k(!0, retw), x, retw)
        }
        Intr::Ctlz | Intr::Cttz => match a[0].conc() {
            Some(x) => {
                let r = if i == Intr::Ctlz {
                    (x << (128 - w as u32)).leading_zeros().min(w as u32)
                } else {
                    x.trailing_zeros().min(w as u32)
                };
                k(r as u128, w)
            }
            None => {
                let t = ex.t(a[0], w);
                let mut r = ex.tm.c(w as u128, w);
                for b in 0..w {
                    // lowest priority first
                    let bit = if i == Intr::Ctlz { b } else { w - 1 - b };
                    let e = ex.tm.extract(t, bit, 1);
                    let v = if i == Intr::Ctlz { w - 1 - bit } else { bit };
                    let kv = ex.tm.c(v as u128, w);
                    r = ex.tm.ite(e, kv, r);
                }
                ex.v(r)
            }
        },
        Intr::Ctpop => match a[0].conc() {
            Some(x) => k(x.count_ones() as u128, w),
            None => {
                let t = ex.t(a[0], w);
                let mut r = ex.tm.c(0, w);
                for b in 0..w {
                    let e = ex.tm.extract(t, b, 1);
                    let z = ex.tm.zext(e, w);
                    r = ex.tm.bin(B::Add, r, z);
                }
                ex.v(r)
            }
        },
        Intr::Bswap => {
            let n = w / 8;
            match a[0].conc() {
                Some(x) => k(x.swap_bytes() >> (128 - w as u32), w),
                None => {
                    let t = ex.t(a[0], w);
                    let mut r = ex.tm.extract(t, 0, 8);
                    for b in 1..n {
                        let e = ex.tm.extract(t, b * 8, 8);
                        r = ex.tm.concat(r, e);
                    }
                    ex.v(r)
                }
            }
        }
        Intr::Bitreverse => {
            let x = ex.conc(st, a[0])?;
            k((x as u128).reverse_bits() >> (128 - w as u32), w)
        }
        Intr::Abs => {
            let c = ex.icmp(Pred::Slt, w, a[0], k(0, w));
            let n = bin(ex, st, B::Sub, w, k(0, w), a[0])?;
            ite(ex, c, n, a[0], w)
        }
        Intr::UAddSat => {
            let s = bin(ex, st, B::Add, w, a[0], a[1])?;
            let o = ex.icmp(Pred::Ult, w, s, a[0]);
            ite(ex, o, k(!0, w), s, w)
        }
        Intr::USubSat => {
            let s = bin(ex, st, B::Sub, w, a[0], a[1])?;
            let o = ex.icmp(Pred::Ult, w, a[0], a[1]);
            ite(ex, o, k(0, w), s, w)
        }
        Intr::SAddSat | Intr::SSubSat => {
            let (x, y) = match (a[0].conc(), a[1].conc()) {
                (Some(x), Some(y)) => (sext128(x, w), sext128(y, w)),
                _ => return Err(Stop::Bad("symbolic signed saturation".into())),
            };
            let r = if i == Intr::SAddSat { x + y } else { x - y };
            let hi = (mask(w) >> 1) as i128;
            k(r.clamp(-hi - 1, hi) as u128, w)
        }
        Intr::ThreadLocal => a[0],
        Intr::LoadRelative => {
            let p = bin(ex, st, B::Add, 64, a[0], a[1])?;
            let o = ex.addr_load(st, p, 0, 32)?;
            let o = match o {
                V::I(x) => V::I(x as u32 as i32 as i64 as u64),
                V::S(t) => {
                    let r = ex.tm.sext(t, 64);
                    ex.v(r)
                }
                _ => unreachable!(),
            };
            // entries are distances of object numbers (see `konst`)
            let o = bin(ex, st, B::Shl, 64, o, V::I(32))?;
            bin(ex, st, B::Add, 64, a[0], o)?
        }
        Intr::VaStart => {
            let p = ex.conc(st, a[0])?;
            ex.store(st, p, 32, V::I(48))?;
            ex.store(st, p + 4, 32, V::I(304))?;
            let va = (st.fr.va as u64) << 32;
            ex.store(st, p + 8, 64, V::I(va))?;
            ex.store(st, p + 16, 64, V::I(0))?;
            V::I(0)
        }
        Intr::VaEnd => V::I(0),
        Intr::Trap => return Err(Stop::Panic("trap (abort)".into())),
        Intr::AddCarry | Intr::SubBorrow => {
            // (i8 carry, i64 a, i64 b) -> {i8, i64}
            let w = 64;
            let ct = match a[0] {
                V::I(x) => V::I((x != 0) as u64),
                v => {
                    let e = ex.icmp(Pred::Ne, 8, v, V::I(0));
                    match e {
                        V::S(t) => {
                            let z = ex.tm.zext(t, 64);
                            ex.v(z)
                        }
                        x => x,
                    }
                }
            };
            let (s, c) = if i == Intr::AddCarry {
                let s = bin(ex, st, B::Add, w, a[1], a[2])?;
                let c1 = ex.icmp(Pred::Ult, w, s, a[1]);
                let s2 = bin(ex, st, B::Add, w, s, ct)?;
                let c2 = ex.icmp(Pred::Ult, w, s2, s);
                (s2, ite(ex, c1, V::I(1), c2, 1))
            } else {
                let s = bin(ex, st, B::Sub, w, a[1], a[2])?;
                let c1 = ex.icmp(Pred::Ult, w, a[1], a[2]);
                let s2 = bin(ex, st, B::Sub, w, s, ct)?;
                let c2 = ex.icmp(Pred::Ult, w, s, ct);
                (s2, ite(ex, c1, V::I(1), c2, 1))
            };
            let c8 = match c {
                V::I(x) => V::I(x),
                V::S(t) => {
                    let z = ex.tm.zext(t, 8);
                    ex.v(z)
                }
                _ => unreachable!(),
            };
            r2 = Some(s);
            c8
        }
        Intr::Fmuladd | Intr::Ceil | Intr::Floor | Intr::FTrunc | Intr::Sqrt | Intr::Log2 | Intr::Fabs | Intr::Pow | Intr::Copysign | Intr::Round => {
            let mut f = [0f64; 3];
            for j in 0..args.len().min(3) {
                let x = match a[j].conc() {
                    Some(x) => x,
                    None => return Err(Stop::Bad("floating point on a symbolic value".into())),
                };
                f[j] = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            }
            let r = match i {
                Intr::Fmuladd => f[0] * f[1] + f[2],
                Intr::Ceil => f[0].ceil(),
                Intr::Floor => f[0].floor(),
                Intr::FTrunc => f[0].trunc(),
                Intr::Sqrt => f[0].sqrt(),
                Intr::Log2 => f[0].log2(),
                Intr::Fabs => f[0].abs(),
                Intr::Copysign => f[0].copysign(f[1]),
                Intr::Round => f[0].round(),
                _ => f[0].powf(f[1]),
            };
            if w == 32 {
                V::I((r as f32).to_bits() as u64)
            } else {
                V::I(r.to_bits())
            }
        }
        Intr::FpToUiSat | Intr::FpToSiSat => {
            let x = match a[0].conc() {
                Some(x) => x,
                None => return Err(Stop::Bad("floating point on a symbolic value".into())),
            };
            let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            if i == Intr::FpToUiSat {
                k((f as u128).min(mask(retw)), retw)
            } else {
                let hi = (mask(retw) >> 1) as i128;
                k((f as i128).clamp(-hi - 1, hi) as u128, retw)
            }
        }
        Intr::Expect => a[0],
        Intr::IsConstant => V::I(0),
        Intr::ObjectSize => V::I(!0),
        Intr::StackSave | Intr::FrameAddress => V::I(0),
        Intr::PtrMask => bin(ex, st, B::And, 64, a[0], a[1])?,
        Intr::UShlSat | Intr::Unknown => {
            return Err(Stop::Bad(format!("unknown intrinsic in {}", st.fr.f.short)));
        }
    };
    if nret > 0 {
        st.fr.regs[d as usize] = r;
        if let Some(x) = r2 {
            st.fr.regs[d as usize + 1] = x;
        }
    }
    st.fr.pc += 1;
    Ok(())
}

pub fn inline_asm(ex: &mut Ex, st: &mut State, s: &str, a: &[V], d: u32, nret: u16) -> R<()> {
    if s.is_empty() {
        if nret == 1 && !a.is_empty() {
            st.fr.regs[d as usize] = a[0];
        }
        st.fr.pc += 1;
        return Ok(());
    }
    if s.starts_with("div ") {
        // operands: divisor, hi (dx), lo (ax) in some order; outputs {ax, dx} or {dx, ax}: see num-bigint div_wide
        let c: Option<Vec<u128>> = a.iter().map(|x| x.conc()).collect();
        if let Some(c) = c {
            let (div, hi, lo) = (c[0], c[1], c[2]);
            let n = (hi << 64) | lo;
            if div == 0 || n / div > u64::MAX as u128 {
                return Err(Stop::Bad("div overflow".into()));
            }
            // {dx, ax} = {rem, quo}
            st.fr.regs[d as usize] = V::I((n % div) as u64);
            st.fr.regs[d as usize + 1] = V::I((n / div) as u64);
            st.fr.pc += 1;
            return Ok(());
        }
        let t: Vec<T> = a
            .iter()
            .map(|x| {
                let t = ex.t(*x, 64);
                t
            })
            .collect();
        let n = ex.tm.concat(t[1], t[2]);
        let dv = ex.tm.zext(t[0], 128);
        let q = ex.tm.bin(B::UDiv, n, dv);
        let r = ex.tm.bin(B::URem, n, dv);
        let (q, r) = (ex.tm.extract(q, 0, 64), ex.tm.extract(r, 0, 64));
        st.fr.regs[d as usize] = ex.v(r);
        st.fr.regs[d as usize + 1] = ex.v(q);
        st.fr.pc += 1;
        return Ok(());
    }
    Err(Stop::Bad(format!("inline asm {:?}", s)))
}

pub fn memset(ex: &mut Ex, st: &mut State, d: u64, v: V, n: usize) -> R<()> {
    if n == 0 {
        return Ok(());
    }
    let off = d as u32 as usize;
    match st.mem.get_mut((d >> 32) as u32) {
        Some(o) if off + n <= o.d.len() && !o.ro => {
            if let V::I(x) = v {
                o.d[off..off + n].fill(x as u8);
                if let Some(s) = &mut o.s {
                    s[off..off + n].fill(0);
                }
            } else {
                for i in 0..n {
                    o.set_byte(off + i, v);
                }
            }
            Ok(())
        }
        _ => {
            let _ = ex;
            Err(Stop::Bad(format!("memset out of bounds {:#x}+{}", d, n)))
        }
    }
}

// ---------------------------------------------------------------- externals

macro_rules! ext {
    ($f:ident, |$ex:ident, $st:ident, $a:ident| $b:block) => {
        fn $f($ex: &mut Ex, $st: &mut State, $a: &[V], _d: (u32, u16)) -> R<V> {
            #[allow(unused_mut)]
            let mut r = || -> R<V> { $b };
            r()
        }
    };
}

ext!(zero, |_ex, _st, _a| { Ok(V::I(0)) });
ext!(one, |_ex, _st, _a| { Ok(V::I(1)) });
ext!(minus1, |_ex, st, _a| {
    set_errno(st, 38);
    Ok(V::I(!0))
});

fn check_alloc(ex: &mut Ex, st: &mut State, n: u64) -> R<()> {
    let _ = ex;
    if n > 1 << 30 {
        return Err(Stop::Bad(format!("allocation of {} bytes in {}", n, st.fr.f.short)));
    }
    Ok(())
}
ext!(rust_alloc, |ex, st, a| {
    let n = ex.conc(st, a[0])?;
    check_alloc(ex, st, n)?;
    st.nalloc += 1;
    Ok(V::I(st.mem.alloc(n as usize)))
});
ext!(rust_dealloc, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    st.mem.del((p >> 32) as u32);
    Ok(V::I(0))
});
// (ptr, old size, align, new size)
ext!(rust_realloc, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let n = ex.conc(st, a[3])?;
    check_alloc(ex, st, n)?;
    realloc(ex, st, p, n)
});
fn realloc(ex: &mut Ex, st: &mut State, p: u64, n: u64) -> R<V> {
    let id = (p >> 32) as u32;
    let o = match st.mem.get(id) {
        Some(o) => o.clone(),
        None => return Err(Stop::Bad(format!("realloc of {:#x}", p))),
    };
    let _ = ex;
    let q = st.mem.alloc(n as usize);
    let k = (n as usize).min(o.d.len());
    st.mem.get_mut((q >> 32) as u32).unwrap().copy_from(0, &o, 0, k);
    st.mem.del(id);
    Ok(V::I(q))
}
ext!(c_realloc, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let n = ex.conc(st, a[1])?;
    check_alloc(ex, st, n)?;
    if p == 0 {
        return Ok(V::I(st.mem.alloc(n as usize)));
    }
    realloc(ex, st, p, n)
});
ext!(c_calloc, |ex, st, a| {
    let n = ex.conc(st, a[0])? * ex.conc(st, a[1])?;
    check_alloc(ex, st, n)?;
    Ok(V::I(st.mem.alloc(n as usize)))
});
ext!(posix_memalign, |ex, st, a| {
    let n = ex.conc(st, a[2])?;
    let p = ex.conc(st, a[0])?;
    check_alloc(ex, st, n)?;
    let q = st.mem.alloc(n as usize);
    ex.store(st, p, 64, V::I(q))?;
    Ok(V::I(0))
});

fn cmp_bytes(ex: &mut Ex, st: &mut State, a: &[V], ordered: bool) -> R<V> {
    let n = ex.conc(st, a[2])? as usize;
    if n == 0 {
        return Ok(V::I(0));
    }
    let p = ex.conc(st, a[0])?;
    let q = ex.conc(st, a[1])?;
    let x = ex.read_bytes(st, p, n)?;
    let y = ex.read_bytes(st, q, n)?;
    if x.iter().chain(y.iter()).all(|v| matches!(v, V::I(_))) {
        for i in 0..n {
            if x[i] != y[i] {
                let (V::I(u), V::I(v)) = (x[i], y[i]) else { unreachable!() };
                return Ok(V::I((u as i32 - v as i32) as u32 as u64));
            }
        }
        return Ok(V::I(0));
    }
    if !ordered {
        let mut c = ex.tm.tru();
        for i in 0..n {
            let (u, v) = (ex.t(x[i], 8), ex.t(y[i], 8));
            let e = ex.tm.eq(u, v);
            c = ex.tm.and(c, e);
        }
        let (z, o) = (ex.tm.c(0, 32), ex.tm.c(1, 32));
        let r = ex.tm.ite(c, z, o);
        return Ok(ex.v(r));
    }
    let mut r = ex.tm.c(0, 32);
    for i in (0..n).rev() {
        let (u, v) = (ex.t(x[i], 8), ex.t(y[i], 8));
        let e = ex.tm.eq(u, v);
        let (zu, zv) = (ex.tm.zext(u, 32), ex.tm.zext(v, 32));
        let d = ex.tm.bin(B::Sub, zu, zv);
        r = ex.tm.ite(e, r, d);
    }
    Ok(ex.v(r))
}
ext!(memcmp, |ex, st, a| { cmp_bytes(ex, st, a, true) });
ext!(bcmp, |ex, st, a| { cmp_bytes(ex, st, a, false) });
ext!(c_memcpy, |ex, st, a| {
    let n = ex.conc(st, a[2])? as usize;
    let d = ex.conc(st, a[0])?;
    let s = ex.conc(st, a[1])?;
    ex.memcpy(st, d, s, n)?;
    Ok(V::I(d))
});
ext!(c_memset, |ex, st, a| {
    let n = ex.conc(st, a[2])? as usize;
    let d = ex.conc(st, a[0])?;
    let v = match a[1] {
        V::I(x) => V::I(x & 255),
        V::S(t) => {
            let e = ex.tm.extract(t, 0, 8);
            ex.v(e)
        }
        x => x,
    };
    memset(ex, st, d, v, n)?;
    Ok(V::I(d))
});
fn byte_is(ex: &mut Ex, st: &mut State, v: V, c: u8) -> R<bool> {
    let e = ex.icmp(Pred::Eq, 8, v, V::I(c as u64));
    ex.branch_v(st, e)
}
ext!(strlen, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let mut n = 0;
    loop {
        let v = ex.load(st, p + n, 8)?;
        if byte_is(ex, st, v, 0)? {
            return Ok(V::I(n));
        }
        n += 1;
    }
});
fn strcmp_n(ex: &mut Ex, st: &mut State, a: &[V], lim: u64) -> R<V> {
    let p = ex.conc(st, a[0])?;
    let q = ex.conc(st, a[1])?;
    let mut n = 0;
    while n < lim {
        let x = ex.load(st, p + n, 8)?;
        let y = ex.load(st, q + n, 8)?;
        let e = ex.icmp(Pred::Eq, 8, x, y);
        if !ex.branch_v(st, e)? {
            let l = ex.icmp(Pred::Ult, 8, x, y);
            return Ok(if ex.branch_v(st, l)? { V::I(0xffff_ffff) } else { V::I(1) });
        }
        if byte_is(ex, st, x, 0)? {
            return Ok(V::I(0));
        }
        n += 1;
    }
    Ok(V::I(0))
}
ext!(strcmp, |ex, st, a| { strcmp_n(ex, st, a, !0) });
ext!(strncmp, |ex, st, a| {
    let n = ex.conc(st, a[2])?;
    strcmp_n(ex, st, a, n)
});
ext!(strrchr, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let c = ex.conc(st, a[1])? as u8;
    let s = ex.cstr(st, p)?;
    Ok(V::I(match s.as_bytes().iter().rposition(|x| *x == c) {
        Some(i) => p + i as u64,
        None => 0,
    }))
});
ext!(strcspn, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let q = ex.conc(st, a[1])?;
    let s = ex.cstr(st, p)?;
    let t = ex.cstr(st, q)?;
    Ok(V::I(s.bytes().position(|x| t.as_bytes().contains(&x)).unwrap_or(s.len()) as u64))
});
ext!(memchr, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let c = ex.conc(st, a[1])? as u8;
    let n = ex.conc(st, a[2])?;
    for i in 0..n {
        let v = ex.load(st, p + i, 8)?;
        if byte_is(ex, st, v, c)? {
            return Ok(V::I(p + i));
        }
    }
    Ok(V::I(0))
});
ext!(memrchr, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let c = ex.conc(st, a[1])? as u8;
    let n = ex.conc(st, a[2])?;
    for i in (0..n).rev() {
        let v = ex.load(st, p + i, 8)?;
        if byte_is(ex, st, v, c)? {
            return Ok(V::I(p + i));
        }
    }
    Ok(V::I(0))
});

// ---- panics
fn panic_at(ex: &mut Ex, st: &mut State, a: &[V], _d: (u32, u16)) -> R<V> {
    let l = ex.conc(st, *a.last().unwrap())?;
    let p = ex.load(st, l, 64)?.conc().unwrap() as u64;
    let n = ex.load(st, l + 8, 64)?.conc().unwrap() as usize;
    let line = ex.load(st, l + 16, 32)?.conc().unwrap();
    let f = ex.read_conc(st, p, n)?;
    let f = String::from_utf8_lossy(&f).to_string();
    let f = match f.rfind("/library/") {
        Some(i) => format!("std{}", &f[i + 8..]),
        None => match f.rfind("/src/") {
            Some(i) if f.contains("/registry/") => {
                let c = f[..i].rsplit('/').next().unwrap_or("");
                format!("{}{}", c, &f[i..])
            }
            _ => f,
        },
    };
    Err(Stop::Panic(format!("{}:{}", f.trim_end_matches('\0'), line)))
}
ext!(do_abort, |_ex, _st, _a| { Err(Stop::Panic("abort".into())) });
ext!(do_exit, |_ex, _st, _a| { Err(Stop::End) });

// ---- environment
pub fn set_errno(st: &mut State, e: u32) {
    let id = (st.errno >> 32) as u32;
    st.mem.get_mut(id).unwrap().d[..4].copy_from_slice(&e.to_le_bytes());
}
ext!(errno_loc, |_ex, st, _a| { Ok(V::I(st.errno)) });
ext!(getenv, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let n = ex.cstr(st, p)?;
    let v = match st.env.get(&n) {
        Some(v) => v.clone(),
        None => return Ok(V::I(0)),
    };
    let q = st.mem.alloc(v.len() + 1);
    ex.write_bytes(st, q, v.as_bytes())?;
    Ok(V::I(q))
});
ext!(setenv, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let q = ex.conc(st, a[1])?;
    let (n, v) = (ex.cstr(st, p)?, ex.cstr(st, q)?);
    Rc::make_mut(&mut st.env).insert(n, v);
    Ok(V::I(0))
});
ext!(unsetenv, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let n = ex.cstr(st, p)?;
    Rc::make_mut(&mut st.env).remove(&n);
    Ok(V::I(0))
});
ext!(sysconf, |ex, st, a| {
    let n = ex.conc(st, a[0])?;
    Ok(V::I(match n as u32 {
        30 => 4096,
        84 | 83 => 1,
        70 => 1024,
        _ => !0,
    }))
});
ext!(time, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    if p != 0 {
        ex.store(st, p, 64, V::I(1_700_000_000))?;
    }
    Ok(V::I(1_700_000_000))
});
ext!(gettimeofday, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    ex.store(st, p, 64, V::I(1_700_000_000))?;
    ex.store(st, p + 8, 64, V::I(0))?;
    Ok(V::I(0))
});
ext!(clock_gettime, |ex, st, a| {
    let p = ex.conc(st, a[1])?;
    ex.store(st, p, 64, V::I(1_700_000_000))?;
    ex.store(st, p + 8, 64, V::I(0))?;
    Ok(V::I(0))
});
ext!(getpid, |_ex, _st, _a| { Ok(V::I(4242)) });
ext!(syscall, |ex, st, a| {
    let n = ex.conc(st, a[0])?;
    match n {
        202 => Ok(V::I(0)),
        318 => {
            let p = ex.conc(st, a[1])?;
            let l = ex.conc(st, a[2])?;
            memset(ex, st, p, V::I(0), l as usize)?;
            Ok(V::I(l))
        }
        _ => Err(Stop::Bad(format!("system call {}", n))),
    }
});
ext!(getrandom, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let l = ex.conc(st, a[1])?;
    memset(ex, st, p, V::I(0), l as usize)?;
    Ok(V::I(l))
});
ext!(mmap, |ex, st, a| {
    let n = ex.conc(st, a[1])?;
    check_alloc(ex, st, n)?;
    Ok(V::I(st.mem.alloc(n as usize)))
});

// ---- file system
fn err(st: &mut State, e: u32) -> R<V> {
    set_errno(st, e);
    Ok(V::I(!0))
}
fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}
/// a point at which the file system changes: crash or failure may be injected. Some(errno) = fail.
fn inj(ex: &mut Ex, st: &mut State) -> R<Option<u32>> {
    if let Some((t, mode, n)) = st.inj {
        if st.inj_hit && mode == 3 {
            return Ok(Some(28));
        }
        let w = ex.tm.w(t);
        let kk = ex.tm.c(n as u128, w);
        let e = ex.tm.eq(t, kk);
        let hit = ex.branch(st, e)?;
        st.inj = Some((t, mode, n + 1));
        if hit {
            st.inj_hit = true;
            return match mode {
                1 => Err(Stop::Crash),
                _ => Ok(Some(if mode == 2 { 5 } else { 28 })),
            };
        }
    }
    Ok(None)
}
ext!(fs_open, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let path = ex.cstr(st, p)?;
    let path = norm(&path);
    let flags = ex.conc(st, a[1])? as u32;
    let ino = match st.fs.names.get(&path) {
        Some(&i) => {
            if flags & 0x40 != 0 && flags & 0x80 != 0 {
                return err(st, 17);
            }
            if st.fs.files[&i].dir && flags & 3 != 0 {
                return err(st, 21);
            }
            i
        }
        None => {
            if flags & 0x40 == 0 {
                return err(st, 2);
            }
            if !st.fs.names.contains_key(&parent(&path)) {
                return err(st, 2);
            }
            if let Some(e) = inj(ex, st)? {
                return err(st, e);
            }
            let fs = Rc::make_mut(&mut st.fs);
            fs.next_ino += 1;
            let i = fs.next_ino;
            fs.names.insert(path.clone(), i);
            fs.files.insert(i, File { o: Rc::new(Obj::new(0)), ino: i, dir: false });
            i
        }
    };
    if flags & 0x200 != 0 {
        if let Some(e) = inj(ex, st)? {
            return err(st, e);
        }
        let fs = Rc::make_mut(&mut st.fs);
        fs.files.get_mut(&ino).unwrap().o = Rc::new(Obj::new(0));
    }
    let fs = Rc::make_mut(&mut st.fs);
    let fd = (3..).find(|&i| i >= fs.fds.len() || fs.fds[i].is_none()).unwrap();
    if fd >= fs.fds.len() {
        fs.fds.resize(fd + 1, None);
    }
    fs.fds[fd] = Some(Fd { ino, pos: 0, path });
    Ok(V::I(fd as u64))
});
ext!(fs_close, |ex, st, a| {
    let fd = ex.conc(st, a[0])? as u32 as usize;
    let fs = Rc::make_mut(&mut st.fs);
    if fd < fs.fds.len() {
        fs.fds[fd] = None;
    }
    Ok(V::I(0))
});
fn fdget(st: &State, fd: u64) -> Option<Fd> {
    st.fs.fds.get(fd as u32 as usize).cloned().flatten()
}
fn do_read(ex: &mut Ex, st: &mut State, fd: u64, buf: u64, n: u64, pos: Option<u64>) -> R<V> {
    if fd as u32 == 0 {
        return Ok(V::I(0));
    }
    let f = match fdget(st, fd) {
        Some(f) => f,
        None => return err(st, 9),
    };
    let o = st.fs.files[&f.ino].o.clone();
    let p = pos.unwrap_or(f.pos);
    let len = o.d.len() as u64;
    let k = if p >= len { 0 } else { n.min(len - p) };
    let off = buf as u32 as usize;
    if k > 0 {
        match st.mem.get_mut((buf >> 32) as u32) {
            Some(d) if off + k as usize <= d.d.len() => d.copy_from(off, &o, p as usize, k as usize),
            _ => return Err(Stop::Bad("read out of bounds".into())),
        }
    }
    let _ = ex;
    if pos.is_none() {
        Rc::make_mut(&mut st.fs).fds[fd as u32 as usize].as_mut().unwrap().pos = p + k;
    }
    Ok(V::I(k))
}
fn do_write(ex: &mut Ex, st: &mut State, fd: u64, buf: u64, n: u64, pos: Option<u64>) -> R<V> {
    let src = if n > 0 {
        match st.mem.get((buf >> 32) as u32) {
            Some(o) if buf as u32 as usize + n as usize <= o.d.len() => o.clone(),
            _ => return Err(Stop::Bad("write out of bounds".into())),
        }
    } else {
        Rc::new(Obj::new(0))
    };
    let so = buf as u32 as usize;
    if fd as u32 == 1 && st.out_broken {
        return err(st, 28);
    }
    if fd as u32 == 1 || fd as u32 == 2 {
        let o = Rc::make_mut(if fd as u32 == 1 { &mut st.out } else { &mut st.err });
        let l = o.d.len();
        o.resize(l + n as usize);
        o.copy_from(l, &src, so, n as usize);
        return Ok(V::I(n));
    }
    let f = match fdget(st, fd) {
        Some(f) => f,
        None => return err(st, 9),
    };
    if let Some(e) = inj(ex, st)? {
        return err(st, e);
    }
    let p = pos.unwrap_or(f.pos);
    let fs = Rc::make_mut(&mut st.fs);
    let o = Rc::make_mut(&mut fs.files.get_mut(&f.ino).unwrap().o);
    let end = (p + n) as usize;
    if o.d.len() < end {
        o.resize(end);
    }
    o.copy_from(p as usize, &src, so, n as usize);
    if pos.is_none() {
        fs.fds[fd as u32 as usize].as_mut().unwrap().pos = p + n;
    }
    Ok(V::I(n))
}
ext!(fs_read, |ex, st, a| {
    let (fd, b, n) = (ex.conc(st, a[0])?, ex.conc(st, a[1])?, ex.conc(st, a[2])?);
    do_read(ex, st, fd, b, n, None)
});
ext!(fs_pread, |ex, st, a| {
    let (fd, b, n, p) = (ex.conc(st, a[0])?, ex.conc(st, a[1])?, ex.conc(st, a[2])?, ex.conc(st, a[3])?);
    do_read(ex, st, fd, b, n, Some(p))
});
ext!(fs_write, |ex, st, a| {
    let (fd, b, n) = (ex.conc(st, a[0])?, ex.conc(st, a[1])?, ex.conc(st, a[2])?);
    do_write(ex, st, fd, b, n, None)
});
ext!(fs_writev, |ex, st, a| {
    let (fd, v, n) = (ex.conc(st, a[0])?, ex.conc(st, a[1])?, ex.conc(st, a[2])?);
    let mut tot = 0;
    for i in 0..n {
        let b = ex.load(st, v + 16 * i, 64)?;
        let l = ex.load(st, v + 16 * i + 8, 64)?;
        let (b, l) = (ex.conc(st, b)?, ex.conc(st, l)?);
        match do_write(ex, st, fd, b, l, None)? {
            V::I(k) if k == l => tot += l,
            r => return Ok(r),
        }
    }
    Ok(V::I(tot))
});
ext!(fs_pwrite, |ex, st, a| {
    let (fd, b, n, p) = (ex.conc(st, a[0])?, ex.conc(st, a[1])?, ex.conc(st, a[2])?, ex.conc(st, a[3])?);
    do_write(ex, st, fd, b, n, Some(p))
});
ext!(fs_lseek, |ex, st, a| {
    let (fd, off, wh) = (ex.conc(st, a[0])?, ex.conc(st, a[1])?, ex.conc(st, a[2])? as u32);
    let f = match fdget(st, fd) {
        Some(f) => f,
        None => return err(st, if (fd as u32) < 3 { 29 } else { 9 }),
    };
    let len = st.fs.files[&f.ino].o.d.len() as u64;
    let p = match wh {
        0 => off,
        1 => f.pos.wrapping_add(off),
        _ => len.wrapping_add(off),
    };
    Rc::make_mut(&mut st.fs).fds[fd as u32 as usize].as_mut().unwrap().pos = p;
    Ok(V::I(p))
});
ext!(fs_ftruncate, |ex, st, a| {
    let (fd, n) = (ex.conc(st, a[0])?, ex.conc(st, a[1])?);
    let f = match fdget(st, fd) {
        Some(f) => f,
        None => return err(st, 9),
    };
    if let Some(e) = inj(ex, st)? {
        return err(st, e);
    }
    let fs = Rc::make_mut(&mut st.fs);
    Rc::make_mut(&mut fs.files.get_mut(&f.ino).unwrap().o).resize(n as usize);
    Ok(V::I(0))
});
ext!(fs_fsync, |ex, st, a| {
    let _ = a;
    if let Some((_, m, _)) = st.inj {
        if m != 1 {
            if let Some(e) = inj(ex, st)? {
                return err(st, e);
            }
        }
    }
    Ok(V::I(0))
});
fn fill_stat(ex: &mut Ex, st: &mut State, ino: u64, p: u64) -> R<V> {
    memset(ex, st, p, V::I(0), 144)?;
    let f = st.fs.files[&ino].clone();
    ex.store(st, p, 64, V::I(1))?;
    ex.store(st, p + 8, 64, V::I(ino))?;
    ex.store(st, p + 16, 64, V::I(1))?;
    ex.store(st, p + 24, 32, V::I(if f.dir { 0o040755 } else { 0o100644 }))?;
    ex.store(st, p + 48, 64, V::I(f.o.d.len() as u64))?;
    ex.store(st, p + 56, 64, V::I(4096))?;
    Ok(V::I(0))
}
ext!(fs_stat, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let path = ex.cstr(st, p)?;
    let b = ex.conc(st, a[1])?;
    match st.fs.names.get(&norm(&path)) {
        Some(&i) => fill_stat(ex, st, i, b),
        None => err(st, 2),
    }
});
ext!(fs_fstat, |ex, st, a| {
    let fd = ex.conc(st, a[0])?;
    let b = ex.conc(st, a[1])?;
    match fdget(st, fd) {
        Some(f) => fill_stat(ex, st, f.ino, b),
        None => err(st, 9),
    }
});
ext!(fs_access, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let path = ex.cstr(st, p)?;
    if st.fs.names.contains_key(&norm(&path)) {
        Ok(V::I(0))
    } else {
        err(st, 2)
    }
});
ext!(fs_unlink, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let path = ex.cstr(st, p)?;
    let path = norm(&path);
    if !st.fs.names.contains_key(&path) {
        return err(st, 2);
    }
    if let Some(e) = inj(ex, st)? {
        return err(st, e);
    }
    Rc::make_mut(&mut st.fs).names.remove(&path);
    Ok(V::I(0))
});
ext!(fs_mkdir, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let path = ex.cstr(st, p)?;
    let path = norm(&path);
    if st.fs.names.contains_key(&path) {
        return err(st, 17);
    }
    if !st.fs.names.contains_key(&parent(&path)) {
        return err(st, 2);
    }
    mkdir(st, &path);
    Ok(V::I(0))
});
pub fn mkdir(st: &mut State, path: &str) {
    let fs = Rc::make_mut(&mut st.fs);
    fs.next_ino += 1;
    let i = fs.next_ino;
    fs.names.insert(path.to_string(), i);
    fs.files.insert(i, File { o: Rc::new(Obj::new(0)), ino: i, dir: true });
}
ext!(fs_fcntl, |ex, st, a| {
    let cmd = ex.conc(st, a[1])? as u32;
    if cmd == 5 {
        let p = ex.conc(st, a[2])?;
        ex.store(st, p, 16, V::I(2))?;
    }
    Ok(V::I(0))
});
ext!(fs_getcwd, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    ex.write_bytes(st, p, b"/\0")?;
    Ok(V::I(p))
});
ext!(fs_realpath, |ex, st, a| {
    let p = ex.conc(st, a[0])?;
    let q = ex.conc(st, a[1])?;
    let path = norm(&ex.cstr(st, p)?);
    let q = if q == 0 { st.mem.alloc(path.len() + 1) } else { q };
    ex.write_bytes(st, q, path.as_bytes())?;
    ex.write_bytes(st, q + path.len() as u64, &[0])?;
    Ok(V::I(q))
});
ext!(fs_readlink, |_ex, st, _a| { err(st, 22) });

// ---- harness interface
fn name_arg(ex: &mut Ex, st: &mut State, p: V, n: V) -> R<String> {
    let (p, n) = (ex.conc(st, p)?, ex.conc(st, n)? as usize);
    let b = ex.read_conc(st, p, n)?;
    Ok(String::from_utf8_lossy(&b).to_string())
}
ext!(sym_input, |ex, st, a| {
    let n = name_arg(ex, st, a[0], a[1])?;
    let w = ex.conc(st, a[2])? as u16;
    let t = ex.new_var(st, &n, w)?;
    let z = ex.tm.zext(t, 64);
    Ok(ex.v(z))
});
ext!(sym_assume, |ex, st, a| {
    match a[0] {
        V::I(x) => {
            if x & 1 == 0 {
                return Err(Stop::Dead);
            }
        }
        V::S(t) => ex.assume(st, t)?,
        _ => {}
    }
    Ok(V::I(0))
});
ext!(sym_check, |ex, st, a| {
    let m = name_arg(ex, st, a[1], a[2])?;
    ex.check(st, a[0], &m)?;
    Ok(V::I(0))
});
ext!(sym_conc, |ex, st, a| { Ok(V::I(ex.conc(st, a[0])?)) });
ext!(sym_reach, |ex, st, a| {
    let m = name_arg(ex, st, a[0], a[1])?;
    *ex.st.reach.entry(m).or_default() += 1;
    Ok(V::I(0))
});
// the two numbers behind the pointers are assumed to have no common divisor
ext!(sym_coprime, |ex, st, a| {
    let mut t = vec![];
    for p in &a[0..2] {
        let p = ex.conc(st, *p)?;
        let h = ex.load(st, p, 64)?;
        let h = ex.conc(st, h)?;
        if h == 0 {
            return Err(Stop::Bad("sym_coprime of zero".into()));
        }
        t.push((h - 1) as T);
    }
    let n = ex.tm.ineg(t[0]);
    let c = Rc::make_mut(&mut st.coprime);
    c.insert((t[0], t[1]));
    c.insert((n, t[1]));
    Ok(V::I(0))
});
ext!(sym_note, |ex, st, a| {
    let (p, n) = (ex.conc(st, a[0])?, ex.conc(st, a[1])? as usize);
    let b = ex.read_bytes(st, p, n)?;
    let mut s = String::new();
    for x in b {
        match x {
            V::I(c) => s.push(c as u8 as char),
            V::S(t) => s.push_str(&format!("<{}>", ex.tm.show(t, 3))),
            _ => {}
        }
    }
    eprintln!("NOTE {}", s);
    Ok(V::I(0))
});
fn sym_catch(ex: &mut Ex, st: &mut State, a: &[V], d: (u32, u16)) -> R<V> {
    let f = ex.conc(st, a[0])?;
    let f = match ex.m.addr_func(f) {
        Some(f) => ex.func(f)?,
        None => return Err(Stop::Bad("sym_catch".into())),
    };
    let mut nf = ex.make_frame(st, f, &a[1..2]);
    nf.ret = d.0;
    nf.nret = 0;
    nf.catch = true;
    st.fr.pc += 1;
    let old = std::mem::replace(&mut st.fr, nf);
    st.stack.push(Rc::new(old));
    Ok(V::I(0))
}
ext!(sym_co_start, |ex, st, a| {
    let f = ex.conc(st, a[0])?;
    let f = match ex.m.addr_func(f) {
        Some(f) => ex.func(f)?,
        None => return Err(Stop::Bad("sym_co_start".into())),
    };
    if st.co.is_some() || st.co_in {
        return Err(Stop::Bad("more than two coroutines".into()));
    }
    let nf = ex.make_frame(st, f, &a[1..2]);
    st.co = Some(Rc::new((nf, vec![])));
    Ok(V::I(0))
});
pub fn swap(st: &mut State) {
    if let Some(o) = st.co.take() {
        let (f, s) = match Rc::try_unwrap(o) {
            Ok(x) => x,
            Err(o) => (*o).clone(),
        };
        let f = std::mem::replace(&mut st.fr, f);
        let s = std::mem::replace(&mut st.stack, s);
        st.co = Some(Rc::new((f, s)));
    }
}
/// Goes on with the other coroutine; 1 unless there is none.
fn sym_co_switch(ex: &mut Ex, st: &mut State, _a: &[V], d: (u32, u16)) -> R<V> {
    if st.co.is_none() {
        return Ok(V::I(0));
    }
    if d.1 > 0 {
        st.fr.regs[d.0 as usize] = V::I(1);
    }
    st.fr.pc += 1;
    swap(st);
    st.co_in = !st.co_in;
    ex.switched = true;
    Ok(V::I(1))
}
ext!(sym_new_process, |ex, st, _a| {
    for g in 0..ex.m.globals.len() {
        if !ex.m.globals[g].constant {
            let o = ex.ginit[g].clone();
            st.mem.put((GBASE + g as u64) as u32, o);
        }
    }
    Rc::make_mut(&mut st.fs).fds.clear();
    Ok(V::I(0))
});
ext!(sym_inject, |ex, st, a| {
    let t = ex.t(a[0], 64);
    let mode = ex.conc(st, a[1])? as u8;
    st.inj = Some((t, mode, 0));
    st.inj_hit = false;
    Ok(V::I(0))
});
ext!(sym_split, |ex, st, a| {
    st.split = ex.conc(st, a[0])? as usize;
    Ok(V::I(0))
});
ext!(sym_inject_off, |_ex, st, _a| {
    let n = st.inj.map_or(0, |x| x.2);
    st.inj = None;
    Ok(V::I(n * 2 + st.inj_hit as u64))
});
ext!(sym_out_take, |ex, st, a| {
    let (p, cap) = (ex.conc(st, a[0])?, ex.conc(st, a[1])? as usize);
    let o = st.out.clone();
    let n = o.d.len().min(cap);
    let off = p as u32 as usize;
    if n > 0 {
        match st.mem.get_mut((p >> 32) as u32) {
            Some(d) if off + n <= d.d.len() => d.copy_from(off, &o, 0, n),
            _ => return Err(Stop::Bad("sym_out_take".into())),
        }
    }
    st.out = Rc::new(Obj::new(0));
    Ok(V::I(n as u64))
});
ext!(sym_err_take, |ex, st, a| {
    let (p, cap) = (ex.conc(st, a[0])?, ex.conc(st, a[1])? as usize);
    let o = st.err.clone();
    let n = o.d.len().min(cap);
    let off = p as u32 as usize;
    if n > 0 {
        match st.mem.get_mut((p >> 32) as u32) {
            Some(d) if off + n <= d.d.len() => d.copy_from(off, &o, 0, n),
            _ => return Err(Stop::Bad("sym_err_take".into())),
        }
    }
    st.err = Rc::new(Obj::new(0));
    Ok(V::I(n as u64))
});
/// Writes to stdout fail from now on (1) or succeed again (0).
ext!(sym_out_break, |ex, st, a| {
    st.out_broken = ex.conc(st, a[0])? & 1 == 1;
    Ok(V::I(0))
});
ext!(strerror_r, |ex, st, a| {
    let (n, p, cap) = (ex.conc(st, a[0])?, ex.conc(st, a[1])?, ex.conc(st, a[2])? as usize);
    let mut m = format!("error {}", n as u32).into_bytes();
    m.truncate(cap.saturating_sub(1));
    m.push(0);
    ex.write_bytes(st, p, &m)?;
    Ok(V::I(0))
});
/// rustix's raw system calls: only ioctl on something that is no terminal.
ext!(rustix3, |ex, st, a| {
    match ex.conc(st, a[3])? {
        16 => Ok(V::I((-25i64) as u64)),
        n => Err(Stop::Bad(format!("system call {}", n))),
    }
});
ext!(exit_hook, |_ex, _st, _a| { Ok(V::I(0)) });
ext!(sym_panic_loc, |ex, st, a| {
    let (p, cap) = (ex.conc(st, a[0])?, ex.conc(st, a[1])? as usize);
    let s = st.panic_loc.clone();
    let n = s.len().min(cap);
    ex.write_bytes(st, p, &s.as_bytes()[..n])?;
    Ok(V::I(n as u64))
});
ext!(sym_tmpdir, |ex, st, a| {
    let (p, cap) = (ex.conc(st, a[0])?, ex.conc(st, a[1])? as usize);
    let s = b"/data";
    let n = s.len().min(cap);
    ex.write_bytes(st, p, &s[..n])?;
    Ok(V::I(n as u64))
});

pub fn lookup(name: &str, has_body: bool) -> Option<ExtFn> {
    let f: ExtFn = match name {
        "sym_input" => sym_input,
        "sym_assume" => sym_assume,
        "sym_check" => sym_check,
        "sym_conc" => sym_conc,
        "sym_reach" => sym_reach,
        "sym_note" => sym_note,
        "sym_coprime" => sym_coprime,
        "sym_catch" => sym_catch,
        "sym_new_process" => sym_new_process,
        "sym_inject" => sym_inject,
        "sym_co_start" => sym_co_start,
        "sym_co_switch" => sym_co_switch,
        "sym_split" => sym_split,
        "sym_inject_off" => sym_inject_off,
        "sym_out_take" => sym_out_take,
        "sym_err_take" => sym_err_take,
        "sym_out_break" => sym_out_break,
        "sym_ended" => do_exit,
        "rustix_syscall3_nr_last" => rustix3,
        "__xpg_strerror_r" | "strerror_r" => strerror_r,
        // defined by the harnesses that want to know
        "verif_hook_exit" if !has_body => exit_hook,
        "sym_panic_loc" => sym_panic_loc,
        "sym_tmpdir" => sym_tmpdir,
        "memcmp" => memcmp,
        "bcmp" => bcmp,
        "memcpy" | "memmove" => c_memcpy,
        "memset" => c_memset,
        "strlen" => strlen,
        "strcmp" => strcmp,
        "strncmp" => strncmp,
        "strrchr" => strrchr,
        "strcspn" => strcspn,
        "memchr" => memchr,
        "memrchr" => memrchr,
        _ if has_body => {
            if name.starts_with("_R") && name.contains("4core9panicking") && name.ends_with("9panic_fmt") {
                return Some(panic_at);
            }
            return None;
        }
        "malloc" => rust_alloc,
        "free" => rust_dealloc,
        "realloc" => c_realloc,
        "calloc" => c_calloc,
        "posix_memalign" => posix_memalign,
        "abort" => do_abort,
        "exit" | "_exit" => do_exit,
        "__errno_location" => errno_loc,
        "getenv" => getenv,
        "setenv" => setenv,
        "unsetenv" => unsetenv,
        "sysconf" => sysconf,
        "time" => time,
        "gettimeofday" => gettimeofday,
        "clock_gettime" => clock_gettime,
        "getpid" | "gettid" => getpid,
        "syscall" => syscall,
        "getrandom" => getrandom,
        "mmap64" | "mmap" => mmap,
        "munmap" | "usleep" | "sleep" | "nanosleep" | "geteuid" | "getuid" | "fchmod" | "fchown" | "utimes" | "chmod" | "sched_yield"
        | "__cxa_thread_atexit_impl" | "__cxa_atexit" | "sigaltstack" | "sigaction" | "signal" | "poll" | "pthread_attr_init"
        | "pthread_getattr_np" | "pthread_attr_destroy" | "isatty" => zero,
        "mremap" => minus1,
        "open64" | "open" => fs_open,
        "close" => fs_close,
        "read" => fs_read,
        "write" => fs_write,
        "writev" => fs_writev,
        "pread64" | "pread" => fs_pread,
        "pwrite64" | "pwrite" => fs_pwrite,
        "lseek64" | "lseek" => fs_lseek,
        "ftruncate64" | "ftruncate" => fs_ftruncate,
        "fsync" | "fdatasync" => fs_fsync,
        "stat64" | "stat" | "lstat64" | "lstat" => fs_stat,
        "fstat64" | "fstat" => fs_fstat,
        "statx" => minus1,
        "access" => fs_access,
        "unlink" => fs_unlink,
        "mkdir" => fs_mkdir,
        "fcntl64" | "fcntl" => fs_fcntl,
        "getcwd" => fs_getcwd,
        "realpath" => fs_realpath,
        "readlink" => fs_readlink,
        "pthread_self" => one,
        _ if name.starts_with("pthread_") => zero,
        _ if name.ends_with("12___rust_alloc") => rust_alloc,
        _ if name.ends_with("19___rust_alloc_zeroed") => rust_alloc,
        _ if name.ends_with("14___rust_dealloc") => rust_dealloc,
        _ if name.ends_with("14___rust_realloc") => rust_realloc,
        _ if name.contains("___rust_no_alloc_shim") => zero,
        _ if name.contains("4core9panicking") && name.ends_with("9panic_fmt") => panic_at,
        _ if name.ends_with("___rust_alloc_error_handler") => do_abort,
        _ if name.starts_with("vi_") => return crate::vi::lookup(name),
        _ => return None,
    };
    Some(f)
}
