//! z3 through its C API (loaded with dlopen).
use crate::term::*;
use num_bigint::BigInt;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
}

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let s = dlsym(h, n.as_ptr());
                    if s.is_null() { panic!("z3: no {}", stringify!($name)); }
                    std::mem::transmute(s)
                },)* }
            }
        }
    };
}
api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context_rc: fn(P) -> P;
    Z3_set_error_handler: fn(P, P);
    Z3_get_error_code: fn(P) -> c_int;
    Z3_inc_ref: fn(P, P);
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver: fn(P) -> P;
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P);
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_set_params: fn(P, P, P);
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_reset: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_get_bool_value: fn(P, P) -> c_int;
    Z3_is_numeral_ast: fn(P, P) -> bool;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_mk_int_sort: fn(P) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_int2bv: fn(P, c_uint, P) -> P;
    Z3_mk_bv2int: fn(P, P, bool) -> P;
    Z3_mk_add: fn(P, c_uint, *const P) -> P;
    Z3_mk_mul: fn(P, c_uint, *const P) -> P;
    Z3_mk_div: fn(P, P, P) -> P;
    Z3_mk_mod: fn(P, P, P) -> P;
    Z3_mk_le: fn(P, P, P) -> P;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_solver_to_string: fn(P, P) -> *const c_char;
}

pub enum Res {
    Sat(HashMap<u32, MV>),
    Unsat,
    Unknown,
}

/// A query on its way to integer arithmetic: what its narrow variables can be, and what is translated so far.
#[derive(Default)]
struct Lin {
    dom: HashMap<u32, [u64; 4]>,
    b: HashMap<T, P>,
    v: HashMap<T, (P, BigInt, BigInt)>,
    i: HashMap<T, P>,
}
pub struct Solver {
    a: Api,
    ctx: P,
    s: P,
    s_int: P,
    cache: HashMap<T, P>,
    icache: HashMap<T, Option<P>>,
    wide: HashMap<T, bool>,
    params: P,
    tsym: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub mixed: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    pub version: String,
    pub dump: bool,
}

unsafe extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(70);
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let mut h = std::ptr::null_mut();
            for p in [
                "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
                "/usr/lib/x86_64-linux-gnu/libz3.so",
                "/usr/lib/x86_64-linux-gnu/libz3.so.4",
            ] {
                let c = CString::new(p).unwrap();
                h = dlopen(c.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                eprintln!("cannot load libz3");
                std::process::exit(70);
            }
            let a = Api::load(h);
            let cfg = (a.Z3_mk_config)();
            let ctx = (a.Z3_mk_context_rc)(cfg);
            (a.Z3_set_error_handler)(ctx, on_error as *const () as P);
            let s = (a.Z3_mk_simple_solver)(ctx);
            (a.Z3_solver_inc_ref)(ctx, s);
            let s_int = (a.Z3_mk_solver)(ctx);
            (a.Z3_solver_inc_ref)(ctx, s_int);
            let params = (a.Z3_mk_params)(ctx);
            (a.Z3_params_inc_ref)(ctx, params);
            let n = CString::new("timeout").unwrap();
            let tsym = (a.Z3_mk_string_symbol)(ctx, n.as_ptr());
            (a.Z3_params_set_uint)(ctx, params, tsym, timeout_ms);
            (a.Z3_solver_set_params)(ctx, s, params);
            (a.Z3_solver_set_params)(ctx, s_int, params);
            let version = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().to_string();
            Solver {
                a,
                ctx,
                s,
                s_int,
                cache: HashMap::new(),
                icache: HashMap::new(),
                wide: HashMap::new(),
                params,
                tsym,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                mixed: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
                version,
                dump: std::env::var("SYMEX_DUMP").is_ok(),
            }
        }
    }
    /// intermediate results are kept alive for the rest of the run (the context counts references)
    fn keep(&self, p: P) -> P {
        unsafe { (self.a.Z3_inc_ref)(self.ctx, p) };
        p
    }
    fn num(&self, s: &str, sort: P) -> P {
        let c = CString::new(s).unwrap();
        let r = unsafe { (self.a.Z3_mk_numeral)(self.ctx, c.as_ptr(), sort) };
        self.keep(r)
    }
    fn bv(&self, v: u128, w: u16) -> P {
        unsafe {
            let so = (self.a.Z3_mk_bv_sort)(self.ctx, w as c_uint);
            self.num(&v.to_string(), so)
        }
    }
    /// as a bit-vector even when width is 1
    fn as_bv(&mut self, tm: &Terms, t: T) -> P {
        let z = self.tr(tm, t);
        if tm.w(t) == 1 {
            let (o, n) = (self.bv(1, 1), self.bv(0, 1));
            { let r = unsafe { (self.a.Z3_mk_ite)(self.ctx, z, o, n) }; self.keep(r) }
        } else {
            z
        }
    }
    pub fn tr(&mut self, tm: &Terms, t: T) -> P {
        if let Some(&p) = self.cache.get(&t) {
            return p;
        }
        let w = tm.w(t);
        let c = self.ctx;
        let r = unsafe {
            match tm.n(t).clone() {
                N::Const(v) => {
                    if w == 1 {
                        if v != 0 {
                            (self.a.Z3_mk_true)(c)
                        } else {
                            (self.a.Z3_mk_false)(c)
                        }
                    } else {
                        self.bv(v, w)
                    }
                }
                N::Var(i) | N::IVar(i) => {
                    let n = CString::new(format!("v{}", i)).unwrap();
                    let s = (self.a.Z3_mk_string_symbol)(c, n.as_ptr());
                    let so = match w {
                        0 => (self.a.Z3_mk_int_sort)(c),
                        1 => (self.a.Z3_mk_bool_sort)(c),
                        _ => (self.a.Z3_mk_bv_sort)(c, w as c_uint),
                    };
                    (self.a.Z3_mk_const)(c, s, so)
                }
                N::Bin(op, a, b) => {
                    let (x, y) = (self.tr(tm, a), self.tr(tm, b));
                    if w == 1 {
                        match op {
                            B::And => (self.a.Z3_mk_and)(c, 2, [x, y].as_ptr()),
                            B::Or => (self.a.Z3_mk_or)(c, 2, [x, y].as_ptr()),
                            B::Xor => {
                                if tm.cst(b) == Some(1) {
                                    (self.a.Z3_mk_not)(c, x)
                                } else {
                                    (self.a.Z3_mk_xor)(c, x, y)
                                }
                            }
                            _ => panic!("bool op {:?}", op),
                        }
                    } else {
                        let f = match op {
                            B::Add => self.a.Z3_mk_bvadd,
                            B::Sub => self.a.Z3_mk_bvsub,
                            B::Mul => self.a.Z3_mk_bvmul,
                            B::UDiv => self.a.Z3_mk_bvudiv,
                            B::SDiv => self.a.Z3_mk_bvsdiv,
                            B::URem => self.a.Z3_mk_bvurem,
                            B::SRem => self.a.Z3_mk_bvsrem,
                            B::Shl => self.a.Z3_mk_bvshl,
                            B::LShr => self.a.Z3_mk_bvlshr,
                            B::AShr => self.a.Z3_mk_bvashr,
                            B::And => self.a.Z3_mk_bvand,
                            B::Or => self.a.Z3_mk_bvor,
                            B::Xor => self.a.Z3_mk_bvxor,
                        };
                        f(c, x, y)
                    }
                }
                N::Eq(a, b) => {
                    let (x, y) = (self.tr(tm, a), self.tr(tm, b));
                    (self.a.Z3_mk_eq)(c, x, y)
                }
                N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) => {
                    let (x, y) = (self.as_bv(tm, a), self.as_bv(tm, b));
                    let f = match tm.n(t) {
                        N::Ult(..) => self.a.Z3_mk_bvult,
                        N::Ule(..) => self.a.Z3_mk_bvule,
                        N::Slt(..) => self.a.Z3_mk_bvslt,
                        _ => self.a.Z3_mk_bvsle,
                    };
                    f(c, x, y)
                }
                N::Ite(k, a, b) => {
                    let (k, x, y) = (self.tr(tm, k), self.tr(tm, a), self.tr(tm, b));
                    (self.a.Z3_mk_ite)(c, k, x, y)
                }
                N::Concat(a, b) => {
                    let (x, y) = (self.as_bv(tm, a), self.as_bv(tm, b));
                    (self.a.Z3_mk_concat)(c, x, y)
                }
                N::Extract(a, lo) => {
                    let x = self.as_bv(tm, a);
                    let e = (self.a.Z3_mk_extract)(c, lo as c_uint + w as c_uint - 1, lo as c_uint, x);
                    self.keep(e);
                    if w == 1 {
                        let o = self.bv(1, 1);
                        (self.a.Z3_mk_eq)(c, e, o)
                    } else {
                        e
                    }
                }
                N::ZExt(a) => {
                    let x = self.as_bv(tm, a);
                    (self.a.Z3_mk_zero_ext)(c, (w - tm.w(a)) as c_uint, x)
                }
                N::SExt(a) => {
                    let x = self.as_bv(tm, a);
                    (self.a.Z3_mk_sign_ext)(c, (w - tm.w(a)) as c_uint, x)
                }
                N::I2B(a) => {
                    let x = self.tr(tm, a);
                    let v = (self.a.Z3_mk_int2bv)(c, w.max(1) as c_uint, x);
                    self.keep(v);
                    if w == 1 {
                        let o = self.bv(1, 1);
                        (self.a.Z3_mk_eq)(c, v, o)
                    } else {
                        v
                    }
                }
                N::B2I(a) => {
                    let x = self.as_bv(tm, a);
                    (self.a.Z3_mk_bv2int)(c, x, false)
                }
                N::Poly(p) => {
                    let is = (self.a.Z3_mk_int_sort)(c);
                    let mut parts = vec![];
                    for (m, k) in p.iter() {
                        let kk = self.num(&k.to_string(), is);
                        let mut f = vec![];
                        if m.is_empty() || *k != BigInt::from(1) {
                            f.push(kk);
                        }
                        for &x in m {
                            f.push(self.tr(tm, x));
                        }
                        let pr = if f.len() == 1 { f[0] } else { (self.a.Z3_mk_mul)(c, f.len() as c_uint, f.as_ptr()) };
                        parts.push(self.keep(pr));
                    }
                    match parts.len() {
                        0 => self.num("0", is),
                        1 => parts[0],
                        n => (self.a.Z3_mk_add)(c, n as c_uint, parts.as_ptr()),
                    }
                }
                N::IDiv(a, b) => {
                    let (x, y) = (self.tr(tm, a), self.tr(tm, b));
                    (self.a.Z3_mk_div)(c, x, y)
                }
                N::IMod(a, b) => {
                    let (x, y) = (self.tr(tm, a), self.tr(tm, b));
                    (self.a.Z3_mk_mod)(c, x, y)
                }
                N::ILe(a, b) => {
                    let (x, y) = (self.tr(tm, a), self.tr(tm, b));
                    (self.a.Z3_mk_le)(c, x, y)
                }
                N::IEq(a, b) => {
                    let (x, y) = (self.tr(tm, a), self.tr(tm, b));
                    (self.a.Z3_mk_eq)(c, x, y)
                }
            }
        };
        unsafe { (self.a.Z3_inc_ref)(c, r) };
        self.cache.insert(t, r);
        r
    }
    fn ivar(&mut self, v: u32) -> P {
        unsafe {
            let n = CString::new(format!("i{}", v)).unwrap();
            let s = (self.a.Z3_mk_string_symbol)(self.ctx, n.as_ptr());
            let so = (self.a.Z3_mk_int_sort)(self.ctx);
            let r = (self.a.Z3_mk_const)(self.ctx, s, so);
            self.keep(r)
        }
    }
    fn inum(&self, v: i64) -> P {
        let is = unsafe { (self.a.Z3_mk_int_sort)(self.ctx) };
        self.num(&v.to_string(), is)
    }
    fn between(&self, x: P, lo: i64, hi: i64) -> P {
        unsafe {
            if lo == hi {
                let r = (self.a.Z3_mk_eq)(self.ctx, x, self.inum(lo));
                return self.keep(r);
            }
            let a = self.keep((self.a.Z3_mk_le)(self.ctx, self.inum(lo), x));
            let b = self.keep((self.a.Z3_mk_le)(self.ctx, x, self.inum(hi)));
            let r = (self.a.Z3_mk_and)(self.ctx, 2, [a, b].as_ptr());
            self.keep(r)
        }
    }
    /// the single narrow variable of a term without integer parts
    fn narrow(&mut self, tm: &mut Terms, t: T) -> Option<u32> {
        if tm.has_int(t) {
            return None;
        }
        let s = tm.support(t);
        if s.len() == 1 {
            let w = tm.vars[s[0] as usize].w;
            if w > 0 && w <= 8 {
                return Some(s[0]);
            }
        }
        None
    }
    /// Translation into integer arithmetic alone: narrow bit-vector variables become integers, conditions over one of
    /// them become membership in the set of values satisfying them, and bv2int of a function of one of them becomes
    /// a piecewise linear expression. None when some part does not have that shape.
    fn tri(&mut self, tm: &mut Terms, t: T) -> Option<P> {
        if let Some(p) = self.icache.get(&t) {
            return *p;
        }
        let r = self.tri2(tm, t);
        if let Some(r) = r {
            self.keep(r);
        }
        self.icache.insert(t, r);
        r
    }
    fn tri2(&mut self, tm: &mut Terms, t: T) -> Option<P> {
        let w = tm.w(t);
        let c = self.ctx;
        if w == 1 {
            if tm.cst(t).is_some() {
                return Some(self.tr(tm, t));
            }
            if let N::Var(_) = tm.n(t) {
                // a boolean variable as an integer 0/1
            }
            if let Some(v) = self.narrow(tm, t) {
                let tb = tm.table(t, v);
                let n = 1i64 << tm.vars[v as usize].w;
                let x = self.ivar(v);
                let mut parts = vec![];
                let mut i = 0;
                while i < n {
                    if tb[i as usize / 64] >> (i % 64) & 1 == 1 {
                        let lo = i;
                        while i + 1 < n && tb[(i + 1) as usize / 64] >> ((i + 1) % 64) & 1 == 1 {
                            i += 1;
                        }
                        parts.push(self.between(x, lo, i));
                    }
                    i += 1;
                }
                return Some(unsafe {
                    match parts.len() {
                        0 => (self.a.Z3_mk_false)(c),
                        1 => parts[0],
                        k => (self.a.Z3_mk_or)(c, k as c_uint, parts.as_ptr()),
                    }
                });
            }
        }
        match tm.n(t).clone() {
            N::Bin(op, a, b) if w == 1 => {
                if op == B::Xor && tm.cst(b) == Some(1) {
                    let x = self.tri(tm, a)?;
                    return Some(unsafe { (self.a.Z3_mk_not)(c, x) });
                }
                let (x, y) = (self.tri(tm, a)?, self.tri(tm, b)?);
                Some(unsafe {
                    match op {
                        B::And => (self.a.Z3_mk_and)(c, 2, [x, y].as_ptr()),
                        B::Or => (self.a.Z3_mk_or)(c, 2, [x, y].as_ptr()),
                        B::Xor => (self.a.Z3_mk_xor)(c, x, y),
                        _ => return None,
                    }
                })
            }
            N::Eq(a, b) if tm.w(a) == 1 => {
                let (x, y) = (self.tri(tm, a)?, self.tri(tm, b)?);
                Some(unsafe { (self.a.Z3_mk_eq)(c, x, y) })
            }
            N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) => {
                let (x, y) = (self.btri(tm, a)?, self.btri(tm, b)?);
                Some(unsafe {
                    match tm.n(t) {
                        N::Eq(..) => (self.a.Z3_mk_eq)(c, x, y),
                        N::Ule(..) => (self.a.Z3_mk_le)(c, x, y),
                        _ => {
                            let r = self.keep((self.a.Z3_mk_le)(c, y, x));
                            (self.a.Z3_mk_not)(c, r)
                        }
                    }
                })
            }
            N::Ite(k, a, b) if w <= 1 => {
                let (k, x, y) = (self.tri(tm, k)?, self.tri(tm, a)?, self.tri(tm, b)?);
                Some(unsafe { (self.a.Z3_mk_ite)(c, k, x, y) })
            }
            N::IVar(_) => Some(self.tr(tm, t)),
            N::B2I(a) => self.btri(tm, a),
            N::Poly(p) => {
                let is = unsafe { (self.a.Z3_mk_int_sort)(c) };
                let mut parts = vec![];
                for (m, k) in p.iter() {
                    let mut f = vec![];
                    if m.is_empty() || *k != BigInt::from(1) {
                        f.push(self.num(&k.to_string(), is));
                    }
                    for &x in m {
                        f.push(self.tri(tm, x)?);
                    }
                    let pr = if f.len() == 1 { f[0] } else { unsafe { (self.a.Z3_mk_mul)(c, f.len() as c_uint, f.as_ptr()) } };
                    parts.push(self.keep(pr));
                }
                Some(match parts.len() {
                    0 => self.num("0", is),
                    1 => parts[0],
                    n => unsafe { (self.a.Z3_mk_add)(c, n as c_uint, parts.as_ptr()) },
                })
            }
            N::IDiv(a, b) | N::IMod(a, b) | N::ILe(a, b) | N::IEq(a, b) => {
                let (x, y) = (self.tri(tm, a)?, self.tri(tm, b)?);
                let f = match tm.n(t) {
                    N::IDiv(..) => self.a.Z3_mk_div,
                    N::IMod(..) => self.a.Z3_mk_mod,
                    N::ILe(..) => self.a.Z3_mk_le,
                    _ => self.a.Z3_mk_eq,
                };
                Some(unsafe { f(c, x, y) })
            }
            _ => None,
        }
    }
    /// a bit-vector term as an integer
    fn btri(&mut self, tm: &mut Terms, t: T) -> Option<P> {
        let c = self.ctx;
        if let Some(k) = tm.cst(t) {
            let is = unsafe { (self.a.Z3_mk_int_sort)(c) };
            return Some(self.num(&k.to_string(), is));
        }
        if let N::I2B(i) = tm.n(t).clone() {
            return self.tri(tm, i);
        }
        if let N::Var(v) = *tm.n(t) {
            if tm.vars[v as usize].w > 8 {
                return Some(self.ivar(v));
            }
        }
        if let N::ZExt(x) = *tm.n(t) {
            if let N::Var(v) = *tm.n(x) {
                if tm.vars[v as usize].w > 8 {
                    return Some(self.ivar(v));
                }
            }
        }
        if let N::ZExt(x) = tm.n(t).clone() {
            if tm.has_int(x) {
                return self.btri(tm, x);
            }
        }
        if let N::Ite(k, a, b) = tm.n(t).clone() {
            if tm.has_int(t) || tm.support(t).len() > 1 {
                let (k, x, y) = (self.tri(tm, k)?, self.btri(tm, a)?, self.btri(tm, b)?);
                let r = unsafe { (self.a.Z3_mk_ite)(c, k, x, y) };
                return Some(self.keep(r));
            }
        }
        if let N::Bin(crate::term::B::Add, a, b) = *tm.n(t) {
            // a sum that cannot overflow
            let w = tm.w(t);
            if w <= 64 && tm.support(t).len() > 1 {
                let (ha, hb) = (tm.bmax(a), tm.bmax(b));
                if ha + hb < 1u128 << w {
                    let (x, y) = (self.btri(tm, a)?, self.btri(tm, b)?);
                    let r = unsafe { (self.a.Z3_mk_add)(c, 2, [x, y].as_ptr()) };
                    return Some(self.keep(r));
                }
            }
        }
        let v = self.narrow(tm, t)?;
        let n = 1u128 << tm.vars[v as usize].w;
        let mut vals: Vec<i128> = vec![];
        for x in 0..n {
            let mut memo = HashMap::new();
            match tm.eval(t, &|i| if i == v { MV::B(x) } else { MV::B(0) }, &mut memo) {
                MV::B(y) if y < 1 << 100 => vals.push(y as i128),
                _ => return None,
            }
        }
        // segments [lo, hi] with value x + k
        let mut segs: Vec<(i64, i128)> = vec![];
        for (x, y) in vals.iter().enumerate() {
            let k = y - x as i128;
            match segs.last_mut() {
                Some(l) if l.1 == k => l.0 = x as i64,
                _ => segs.push((x as i64, k)),
            }
        }
        let x = self.ivar(v);
        let is = unsafe { (self.a.Z3_mk_int_sort)(c) };
        let mut r: Option<P> = None;
        for (hi, k) in segs.iter().rev() {
            let kk = self.num(&k.to_string(), is);
            let e = if *k == 0 { x } else { unsafe { self.keep((self.a.Z3_mk_add)(c, 2, [x, kk].as_ptr())) } };
            r = Some(match r {
                None => e,
                Some(p) => unsafe {
                    let cnd = self.keep((self.a.Z3_mk_le)(c, x, self.inum(*hi)));
                    self.keep((self.a.Z3_mk_ite)(c, cnd, e, p))
                },
            });
        }
        r
    }

    // ---- whole queries as linear integer arithmetic, with the ranges the query itself gives its narrow variables
    fn lin_domains(&mut self, tm: &mut Terms, cs: &[T]) -> HashMap<u32, [u64; 4]> {
        let mut dom: HashMap<u32, [u64; 4]> = HashMap::new();
        for &x in cs {
            if let Some(v) = self.narrow(tm, x) {
                let tb = tm.table(x, v);
                let d = dom.entry(v).or_insert([!0; 4]);
                for i in 0..4 {
                    d[i] &= tb[i];
                }
            }
        }
        dom
    }
    fn lin_op(&self, f: unsafe extern "C" fn(P, c_uint, *const P) -> P, x: P, y: P) -> P {
        self.keep(unsafe { f(self.ctx, 2, [x, y].as_ptr()) })
    }
    fn lin_wrap(&mut self, p: P, lo: BigInt, hi: BigInt, w: u16) -> (P, BigInt, BigInt) {
        let m: BigInt = BigInt::from(1u8) << w as usize;
        let is = unsafe { (self.a.Z3_mk_int_sort)(self.ctx) };
        let (kl, kh) = (num_integer::Integer::div_floor(&lo, &m), num_integer::Integer::div_floor(&hi, &m));
        if kl == kh {
            if kl == BigInt::from(0) {
                return (p, lo, hi);
            }
            let off: BigInt = -(&kl * &m);
            let k = self.num(&off.to_string(), is);
            return (self.lin_op(self.a.Z3_mk_add, p, k), lo + &off, hi + &off);
        }
        let mm = self.num(&m.to_string(), is);
        let r = self.keep(unsafe { (self.a.Z3_mk_mod)(self.ctx, p, mm) });
        (r, BigInt::from(0), m - 1)
    }
    fn lin_v(&mut self, tm: &mut Terms, t: T, cx: &mut Lin) -> Option<(P, BigInt, BigInt)> {
        if let Some(r) = cx.v.get(&t) {
            return Some(r.clone());
        }
        let r = self.lin_v2(tm, t, cx)?;
        cx.v.insert(t, r.clone());
        Some(r)
    }
    fn lin_v2(&mut self, tm: &mut Terms, t: T, cx: &mut Lin) -> Option<(P, BigInt, BigInt)> {
        let c = self.ctx;
        let is = unsafe { (self.a.Z3_mk_int_sort)(c) };
        let w = tm.w(t);
        let full: BigInt = (BigInt::from(1u8) << w as usize) - 1;
        let zero = BigInt::from(0);
        if let Some(k) = tm.cst(t) {
            let b = BigInt::from(k);
            return Some((self.num(&k.to_string(), is), b.clone(), b));
        }
        if let Some(v) = self.narrow(tm, t) {
            let n = 1usize << tm.vars[v as usize].w;
            let dom = cx.dom.get(&v).copied().unwrap_or([!0; 4]);
            let (mut lo, mut hi): (Option<u128>, u128) = (None, 0);
            let mut segs: Vec<(i64, i128)> = vec![];
            for x in 0..n {
                if dom[x / 64] >> (x % 64) & 1 == 0 {
                    continue;
                }
                let mut memo = HashMap::new();
                let y = match tm.eval(t, &|i| if i == v { MV::B(x as u128) } else { MV::B(0) }, &mut memo) {
                    MV::B(y) if y < 1 << 120 => y,
                    _ => return None,
                };
                lo = Some(lo.map_or(y, |l| l.min(y)));
                hi = hi.max(y);
                let k = y as i128 - x as i128;
                match segs.last_mut() {
                    Some(l) if l.1 == k => l.0 = x as i64,
                    _ => segs.push((x as i64, k)),
                }
            }
            let x = self.ivar(v);
            let mut r: Option<P> = None;
            for (h, k) in segs.iter().rev() {
                let kk = self.num(&k.to_string(), is);
                let e = if *k == 0 { x } else { self.lin_op(self.a.Z3_mk_add, x, kk) };
                r = Some(match r {
                    None => e,
                    Some(p) => unsafe {
                        let cnd = self.keep((self.a.Z3_mk_le)(c, x, self.inum(*h)));
                        self.keep((self.a.Z3_mk_ite)(c, cnd, e, p))
                    },
                });
            }
            return Some((r.unwrap_or(x), BigInt::from(lo.unwrap_or(0)), BigInt::from(hi)));
        }
        Some(match tm.n(t).clone() {
            N::Var(v) => (self.ivar(v), zero, full),
            N::ZExt(x) => self.lin_v(tm, x, cx)?,
            N::SExt(x) => {
                let wx = tm.w(x);
                let (p, lo, hi) = self.lin_v(tm, x, cx)?;
                let half: BigInt = BigInt::from(1u8) << (wx as usize - 1);
                if hi < half {
                    (p, lo, hi)
                } else {
                    let add: BigInt = (BigInt::from(1u8) << w as usize) - (BigInt::from(1u8) << wx as usize);
                    let (h, a) = (self.num(&half.to_string(), is), self.num(&add.to_string(), is));
                    let neg = self.lin_op(self.a.Z3_mk_add, p, a);
                    let r = unsafe {
                        let cnd = self.keep((self.a.Z3_mk_le)(c, h, p));
                        self.keep((self.a.Z3_mk_ite)(c, cnd, neg, p))
                    };
                    (r, zero, full)
                }
            }
            N::I2B(i) => (self.lin_i(tm, i, cx)?, zero, full),
            N::Ite(k, x, y) => {
                let k = self.lin_b(tm, k, cx)?;
                let (x, xl, xh) = self.lin_v(tm, x, cx)?;
                let (y, yl, yh) = self.lin_v(tm, y, cx)?;
                let r = self.keep(unsafe { (self.a.Z3_mk_ite)(c, k, x, y) });
                (r, xl.min(yl), xh.max(yh))
            }
            N::Bin(B::Add, x, y) => {
                let (px, xl, xh) = self.lin_v(tm, x, cx)?;
                let (py, yl, yh) = match tm.cst(y) {
                    Some(k) if BigInt::from(k) * 2 > full => {
                        let k: BigInt = BigInt::from(k) - &full - 1;
                        (self.num(&k.to_string(), is), k.clone(), k)
                    }
                    _ => self.lin_v(tm, y, cx)?,
                };
                let r = self.lin_op(self.a.Z3_mk_add, px, py);
                self.lin_wrap(r, xl + yl, xh + yh, w)
            }
            N::Bin(B::Sub, x, y) => {
                let (px, xl, xh) = self.lin_v(tm, x, cx)?;
                let (py, yl, yh) = self.lin_v(tm, y, cx)?;
                let m1 = self.num("-1", is);
                let ny = self.lin_op(self.a.Z3_mk_mul, m1, py);
                let r = self.lin_op(self.a.Z3_mk_add, px, ny);
                self.lin_wrap(r, xl - yh, xh - yl, w)
            }
            N::Bin(B::Mul, x, y) if tm.cst(x).is_some() || tm.cst(y).is_some() => {
                let (px, xl, xh) = self.lin_v(tm, x, cx)?;
                let (py, yl, yh) = self.lin_v(tm, y, cx)?;
                let r = self.lin_op(self.a.Z3_mk_mul, px, py);
                self.lin_wrap(r, xl * yl, xh * yh, w)
            }
            N::Bin(B::Shl, x, y) if tm.cst(y).map_or(false, |k| k < w as u128) => {
                let k: BigInt = BigInt::from(1u8) << tm.cst(y).unwrap() as usize;
                let (px, xl, xh) = self.lin_v(tm, x, cx)?;
                let kk = self.num(&k.to_string(), is);
                let r = self.lin_op(self.a.Z3_mk_mul, px, kk);
                self.lin_wrap(r, xl * &k, xh * &k, w)
            }
            N::Bin(B::LShr, x, y) if tm.cst(y).map_or(false, |k| k < w as u128) => {
                let k: BigInt = BigInt::from(1u8) << tm.cst(y).unwrap() as usize;
                let (px, xl, xh) = self.lin_v(tm, x, cx)?;
                let kk = self.num(&k.to_string(), is);
                (self.keep(unsafe { (self.a.Z3_mk_div)(c, px, kk) }), xl / &k, xh / &k)
            }
            N::Bin(B::UDiv, x, y) if tm.cst(y).map_or(false, |k| k > 0) => {
                let k = BigInt::from(tm.cst(y).unwrap());
                let (px, xl, xh) = self.lin_v(tm, x, cx)?;
                let kk = self.num(&k.to_string(), is);
                (self.keep(unsafe { (self.a.Z3_mk_div)(c, px, kk) }), xl / &k, xh / &k)
            }
            N::Bin(B::URem, x, y) if tm.cst(y).map_or(false, |k| k > 0) => {
                let k = BigInt::from(tm.cst(y).unwrap());
                let (px, _, _) = self.lin_v(tm, x, cx)?;
                let kk = self.num(&k.to_string(), is);
                (self.keep(unsafe { (self.a.Z3_mk_mod)(c, px, kk) }), zero, k - 1)
            }
            N::Extract(x, l) => {
                let (mut p, mut lo, mut hi) = self.lin_v(tm, x, cx)?;
                if l > 0 {
                    let k: BigInt = BigInt::from(1u8) << l as usize;
                    let kk = self.num(&k.to_string(), is);
                    p = self.keep(unsafe { (self.a.Z3_mk_div)(c, p, kk) });
                    lo = lo / &k;
                    hi = hi / &k;
                }
                self.lin_wrap(p, lo, hi, w)
            }
            N::Concat(h, l) => {
                let k: BigInt = BigInt::from(1u8) << tm.w(l) as usize;
                let (ph, hl, hh) = self.lin_v(tm, h, cx)?;
                let (pl, ll, lh) = self.lin_v(tm, l, cx)?;
                let kk = self.num(&k.to_string(), is);
                let m = self.lin_op(self.a.Z3_mk_mul, ph, kk);
                (self.lin_op(self.a.Z3_mk_add, m, pl), hl * &k + ll, hh * &k + lh)
            }
            _ => return None,
        })
    }
    /// the value as a signed number
    fn lin_s(&mut self, tm: &mut Terms, t: T, cx: &mut Lin) -> Option<P> {
        let w = tm.w(t);
        let (p, _, hi) = self.lin_v(tm, t, cx)?;
        let half: BigInt = BigInt::from(1u8) << (w as usize - 1);
        if hi < half {
            return Some(p);
        }
        let is = unsafe { (self.a.Z3_mk_int_sort)(self.ctx) };
        let neg: BigInt = -(BigInt::from(1u8) << w as usize);
        let (h, a) = (self.num(&half.to_string(), is), self.num(&neg.to_string(), is));
        let n = self.lin_op(self.a.Z3_mk_add, p, a);
        Some(unsafe {
            let cnd = self.keep((self.a.Z3_mk_le)(self.ctx, h, p));
            self.keep((self.a.Z3_mk_ite)(self.ctx, cnd, n, p))
        })
    }
    fn lin_b(&mut self, tm: &mut Terms, t: T, cx: &mut Lin) -> Option<P> {
        if let Some(&r) = cx.b.get(&t) {
            return Some(r);
        }
        let c = self.ctx;
        let r = if tm.cst(t).is_some() {
            self.tr(tm, t)
        } else if self.narrow(tm, t).is_some() {
            self.tri(tm, t)?
        } else {
            match tm.n(t).clone() {
                N::Bin(op, a, b) => {
                    if op == B::Xor && tm.cst(b) == Some(1) {
                        let x = self.lin_b(tm, a, cx)?;
                        self.keep(unsafe { (self.a.Z3_mk_not)(c, x) })
                    } else {
                        let (x, y) = (self.lin_b(tm, a, cx)?, self.lin_b(tm, b, cx)?);
                        self.keep(unsafe {
                            match op {
                                B::And => (self.a.Z3_mk_and)(c, 2, [x, y].as_ptr()),
                                B::Or => (self.a.Z3_mk_or)(c, 2, [x, y].as_ptr()),
                                B::Xor => (self.a.Z3_mk_xor)(c, x, y),
                                _ => return None,
                            }
                        })
                    }
                }
                N::Ite(k, a, b) => {
                    let (k, x, y) = (self.lin_b(tm, k, cx)?, self.lin_b(tm, a, cx)?, self.lin_b(tm, b, cx)?);
                    self.keep(unsafe { (self.a.Z3_mk_ite)(c, k, x, y) })
                }
                N::Eq(a, b) if tm.w(a) == 1 => {
                    let (x, y) = (self.lin_b(tm, a, cx)?, self.lin_b(tm, b, cx)?);
                    self.keep(unsafe { (self.a.Z3_mk_eq)(c, x, y) })
                }
                N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) => {
                    let (x, xl, xh) = self.lin_v(tm, a, cx)?;
                    let (y, yl, yh) = self.lin_v(tm, b, cx)?;
                    let known = match tm.n(t) {
                        N::Eq(..) if xh < yl || yh < xl => Some(false),
                        N::Ult(..) if xh < yl => Some(true),
                        N::Ult(..) if xl >= yh => Some(false),
                        N::Ule(..) if xh <= yl => Some(true),
                        N::Ule(..) if xl > yh => Some(false),
                        _ => None,
                    };
                    self.keep(unsafe {
                        match (known, tm.n(t)) {
                            (Some(true), _) => (self.a.Z3_mk_true)(c),
                            (Some(false), _) => (self.a.Z3_mk_false)(c),
                            (_, N::Eq(..)) => (self.a.Z3_mk_eq)(c, x, y),
                            (_, N::Ule(..)) => (self.a.Z3_mk_le)(c, x, y),
                            _ => {
                                let r = self.keep((self.a.Z3_mk_le)(c, y, x));
                                (self.a.Z3_mk_not)(c, r)
                            }
                        }
                    })
                }
                N::Slt(a, b) | N::Sle(a, b) => {
                    let (x, y) = (self.lin_s(tm, a, cx)?, self.lin_s(tm, b, cx)?);
                    self.keep(unsafe {
                        if let N::Sle(..) = tm.n(t) {
                            (self.a.Z3_mk_le)(c, x, y)
                        } else {
                            let r = self.keep((self.a.Z3_mk_le)(c, y, x));
                            (self.a.Z3_mk_not)(c, r)
                        }
                    })
                }
                N::Extract(..) => {
                    let (p, _, _) = self.lin_v(tm, t, cx)?;
                    self.keep(unsafe { (self.a.Z3_mk_eq)(c, p, self.inum(1)) })
                }
                N::ILe(a, b) | N::IEq(a, b) => {
                    let (x, y) = (self.lin_i(tm, a, cx)?, self.lin_i(tm, b, cx)?);
                    self.keep(unsafe {
                        match tm.n(t) {
                            N::ILe(..) => (self.a.Z3_mk_le)(c, x, y),
                            _ => (self.a.Z3_mk_eq)(c, x, y),
                        }
                    })
                }
                _ => return None,
            }
        };
        cx.b.insert(t, r);
        Some(r)
    }
    fn lin_i(&mut self, tm: &mut Terms, t: T, cx: &mut Lin) -> Option<P> {
        if let Some(&r) = cx.i.get(&t) {
            return Some(r);
        }
        let c = self.ctx;
        let is = unsafe { (self.a.Z3_mk_int_sort)(c) };
        let r = match tm.n(t).clone() {
            N::IVar(_) => self.tr(tm, t),
            N::B2I(a) => self.lin_v(tm, a, cx)?.0,
            N::Ite(k, a, b) => {
                let (k, x, y) = (self.lin_b(tm, k, cx)?, self.lin_i(tm, a, cx)?, self.lin_i(tm, b, cx)?);
                self.keep(unsafe { (self.a.Z3_mk_ite)(c, k, x, y) })
            }
            N::Poly(p) => {
                let mut parts = vec![];
                for (m, k) in p.iter() {
                    let mut f = vec![];
                    if m.is_empty() || *k != BigInt::from(1) {
                        f.push(self.num(&k.to_string(), is));
                    }
                    for &x in m {
                        f.push(self.lin_i(tm, x, cx)?);
                    }
                    let pr = if f.len() == 1 { f[0] } else { unsafe { (self.a.Z3_mk_mul)(c, f.len() as c_uint, f.as_ptr()) } };
                    parts.push(self.keep(pr));
                }
                match parts.len() {
                    0 => self.num("0", is),
                    1 => parts[0],
                    n => self.keep(unsafe { (self.a.Z3_mk_add)(c, n as c_uint, parts.as_ptr()) }),
                }
            }
            N::IDiv(a, b) | N::IMod(a, b) => {
                let (x, y) = (self.lin_i(tm, a, cx)?, self.lin_i(tm, b, cx)?);
                self.keep(unsafe {
                    match tm.n(t) {
                        N::IDiv(..) => (self.a.Z3_mk_div)(c, x, y),
                        _ => (self.a.Z3_mk_mod)(c, x, y),
                    }
                })
            }
            _ => return None,
        };
        cx.i.insert(t, r);
        Some(r)
    }
    fn lin_all(&mut self, tm: &mut Terms, cs: &[T]) -> Option<Vec<P>> {
        let mut cx = Lin { dom: self.lin_domains(tm, cs), ..Default::default() };
        let mut v = vec![];
        for &x in cs {
            v.push(self.lin_b(tm, x, &mut cx)?);
        }
        Some(v)
    }
    /// multiplications of wide numbers over several inputs, which bit-vector solving is bad at
    fn wide_mul(&mut self, tm: &mut Terms, t: T) -> bool {
        if let Some(&b) = self.wide.get(&t) {
            return b;
        }
        let w = tm.w(t);
        let own = match *tm.n(t) {
            N::Bin(B::Mul, a, b) => w >= 32 && (tm.cst(a).is_some() || tm.cst(b).is_some()) && tm.support(t).len() > 2,
            _ => false,
        };
        let r = own || tm.kids(t).into_iter().any(|k| self.wide_mul(tm, k));
        self.wide.insert(t, r);
        r
    }
    pub fn set_timeout(&mut self, ms: u32) {
        unsafe {
            (self.a.Z3_params_set_uint)(self.ctx, self.params, self.tsym, ms);
            (self.a.Z3_solver_set_params)(self.ctx, self.s, self.params);
            (self.a.Z3_solver_set_params)(self.ctx, self.s_int, self.params);
        }
    }
    /// satisfiability of the conjunction
    pub fn check(&mut self, tm: &mut Terms, cs: &[T]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        // variables
        let mut vars: Vec<u32> = vec![];
        for &x in cs {
            vars.extend_from_slice(&tm.support(x));
        }
        vars.sort();
        vars.dedup();
        let has_int = vars.iter().any(|v| tm.vars[*v as usize].w == 0) || cs.iter().any(|&x| tm.has_int(x));
        let mut asts = vec![];
        let mut pure = has_int;
        if pure {
            for &x in cs {
                match self.tri(tm, x) {
                    Some(p) => asts.push(p),
                    None => {
                        pure = false;
                        break;
                    }
                }
            }
        }
        let mut lin = false;
        if !pure && cs.iter().any(|&x| self.wide_mul(tm, x)) {
            if let Some(v) = self.lin_all(tm, cs) {
                asts = v;
                pure = true;
                lin = true;
            }
        }
        if pure {
            for &v in &vars {
                let w = tm.vars[v as usize].w;
                if w > 0 && w <= 8 {
                    let x = self.ivar(v);
                    asts.push(self.between(x, 0, (1 << w) - 1));
                } else if w > 0 {
                    let is = unsafe { (self.a.Z3_mk_int_sort)(self.ctx) };
                    let x = self.ivar(v);
                    let (lo, hi) = (self.num("0", is), self.num(&((BigInt::from(1u8) << (w as usize)) - BigInt::from(1u8)).to_string(), is));
                    unsafe {
                        let a = self.keep((self.a.Z3_mk_le)(self.ctx, lo, x));
                        let b = self.keep((self.a.Z3_mk_le)(self.ctx, x, hi));
                        asts.push(a);
                        asts.push(b);
                    }
                }
            }
        }
        if !pure {
            asts.clear();
            for &x in cs {
                asts.push(self.tr(tm, x));
            }
            if has_int {
                self.mixed += 1;
            }
        }
        // integer variable bounds
        let mut extra: Vec<T> = vec![];
        for &v in &vars {
            let vi = tm.vars[v as usize].clone();
            if vi.w == 0 {
                let t = tm.var(v);
                let z = tm.iconst(&BigInt::from(0));
                let _ = z;
                if let Some(lo) = vi.lo {
                    let l = tm.iconst(&lo);
                    extra.push(tm.ile_raw(l, t));
                }
                if let Some(hi) = vi.hi {
                    let h = tm.iconst(&hi);
                    extra.push(tm.ile_raw(t, h));
                }
            }
        }
        for x in extra {
            asts.push(self.tr(tm, x));
        }
        let res = unsafe {
            let c = self.ctx;
            let has_int = has_int || lin;
            let s = if has_int { self.s_int } else { self.s };
            if has_int {
                (self.a.Z3_solver_reset)(c, s);
            } else {
                (self.a.Z3_solver_push)(c, s);
            }
            for x in asts {
                (self.a.Z3_solver_assert)(c, s, x);
            }
            if self.dump {
                let z = CStr::from_ptr((self.a.Z3_solver_to_string)(c, s)).to_string_lossy().to_string();
                eprintln!("--- query {}\n{}", self.queries, z);
            }
            let r = (self.a.Z3_solver_check)(c, s);
            let out = match r {
                1 => {
                    let m = (self.a.Z3_solver_get_model)(c, s);
                    (self.a.Z3_model_inc_ref)(c, m);
                    let mut mv = HashMap::new();
                    let mut bad = false;
                    for &v in &vars {
                        let t = tm.var(v);
                        let w0 = tm.vars[v as usize].w;
                        let z = if pure && w0 > 0 { self.ivar(v) } else { self.tr(tm, t) };
                        let mut o: P = std::ptr::null_mut();
                        if !(self.a.Z3_model_eval)(c, m, z, true, &mut o) {
                            bad = true;
                            break;
                        }
                        (self.a.Z3_inc_ref)(c, o);
                        let w = tm.vars[v as usize].w;
                        if w == 1 && !pure {
                            mv.insert(v, MV::B(((self.a.Z3_get_bool_value)(c, o) == 1) as u128));
                        } else if (self.a.Z3_is_numeral_ast)(c, o) {
                            let s = CStr::from_ptr((self.a.Z3_get_numeral_string)(c, o)).to_string_lossy().to_string();
                            if w == 0 {
                                match s.parse::<BigInt>() {
                                    Ok(n) => {
                                        mv.insert(v, MV::N(n));
                                    }
                                    Err(_) => bad = true,
                                }
                            } else {
                                mv.insert(v, MV::B(s.parse::<u128>().unwrap()));
                            }
                        } else {
                            bad = true;
                        }
                    }
                    (self.a.Z3_model_dec_ref)(c, m);
                    if bad {
                        self.unknown += 1;
                        Res::Unknown
                    } else {
                        self.sat += 1;
                        Res::Sat(mv)
                    }
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            if !has_int {
                (self.a.Z3_solver_pop)(c, s, 1);
            }
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        res
    }
}
