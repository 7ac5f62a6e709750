//! A model of num-bigint for symbolic execution. A number is a handle to a term of the engine's unbounded-integer
//! theory; the operations below state what each num-bigint operation means in terms of the engine's primitives
//! (exact addition, multiplication, floor division by a positive divisor, order). Same public names as num-bigint 0.4.
#![allow(clippy::all)]
use core::cmp::Ordering;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::iter::{Product, Sum};
use core::ops::*;
use core::str::FromStr;
use core::sync::atomic::{AtomicU64, Ordering::Relaxed};
use num_integer::{Integer, Roots};
use num_traits::*;

mod ext {
    extern "C" {
        pub fn vi_u64(x: u64) -> u64;
        pub fn vi_digit(b: u8, base: u64, hi: u64) -> u64;
        pub fn vi_add(a: u64, b: u64) -> u64;
        pub fn vi_sub(a: u64, b: u64) -> u64;
        pub fn vi_mul(a: u64, b: u64) -> u64;
        pub fn vi_neg(a: u64) -> u64;
        pub fn vi_divf(a: u64, b: u64) -> u64;
        pub fn vi_modf(a: u64, b: u64) -> u64;
        pub fn vi_le(a: u64, b: u64) -> bool;
        pub fn vi_fork_le(a: u64, b: u64) -> u64;
        /// 0 decimal digit, 1 lower case digit, 2 upper case digit, 3 underscore, 4 none (of the radix)
        pub fn vi_narrow(a: u64, lo: u64, hi: u64) -> u64;
        pub fn vi_class(b: u8, radix: u64) -> u64;
        pub fn vi_eq(a: u64, b: u64) -> bool;
        pub fn vi_pow(a: u64, n: u64) -> u64;
        pub fn vi_is_const(a: u64) -> u64;
        pub fn vi_span(a: u64) -> u64;
        pub fn vi_conc(a: u64, limit: u64) -> u64;
        pub fn vi_coprime(a: u64, b: u64) -> u64;
        pub fn vi_gcd(a: u64, b: u64) -> u64;
        pub fn vi_cancel(a: u64, b: u64) -> u64;
        pub fn vi_exact(a: u64, b: u64) -> u64;
        pub fn vi_lgcd(a: u64, b: u64) -> u64;
        pub fn vi_factor(a: u64) -> u64;
        pub fn vi_word(a: u64, i: u64) -> u64;
        pub fn vi_byte(a: u64) -> u8;
        pub fn vi_bits(a: u64) -> u64;
        pub fn vi_and(a: u64, b: u64) -> u64;
        pub fn vi_or(a: u64, b: u64) -> u64;
        pub fn vi_xor(a: u64, b: u64) -> u64;
        pub fn vi_root(a: u64, n: u64) -> u64;
    }
}
type H = u64;
fn one() -> H {
    unsafe { ext::vi_u64(1) }
}
fn of(x: u64) -> H {
    unsafe { ext::vi_u64(x) }
}
fn of128(x: u128) -> H {
    let lo = of(x as u64);
    if x >> 64 == 0 {
        return lo;
    }
    add(mul(of((x >> 64) as u64), two_pow(64)), lo)
}
fn two_pow(n: u64) -> H {
    unsafe { ext::vi_pow(of(2), n) }
}
fn add(a: H, b: H) -> H {
    unsafe { ext::vi_add(a, b) }
}
fn sub(a: H, b: H) -> H {
    unsafe { ext::vi_sub(a, b) }
}
fn mul(a: H, b: H) -> H {
    unsafe { ext::vi_mul(a, b) }
}
fn neg(a: H) -> H {
    unsafe { ext::vi_neg(a) }
}
fn le(a: H, b: H) -> bool {
    unsafe { ext::vi_le(a, b) }
}
fn lt(a: H, b: H) -> bool {
    !le(b, a)
}
fn eq(a: H, b: H) -> bool {
    a == b || unsafe { ext::vi_eq(a, b) }
}
fn is0(a: H) -> bool {
    a == 0 || eq(a, 0)
}
fn abs(a: H) -> H {
    if lt(a, 0) {
        neg(a)
    } else {
        a
    }
}
fn cmp(a: H, b: H) -> Ordering {
    if eq(a, b) {
        Ordering::Equal
    } else if le(a, b) {
        Ordering::Less
    } else {
        Ordering::Greater
    }
}
#[cold]
fn div0() -> ! {
    panic!("attempt to divide by zero")
}
/// truncated division
fn div_rem(a: H, b: H) -> (H, H) {
    if is0(b) {
        div0()
    }
    let (na, nb) = (lt(a, 0), lt(b, 0));
    let x = if na { neg(a) } else { a };
    let y = if nb { neg(b) } else { b };
    let (q, r) = unsafe { (ext::vi_divf(x, y), ext::vi_modf(x, y)) };
    (if na != nb { neg(q) } else { q }, if na { neg(r) } else { r })
}
fn div_mod_floor(a: H, b: H) -> (H, H) {
    if is0(b) {
        div0()
    }
    if lt(b, 0) {
        let (q, r) = unsafe { (ext::vi_divf(neg(a), neg(b)), ext::vi_modf(neg(a), neg(b))) };
        (q, neg(r))
    } else {
        unsafe { (ext::vi_divf(a, b), ext::vi_modf(a, b)) }
    }
}
fn is_const(a: H) -> bool {
    a == 0 || unsafe { ext::vi_is_const(a) != 0 }
}
/// makes at least one of the two a constant on every path
fn settle(a: H, b: H) -> (H, H) {
    if is_const(a) || is_const(b) {
        return (a, b);
    }
    unsafe {
        if ext::vi_span(b) <= ext::vi_span(a) {
            (a, ext::vi_conc(b, 4096))
        } else {
            (ext::vi_conc(a, 4096), b)
        }
    }
}
fn gcd(a: H, b: H) -> H {
    if a != 0 && b != 0 && unsafe { ext::vi_coprime(a, b) } != 0 {
        return one();
    }
    let (a, b) = settle(a, b);
    let (c, mut v) = if is_const(a) { (a, b) } else { (b, a) };
    if is_const(v) {
        return unsafe { ext::vi_gcd(a, b) };
    }
    if c == 0 {
        return abs(v);
    }
    // c constant and non-zero: take out common prime factors one at a time
    let mut rest = abs(c);
    let mut g = one();
    let o = one();
    while !eq(rest, o) {
        let p = unsafe { ext::vi_factor(rest) };
        rest = unsafe { ext::vi_divf(rest, p) };
        if is0(unsafe { ext::vi_modf(v, p) }) {
            g = mul(g, p);
            v = unsafe { ext::vi_divf(v, p) };
        }
    }
    g
}
fn parity_odd(a: H) -> bool {
    eq(unsafe { ext::vi_modf(a, of(2)) }, one())
}
fn u64_of(a: H) -> Option<u64> {
    if lt(a, 0) || !le(a, of(u64::MAX)) {
        None
    } else {
        Some(unsafe { ext::vi_word(ext::vi_narrow(a, 0, u64::MAX), 0) })
    }
}
fn u128_of(a: H) -> Option<u128> {
    if lt(a, 0) || !le(a, of128(u128::MAX)) {
        return None;
    }
    let lo = unsafe { ext::vi_word(a, 0) };
    if le(a, of(u64::MAX)) {
        return Some(lo as u128);
    }
    Some((unsafe { ext::vi_word(a, 1) } as u128) << 64 | lo as u128)
}
fn i64_of(a: H) -> Option<i64> {
    if lt(a, 0) {
        let m = neg(a);
        if !le(m, of(1 << 63)) {
            return None;
        }
        Some((unsafe { ext::vi_word(ext::vi_narrow(m, 0, 1 << 63), 0) } as i64).wrapping_neg())
    } else {
        if !le(a, of(i64::MAX as u64)) {
            return None;
        }
        Some(unsafe { ext::vi_word(ext::vi_narrow(a, 0, i64::MAX as u64), 0) } as i64)
    }
}
fn i128_of(a: H) -> Option<i128> {
    if lt(a, 0) {
        let m = neg(a);
        if !le(m, of128(1 << 127)) {
            return None;
        }
        u128_of(m).map(|x| (x as i128).wrapping_neg())
    } else {
        if !le(a, of128(i128::MAX as u128)) {
            return None;
        }
        u128_of(a).map(|x| x as i128)
    }
}
fn f64_of(a: H) -> f64 {
    // as num-bigint: the top 64 bits with a sticky bit, then scaled
    let n = lt(a, 0);
    let m = abs(a);
    let bits = unsafe { ext::vi_bits(m) };
    let r = if bits <= 64 {
        unsafe { ext::vi_word(m, 0) as f64 }
    } else {
        let sh = bits - 64;
        let p = two_pow(sh);
        let (q, r) = unsafe { (ext::vi_divf(m, p), ext::vi_modf(m, p)) };
        let mut top = unsafe { ext::vi_word(q, 0) };
        if !is0(r) {
            top |= 1;
        }
        if sh > 1024 {
            f64::INFINITY
        } else {
            let mut f = top as f64;
            for _ in 0..sh {
                f *= 2.0;
            }
            f
        }
    };
    if n {
        -r
    } else {
        r
    }
}
fn to_digits(a: H, radix: u32, upper: bool) -> String {
    assert!(2 <= radix && radix <= 36, "The radix must be within 2...36");
    if is0(a) {
        return String::from("0");
    }
    let mut out: Vec<u8> = Vec::new();
    let mut v = a;
    if lt(v, 0) {
        out.push(b'-');
        v = neg(v);
    }
    let r = unsafe { ext::vi_conc(of(radix as u64), 64) };
    let mut p = r;
    let mut n = 1;
    while le(p, v) {
        p = mul(p, r);
        n += 1;
    }
    let ten = of(10);
    for i in (0..n).rev() {
        let q = unsafe { ext::vi_divf(v, ext::vi_pow(r, i)) };
        let d = unsafe { ext::vi_modf(q, r) };
        let (d, base) = if radix <= 10 {
            (d, b'0')
        } else if unsafe { ext::vi_fork_le(ten, d) } == 0 {
            (unsafe { ext::vi_narrow(d, 0, 9) }, b'0')
        } else {
            (unsafe { ext::vi_narrow(d, 10, radix as u64 - 1) }, if upper { b'A' - 10 } else { b'a' - 10 })
        };
        out.push(unsafe { ext::vi_byte(add(d, of(base as u64))) });
    }
    unsafe { String::from_utf8_unchecked(out) }
}
fn parse_digits(s: &[u8], radix: u32) -> Result<H, ParseBigIntError> {
    assert!(2 <= radix && radix <= 36, "The radix must be within 2...36");
    let mut s = s;
    if !s.is_empty() && s[0] == b'+' && !(s.len() > 1 && s[1] == b'+') {
        s = &s[1..];
    }
    if s.is_empty() {
        return Err(ParseBigIntError::empty());
    }
    if s[0] == b'_' {
        return Err(ParseBigIntError::invalid());
    }
    let r = unsafe { ext::vi_conc(of(radix as u64), 64) };
    let mut v = 0;
    for &b in s {
        let d = match unsafe { ext::vi_class(b, radix as u64) } {
            0 => unsafe { ext::vi_digit(b, b'0' as u64, if radix < 10 { radix as u64 - 1 } else { 9 }) },
            1 => add(unsafe { ext::vi_digit(b, b'a' as u64, radix as u64 - 11) }, of(10)),
            2 => add(unsafe { ext::vi_digit(b, b'A' as u64, radix as u64 - 11) }, of(10)),
            3 => continue,
            _ => return Err(ParseBigIntError::invalid()),
        };
        v = add(mul(v, r), d);
    }
    Ok(v)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError {
    empty: bool,
}
impl ParseBigIntError {
    fn empty() -> Self {
        ParseBigIntError { empty: true }
    }
    fn invalid() -> Self {
        ParseBigIntError { empty: false }
    }
}
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (if self.empty { "cannot parse integer from empty string" } else { "invalid digit found in string" }).fmt(f)
    }
}
impl std::error::Error for ParseBigIntError {}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub struct TryFromBigIntError<T> {
    original: T,
}
impl<T> TryFromBigIntError<T> {
    pub fn into_original(self) -> T {
        self.original
    }
}
impl<T> fmt::Display for TryFromBigIntError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        "out of range conversion regarding big integer attempted".fmt(f)
    }
}
impl<T: fmt::Debug> std::error::Error for TryFromBigIntError<T> {}

#[derive(PartialEq, PartialOrd, Eq, Ord, Copy, Clone, Debug, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
impl Neg for Sign {
    type Output = Sign;
    fn neg(self) -> Sign {
        match self {
            Sign::Minus => Sign::Plus,
            Sign::NoSign => Sign::NoSign,
            Sign::Plus => Sign::Minus,
        }
    }
}
impl Mul for Sign {
    type Output = Sign;
    fn mul(self, o: Sign) -> Sign {
        match (self, o) {
            (Sign::NoSign, _) | (_, Sign::NoSign) => Sign::NoSign,
            (a, b) if a == b => Sign::Plus,
            _ => Sign::Minus,
        }
    }
}

pub struct BigInt {
    h: AtomicU64,
}
pub struct BigUint {
    h: AtomicU64,
}

macro_rules! common {
    ($t:ident, $signed:expr, $mk:expr) => {
        impl $t {
            pub const ZERO: Self = $t { h: AtomicU64::new(0) };
            #[inline]
            fn i(&self) -> H {
                self.h.load(Relaxed)
            }
            #[inline]
            fn n(h: H) -> Self {
                $t { h: AtomicU64::new(h) }
            }
            /// result of an operation; a negative BigUint is an error
            #[inline]
            fn mk(h: H) -> Self {
                let f: fn(H) = $mk;
                f(h);
                Self::n(h)
            }
            pub fn parse_bytes(buf: &[u8], radix: u32) -> Option<Self> {
                let s = core::str::from_utf8(buf).ok()?;
                <Self as Num>::from_str_radix(s, radix).ok()
            }
            pub fn to_str_radix(&self, radix: u32) -> String {
                to_digits(self.i(), radix, false)
            }
            pub fn bits(&self) -> u64 {
                unsafe { ext::vi_bits(abs(self.i())) }
            }
            pub fn pow(&self, exponent: u32) -> Self {
                Self::n(unsafe { ext::vi_pow(self.i(), exponent as u64) })
            }
            pub fn modpow(&self, exponent: &Self, modulus: &Self) -> Self {
                let e = u64_of(exponent.i()).expect("modpow: exponent");
                Self::n(div_mod_floor(unsafe { ext::vi_pow(self.i(), e) }, modulus.i()).1)
            }
            pub fn sqrt(&self) -> Self {
                self.nth_root(2)
            }
            pub fn cbrt(&self) -> Self {
                self.nth_root(3)
            }
            pub fn nth_root(&self, n: u32) -> Self {
                Self::n(unsafe { ext::vi_root(self.i(), n as u64) })
            }
            pub fn trailing_zeros(&self) -> Option<u64> {
                if is0(self.i()) {
                    return None;
                }
                let mut v = abs(self.i());
                let mut k = 0;
                while !parity_odd(v) {
                    v = unsafe { ext::vi_divf(v, of(2)) };
                    k += 1;
                }
                Some(k)
            }
            pub fn bit(&self, bit: u64) -> bool {
                parity_odd(unsafe { ext::vi_divf(self.i(), two_pow(bit)) })
            }
            pub fn checked_add(&self, v: &Self) -> Option<Self> {
                Some(Self::n(add(self.i(), v.i())))
            }
            pub fn checked_sub(&self, v: &Self) -> Option<Self> {
                let r = sub(self.i(), v.i());
                if !$signed && lt(r, 0) {
                    return None;
                }
                Some(Self::n(r))
            }
            pub fn checked_mul(&self, v: &Self) -> Option<Self> {
                Some(Self::n(mul(self.i(), v.i())))
            }
            pub fn checked_div(&self, v: &Self) -> Option<Self> {
                if is0(v.i()) {
                    return None;
                }
                Some(Self::n(div_rem(self.i(), v.i()).0))
            }
            pub fn __verif_const(&self) -> bool {
                is_const(self.i())
            }
            pub fn __verif_set(&self, v: Self) {
                self.h.store(v.i(), Relaxed)
            }
            /// some common divisor of the two, found without looking at symbolic values (their gcd when constant)
            pub fn __verif_lgcd(&self, o: &Self) -> Self {
                Self::n(unsafe { ext::vi_lgcd(self.i(), o.i()) })
            }
            /// both divided by a common divisor; o is known to be non-zero
            pub fn __verif_cancel(&self, o: &Self) -> (Self, Self) {
                let g = unsafe { ext::vi_cancel(self.i(), o.i()) };
                if g == of(1) {
                    return (self.clone(), o.clone());
                }
                unsafe { (Self::n(ext::vi_exact(self.i(), g)), Self::n(ext::vi_exact(o.i(), g))) }
            }
            pub fn __verif_exact(&self, g: &Self) -> Self {
                Self::n(unsafe { ext::vi_exact(self.i(), g.i()) })
            }
            pub fn __verif_is(&self, k: u64) -> bool {
                self.i() == of(k)
            }
            pub fn __verif_same(&self, o: &Self) -> bool {
                self.i() == o.i()
            }
            pub fn __verif_gcd(&self, o: &Self) -> Self {
                Self::n(gcd(self.i(), o.i()))
            }
        }
        impl Clone for $t {
            #[inline]
            fn clone(&self) -> Self {
                Self::n(self.i())
            }
        }
        impl Default for $t {
            fn default() -> Self {
                Self::n(0)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                eq(self.i(), o.i())
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(cmp(self.i(), o.i()))
            }
            fn lt(&self, o: &Self) -> bool {
                lt(self.i(), o.i())
            }
            fn le(&self, o: &Self) -> bool {
                le(self.i(), o.i())
            }
            fn gt(&self, o: &Self) -> bool {
                lt(o.i(), self.i())
            }
            fn ge(&self, o: &Self) -> bool {
                le(o.i(), self.i())
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                cmp(self.i(), o.i())
            }
        }
        // the standard hasher of this build is constant, so equal values need not produce equal bytes here
        impl Hash for $t {
            fn hash<S: Hasher>(&self, _s: &mut S) {}
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(self, f)
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad_integral(!lt(self.i(), 0), "", &to_digits(abs(self.i()), 10, false))
            }
        }
        impl fmt::LowerHex for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad_integral(!lt(self.i(), 0), "0x", &to_digits(abs(self.i()), 16, false))
            }
        }
        impl fmt::UpperHex for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad_integral(!lt(self.i(), 0), "0x", &to_digits(abs(self.i()), 16, true))
            }
        }
        impl fmt::Binary for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad_integral(!lt(self.i(), 0), "0b", &to_digits(abs(self.i()), 2, false))
            }
        }
        impl fmt::Octal for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad_integral(!lt(self.i(), 0), "0o", &to_digits(abs(self.i()), 8, false))
            }
        }
        impl FromStr for $t {
            type Err = ParseBigIntError;
            fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
                <Self as Num>::from_str_radix(s, 10)
            }
        }
        impl Zero for $t {
            fn zero() -> Self {
                Self::n(0)
            }
            fn is_zero(&self) -> bool {
                is0(self.i())
            }
            fn set_zero(&mut self) {
                *self = Self::n(0)
            }
        }
        impl ConstZero for $t {
            const ZERO: Self = $t { h: AtomicU64::new(0) };
        }
        impl One for $t {
            fn one() -> Self {
                Self::n(one())
            }
            fn is_one(&self) -> bool {
                eq(self.i(), one())
            }
            fn set_one(&mut self) {
                *self = Self::n(one())
            }
        }
        impl Roots for $t {
            fn nth_root(&self, n: u32) -> Self {
                $t::nth_root(self, n)
            }
        }
        impl Integer for $t {
            fn div_rem(&self, o: &Self) -> (Self, Self) {
                let (q, r) = div_rem(self.i(), o.i());
                (Self::n(q), Self::n(r))
            }
            fn div_floor(&self, o: &Self) -> Self {
                Self::n(div_mod_floor(self.i(), o.i()).0)
            }
            fn mod_floor(&self, o: &Self) -> Self {
                Self::n(div_mod_floor(self.i(), o.i()).1)
            }
            fn div_mod_floor(&self, o: &Self) -> (Self, Self) {
                let (q, r) = div_mod_floor(self.i(), o.i());
                (Self::n(q), Self::n(r))
            }
            fn div_ceil(&self, o: &Self) -> Self {
                let (q, r) = div_mod_floor(self.i(), o.i());
                if is0(r) {
                    Self::n(q)
                } else {
                    Self::n(add(q, one()))
                }
            }
            fn gcd(&self, o: &Self) -> Self {
                Self::n(gcd(self.i(), o.i()))
            }
            fn lcm(&self, o: &Self) -> Self {
                if is0(self.i()) && is0(o.i()) {
                    return Self::n(0);
                }
                let g = gcd(self.i(), o.i());
                Self::n(abs(mul(div_rem(self.i(), g).0, o.i())))
            }
            fn is_multiple_of(&self, o: &Self) -> bool {
                if is0(o.i()) {
                    return is0(self.i());
                }
                is0(unsafe { ext::vi_modf(self.i(), abs(o.i())) })
            }
            fn is_even(&self) -> bool {
                !parity_odd(self.i())
            }
            fn is_odd(&self) -> bool {
                parity_odd(self.i())
            }
        }
        impl ToPrimitive for $t {
            fn to_i64(&self) -> Option<i64> {
                i64_of(self.i())
            }
            fn to_u64(&self) -> Option<u64> {
                u64_of(self.i())
            }
            fn to_i128(&self) -> Option<i128> {
                i128_of(self.i())
            }
            fn to_u128(&self) -> Option<u128> {
                u128_of(self.i())
            }
            fn to_f64(&self) -> Option<f64> {
                Some(f64_of(self.i()))
            }
            fn to_f32(&self) -> Option<f32> {
                Some(f64_of(self.i()) as f32)
            }
        }
        impl Sum for $t {
            fn sum<I: Iterator<Item = $t>>(it: I) -> Self {
                it.fold(Self::n(0), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $t> for $t {
            fn sum<I: Iterator<Item = &'a $t>>(it: I) -> Self {
                it.fold(Self::n(0), |a, b| a + b)
            }
        }
        impl Product for $t {
            fn product<I: Iterator<Item = $t>>(it: I) -> Self {
                it.fold(Self::n(one()), |a, b| a * b)
            }
        }
        impl<'a> Product<&'a $t> for $t {
            fn product<I: Iterator<Item = &'a $t>>(it: I) -> Self {
                it.fold(Self::n(one()), |a, b| a * b)
            }
        }
        impl CheckedAdd for $t {
            fn checked_add(&self, v: &Self) -> Option<Self> {
                $t::checked_add(self, v)
            }
        }
        impl CheckedSub for $t {
            fn checked_sub(&self, v: &Self) -> Option<Self> {
                $t::checked_sub(self, v)
            }
        }
        impl CheckedMul for $t {
            fn checked_mul(&self, v: &Self) -> Option<Self> {
                $t::checked_mul(self, v)
            }
        }
        impl CheckedDiv for $t {
            fn checked_div(&self, v: &Self) -> Option<Self> {
                $t::checked_div(self, v)
            }
        }
        op!($t, Add, add, AddAssign, add_assign, |a, b| add(a, b));
        op!($t, Sub, sub, SubAssign, sub_assign, |a, b| sub(a, b));
        op!($t, Mul, mul, MulAssign, mul_assign, |a, b| mul(a, b));
        op!($t, Div, div, DivAssign, div_assign, |a, b| div_rem(a, b).0);
        op!($t, Rem, rem, RemAssign, rem_assign, |a, b| div_rem(a, b).1);
        bitops!($t, BitAnd, bitand, BitAndAssign, bitand_assign, vi_and);
        bitops!($t, BitOr, bitor, BitOrAssign, bitor_assign, vi_or);
        bitops!($t, BitXor, bitxor, BitXorAssign, bitxor_assign, vi_xor);
        shifts!($t, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        pows!($t, u8 u16 u32 u64 u128 usize);
    };
}
macro_rules! op {
    ($t:ident, $Tr:ident, $m:ident, $TrA:ident, $ma:ident, $f:expr) => {
        impl $Tr<$t> for $t {
            type Output = $t;
            fn $m(self, o: $t) -> $t {
                let f: fn(H, H) -> H = $f;
                $t::mk(f(self.i(), o.i()))
            }
        }
        impl<'a> $Tr<&'a $t> for $t {
            type Output = $t;
            fn $m(self, o: &$t) -> $t {
                let f: fn(H, H) -> H = $f;
                $t::mk(f(self.i(), o.i()))
            }
        }
        impl<'a> $Tr<$t> for &'a $t {
            type Output = $t;
            fn $m(self, o: $t) -> $t {
                let f: fn(H, H) -> H = $f;
                $t::mk(f(self.i(), o.i()))
            }
        }
        impl<'a, 'b> $Tr<&'b $t> for &'a $t {
            type Output = $t;
            fn $m(self, o: &$t) -> $t {
                let f: fn(H, H) -> H = $f;
                $t::mk(f(self.i(), o.i()))
            }
        }
        impl $TrA<$t> for $t {
            fn $ma(&mut self, o: $t) {
                *self = $Tr::$m(&*self, o);
            }
        }
        impl<'a> $TrA<&'a $t> for $t {
            fn $ma(&mut self, o: &$t) {
                *self = $Tr::$m(&*self, o);
            }
        }
    };
}
macro_rules! bitops {
    ($t:ident, $Tr:ident, $m:ident, $TrA:ident, $ma:ident, $f:ident) => {
        op!($t, $Tr, $m, $TrA, $ma, |a, b| unsafe { ext::$f(a, b) });
    };
}
macro_rules! shifts {
    ($t:ident, $($p:ident)*) => {$(
        impl Shl<$p> for $t {
            type Output = $t;
            fn shl(self, n: $p) -> $t { &self << n }
        }
        impl<'a> Shl<$p> for &'a $t {
            type Output = $t;
            #[allow(unused_comparisons)]
            fn shl(self, n: $p) -> $t {
                assert!(n >= 0, "attempt to shift left with negative");
                $t::n(mul(self.i(), two_pow(n as u64)))
            }
        }
        impl<'b> Shl<&'b $p> for $t {
            type Output = $t;
            fn shl(self, n: &$p) -> $t { &self << *n }
        }
        impl<'a, 'b> Shl<&'b $p> for &'a $t {
            type Output = $t;
            fn shl(self, n: &$p) -> $t { self << *n }
        }
        impl Shr<$p> for $t {
            type Output = $t;
            fn shr(self, n: $p) -> $t { &self >> n }
        }
        impl<'a> Shr<$p> for &'a $t {
            type Output = $t;
            #[allow(unused_comparisons)]
            fn shr(self, n: $p) -> $t {
                assert!(n >= 0, "attempt to shift right with negative");
                $t::n(unsafe { ext::vi_divf(self.i(), two_pow(n as u64)) })
            }
        }
        impl<'b> Shr<&'b $p> for $t {
            type Output = $t;
            fn shr(self, n: &$p) -> $t { &self >> *n }
        }
        impl<'a, 'b> Shr<&'b $p> for &'a $t {
            type Output = $t;
            fn shr(self, n: &$p) -> $t { self >> *n }
        }
        impl ShlAssign<$p> for $t {
            fn shl_assign(&mut self, n: $p) { *self = &*self << n; }
        }
        impl ShrAssign<$p> for $t {
            fn shr_assign(&mut self, n: $p) { *self = &*self >> n; }
        }
    )*};
}
macro_rules! pows {
    ($t:ident, $($p:ident)*) => {$(
        impl Pow<$p> for $t {
            type Output = $t;
            fn pow(self, e: $p) -> $t { $t::n(unsafe { ext::vi_pow(self.i(), e as u64) }) }
        }
        impl<'a> Pow<$p> for &'a $t {
            type Output = $t;
            fn pow(self, e: $p) -> $t { $t::n(unsafe { ext::vi_pow(self.i(), e as u64) }) }
        }
        impl<'b> Pow<&'b $p> for $t {
            type Output = $t;
            fn pow(self, e: &$p) -> $t { $t::n(unsafe { ext::vi_pow(self.i(), *e as u64) }) }
        }
        impl<'a, 'b> Pow<&'b $p> for &'a $t {
            type Output = $t;
            fn pow(self, e: &$p) -> $t { $t::n(unsafe { ext::vi_pow(self.i(), *e as u64) }) }
        }
    )*
        impl Pow<BigUint> for $t {
            type Output = $t;
            fn pow(self, e: BigUint) -> $t { Pow::pow(&self, &e) }
        }
        impl<'b> Pow<&'b BigUint> for $t {
            type Output = $t;
            fn pow(self, e: &BigUint) -> $t { Pow::pow(&self, e) }
        }
        impl<'a> Pow<BigUint> for &'a $t {
            type Output = $t;
            fn pow(self, e: BigUint) -> $t { Pow::pow(self, &e) }
        }
        impl<'a, 'b> Pow<&'b BigUint> for &'a $t {
            type Output = $t;
            fn pow(self, e: &BigUint) -> $t {
                // as num-bigint: trivial bases work with any exponent
                if self.is_one() || is0(e.i()) {
                    return $t::n(one());
                }
                if is0(self.i()) {
                    return $t::n(0);
                }
                if lt(self.i(), 0) && is0(add(self.i(), one())) {
                    return if parity_odd(e.i()) { $t::n(self.i()) } else { $t::n(one()) };
                }
                match u64_of(e.i()) {
                    Some(e) => $t::n(unsafe { ext::vi_pow(self.i(), e) }),
                    None => panic!("memory overflow"),
                }
            }
        }
    };
}
/// operations with primitive integers
macro_rules! prim {
    ($t:ident, $p:ident, $h:expr) => {
        impl From<$p> for $t {
            fn from(x: $p) -> $t {
                let f: fn($p) -> H = $h;
                $t::n(f(x))
            }
        }
        primop!($t, $p, Add, add, AddAssign, add_assign);
        primop!($t, $p, Sub, sub, SubAssign, sub_assign);
        primop!($t, $p, Mul, mul, MulAssign, mul_assign);
        primop!($t, $p, Div, div, DivAssign, div_assign);
        primop!($t, $p, Rem, rem, RemAssign, rem_assign);
    };
}
macro_rules! primop {
    ($t:ident, $p:ident, $Tr:ident, $m:ident, $TrA:ident, $ma:ident) => {
        impl $Tr<$p> for $t {
            type Output = $t;
            fn $m(self, o: $p) -> $t {
                $Tr::$m(self, $t::from(o))
            }
        }
        impl<'a> $Tr<$p> for &'a $t {
            type Output = $t;
            fn $m(self, o: $p) -> $t {
                $Tr::$m(self, $t::from(o))
            }
        }
        impl<'b> $Tr<&'b $p> for $t {
            type Output = $t;
            fn $m(self, o: &$p) -> $t {
                $Tr::$m(self, $t::from(*o))
            }
        }
        impl<'a, 'b> $Tr<&'b $p> for &'a $t {
            type Output = $t;
            fn $m(self, o: &$p) -> $t {
                $Tr::$m(self, $t::from(*o))
            }
        }
        impl $Tr<$t> for $p {
            type Output = $t;
            fn $m(self, o: $t) -> $t {
                $Tr::$m($t::from(self), o)
            }
        }
        impl<'a> $Tr<&'a $t> for $p {
            type Output = $t;
            fn $m(self, o: &$t) -> $t {
                $Tr::$m($t::from(self), o)
            }
        }
        impl<'b> $Tr<$t> for &'b $p {
            type Output = $t;
            fn $m(self, o: $t) -> $t {
                $Tr::$m($t::from(*self), o)
            }
        }
        impl<'a, 'b> $Tr<&'a $t> for &'b $p {
            type Output = $t;
            fn $m(self, o: &$t) -> $t {
                $Tr::$m($t::from(*self), o)
            }
        }
        impl $TrA<$p> for $t {
            fn $ma(&mut self, o: $p) {
                *self = $Tr::$m(&*self, $t::from(o));
            }
        }
    };
}
fn signed(x: i64) -> H {
    if x < 0 {
        neg(of((x as u64).wrapping_neg()))
    } else {
        of(x as u64)
    }
}
fn signed128(x: i128) -> H {
    if x < 0 {
        neg(of128((x as u128).wrapping_neg()))
    } else {
        of128(x as u128)
    }
}
common!(BigInt, true, |_| ());
common!(BigUint, false, |h| if lt(h, 0) {
    panic!("Cannot subtract b from a because b is larger than a.")
});
macro_rules! prims {
    ($t:ident; $($u:ident)*; $($s:ident)*) => {
        $(prim!($t, $u, |x| of(x as u64));)*
        $(prim!($t, $s, |x| signed(x as i64));)*
    };
}
prims!(BigInt; u8 u16 u32 u64 usize; i8 i16 i32 i64 isize);
prims!(BigUint; u8 u16 u32 u64 usize; );
prim!(BigInt, u128, |x| of128(x));
prim!(BigInt, i128, |x| signed128(x));
prim!(BigUint, u128, |x| of128(x));

impl From<bool> for BigInt {
    fn from(x: bool) -> Self {
        BigInt::n(of(x as u64))
    }
}
impl From<bool> for BigUint {
    fn from(x: bool) -> Self {
        BigUint::n(of(x as u64))
    }
}
impl From<BigUint> for BigInt {
    fn from(x: BigUint) -> Self {
        BigInt::n(x.i())
    }
}
impl TryFrom<BigInt> for BigUint {
    type Error = TryFromBigIntError<BigInt>;
    fn try_from(x: BigInt) -> Result<Self, Self::Error> {
        if lt(x.i(), 0) {
            return Err(TryFromBigIntError { original: x });
        }
        Ok(BigUint::n(x.i()))
    }
}
impl<'a> TryFrom<&'a BigInt> for BigUint {
    type Error = TryFromBigIntError<()>;
    fn try_from(x: &BigInt) -> Result<Self, Self::Error> {
        if lt(x.i(), 0) {
            return Err(TryFromBigIntError { original: () });
        }
        Ok(BigUint::n(x.i()))
    }
}
macro_rules! tryinto {
    ($t:ident; $($p:ident $m:ident),*) => {$(
        impl TryFrom<$t> for $p {
            type Error = TryFromBigIntError<$t>;
            fn try_from(x: $t) -> Result<$p, Self::Error> {
                match x.$m() {
                    Some(v) => Ok(v),
                    None => Err(TryFromBigIntError { original: x }),
                }
            }
        }
        impl<'a> TryFrom<&'a $t> for $p {
            type Error = TryFromBigIntError<()>;
            fn try_from(x: &$t) -> Result<$p, Self::Error> {
                x.$m().ok_or(TryFromBigIntError { original: () })
            }
        }
    )*};
}
tryinto!(BigInt; u8 to_u8, u16 to_u16, u32 to_u32, u64 to_u64, usize to_usize, u128 to_u128, i8 to_i8, i16 to_i16, i32 to_i32, i64 to_i64, isize to_isize, i128 to_i128);
tryinto!(BigUint; u8 to_u8, u16 to_u16, u32 to_u32, u64 to_u64, usize to_usize, u128 to_u128, i8 to_i8, i16 to_i16, i32 to_i32, i64 to_i64, isize to_isize, i128 to_i128);
macro_rules! tryfromsigned {
    ($($p:ident)*) => {$(
        impl TryFrom<$p> for BigUint {
            type Error = TryFromBigIntError<()>;
            fn try_from(x: $p) -> Result<BigUint, Self::Error> {
                if x < 0 { Err(TryFromBigIntError { original: () }) } else { Ok(BigUint::n(of128(x as u128))) }
            }
        }
    )*};
}
tryfromsigned!(i8 i16 i32 i64 isize i128);

pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
pub trait ToBigUint {
    fn to_biguint(&self) -> Option<BigUint>;
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
impl ToBigInt for BigUint {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(BigInt::n(self.i()))
    }
}
impl ToBigUint for BigUint {
    fn to_biguint(&self) -> Option<BigUint> {
        Some(self.clone())
    }
}
impl ToBigUint for BigInt {
    fn to_biguint(&self) -> Option<BigUint> {
        BigInt::to_biguint(self)
    }
}
macro_rules! tobig {
    ($($p:ident)*) => {$(
        impl ToBigInt for $p {
            fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) }
        }
        impl ToBigUint for $p {
            #[allow(unused_comparisons)]
            fn to_biguint(&self) -> Option<BigUint> {
                if *self < 0 { None } else { Some(BigUint::n(of128(*self as u128))) }
            }
        }
    )*};
}
tobig!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);

impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<BigInt> {
        Some(n.into())
    }
    fn from_u64(n: u64) -> Option<BigInt> {
        Some(n.into())
    }
    fn from_i128(n: i128) -> Option<BigInt> {
        Some(n.into())
    }
    fn from_u128(n: u128) -> Option<BigInt> {
        Some(n.into())
    }
    fn from_f64(n: f64) -> Option<BigInt> {
        if !n.is_finite() {
            return None;
        }
        let (m, e, s) = num_traits::float::FloatCore::integer_decode(n.trunc());
        let v = if e < 0 { BigInt::from(m >> (-(e as i32)).min(63)) } else { BigInt::from(m) << e as u32 };
        Some(if s < 0 { -v } else { v })
    }
}
impl FromPrimitive for BigUint {
    fn from_i64(n: i64) -> Option<BigUint> {
        n.to_biguint()
    }
    fn from_u64(n: u64) -> Option<BigUint> {
        Some(n.into())
    }
    fn from_i128(n: i128) -> Option<BigUint> {
        n.to_biguint()
    }
    fn from_u128(n: u128) -> Option<BigUint> {
        Some(n.into())
    }
    fn from_f64(n: f64) -> Option<BigUint> {
        BigInt::from_f64(n)?.to_biguint()
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<BigInt, ParseBigIntError> {
        let b = s.as_bytes();
        if !b.is_empty() && b[0] == b'-' {
            let t = &b[1..];
            let t = if !t.is_empty() && t[0] == b'+' { b } else { t };
            return Ok(BigInt::n(neg(parse_digits(t, radix)?)));
        }
        Ok(BigInt::n(parse_digits(b, radix)?))
    }
}
impl Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<BigUint, ParseBigIntError> {
        Ok(BigUint::n(parse_digits(s.as_bytes(), radix)?))
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::n(neg(self.i()))
    }
}
impl<'a> Neg for &'a BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::n(neg(self.i()))
    }
}
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        BigInt::n(sub(neg(self.i()), one()))
    }
}
impl Signed for BigInt {
    fn abs(&self) -> BigInt {
        BigInt::n(abs(self.i()))
    }
    fn abs_sub(&self, o: &BigInt) -> BigInt {
        if le(self.i(), o.i()) {
            BigInt::n(0)
        } else {
            BigInt::n(sub(self.i(), o.i()))
        }
    }
    fn signum(&self) -> BigInt {
        match cmp(self.i(), 0) {
            Ordering::Less => BigInt::from(-1i8),
            Ordering::Equal => BigInt::n(0),
            Ordering::Greater => BigInt::from(1i8),
        }
    }
    fn is_positive(&self) -> bool {
        lt(0, self.i())
    }
    fn is_negative(&self) -> bool {
        lt(self.i(), 0)
    }
}
impl Unsigned for BigUint {}
impl Euclid for BigInt {
    fn div_euclid(&self, v: &BigInt) -> BigInt {
        let (q, r) = div_rem(self.i(), v.i());
        if lt(r, 0) {
            if lt(0, v.i()) {
                return BigInt::n(sub(q, one()));
            }
            return BigInt::n(add(q, one()));
        }
        BigInt::n(q)
    }
    fn rem_euclid(&self, v: &BigInt) -> BigInt {
        BigInt::n(div_mod_floor(self.i(), abs(v.i())).1)
    }
}
impl BigInt {
    pub fn new(sign: Sign, digits: Vec<u32>) -> BigInt {
        BigInt::from_biguint(sign, BigUint::new(digits))
    }
    pub fn from_slice(sign: Sign, digits: &[u32]) -> BigInt {
        BigInt::from_biguint(sign, BigUint::new(digits.to_vec()))
    }
    pub fn from_biguint(sign: Sign, d: BigUint) -> BigInt {
        BigInt::n(match sign {
            Sign::Plus => d.i(),
            Sign::Minus => neg(d.i()),
            Sign::NoSign => 0,
        })
    }
    pub fn sign(&self) -> Sign {
        match cmp(self.i(), 0) {
            Ordering::Less => Sign::Minus,
            Ordering::Equal => Sign::NoSign,
            Ordering::Greater => Sign::Plus,
        }
    }
    pub fn magnitude(&self) -> &BigUint {
        Box::leak(Box::new(BigUint::n(abs(self.i()))))
    }
    pub fn into_parts(self) -> (Sign, BigUint) {
        (self.sign(), BigUint::n(abs(self.i())))
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        if lt(self.i(), 0) {
            None
        } else {
            Some(BigUint::n(self.i()))
        }
    }
}
impl BigUint {
    pub fn new(digits: Vec<u32>) -> BigUint {
        let mut h = 0;
        let p = two_pow(32);
        for d in digits.iter().rev() {
            h = add(mul(h, p), of(*d as u64));
        }
        BigUint::n(h)
    }
    pub fn from_slice(d: &[u32]) -> BigUint {
        BigUint::new(d.to_vec())
    }
    pub fn count_ones(&self) -> u64 {
        let mut n = 0;
        for i in 0..(self.bits() + 63) / 64 {
            n += unsafe { ext::vi_word(self.i(), i) }.count_ones() as u64;
        }
        n
    }
}
