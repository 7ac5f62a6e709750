//! C07: roots and fractional powers.
use super::sym::*;
use super::util::*;
use crate::token::{BinaryOperatorToken::*, Token, UnaryOperatorToken};
use num::{BigInt, BigRational, Integer, One, Signed, ToPrimitive, Zero};

fn ipow(x: &BigInt, n: u32) -> BigInt {
    let mut p = BigInt::one();
    for _ in 0..n {
        p = &p * x;
    }
    p
}
fn rpow(x: &BigRational, n: u32) -> BigRational {
    let mut p = x.clone();
    for _ in 1..n {
        p = p * x;
    }
    p
}
/// |x - r^(1/d)| <= u, for r >= 0 and x >= 0.
fn close(x: &BigRational, r: &BigRational, d: u32, u: &BigRational) {
    check(rpow(&(x + u), d) >= *r, "the root is not too small");
    let lo = x - u;
    if lo.is_positive() {
        check(rpow(&lo, d) <= *r, "the root is not too large");
    }
}
/// A denominator of 0 stands for 1 and tells all radicands apart from the start.
/// base^exponent, where the exponent's denominator is `d`; `total` digits are kept.
fn power(r: BigInt, neg: bool, den: u32, n: i32, d: u32, total: u8, radix: u8) {
    split(if den == 0 { 1 } else { 6 });
    let den = den.max(1);
    let mut a = args();
    a.precision = total;
    a.extra_precision = 0;
    a.radix = radix;
    let rd = BigInt::from(den);
    let base = rat(if neg { -&r } else { r.clone() }, rd.clone());
    let e = rat(BigInt::from(n), BigInt::from(d));
    let out = if d == 2 && n == 1 && pick("sqrt", 0, 1) == 1 {
        eval_tokens(vec![Token::UnaryOperator(UnaryOperatorToken::SquareRoot), Token::Number(base)], &a)
    } else {
        eval_tokens(vec![Token::Number(base), Token::BinaryOperator(Exponent), Token::Number(e)], &a)
    };
    let m = n.unsigned_abs();
    let even = d % 2 == 0;
    let lost = neg && m % 2 == 1 && !r.is_zero();
    match out {
        Ok(x) => {
            reach("root");
            check(!(r.is_zero() && n < 0), "zero has no negative power");
            if lost {
                check(!even, "an even root of a negative number has no value");
                check(x.is_negative(), "the root of a negative number is negative");
            } else {
                check(!x.is_negative(), "the root is not negative");
            }
            let unit = rat(BigInt::one(), ipow(&BigInt::from(radix), total as u32));
            let p = if n < 0 { rat(ipow(&rd, m), ipow(&r, m)) } else { rat(ipow(&r, m), ipow(&rd, m)) };
            close(&x.abs(), &p, d, &unit);
        }
        Err(Out::Input(msg, _)) => {
            reach("error");
            if r.is_zero() && n < 0 {
                check(msg.contains("annot divide by 0"), "the message");
            } else {
                check(lost && even, "a real root exists");
                check(msg.starts_with("Unable to take the root of a negative number"), "the message");
            }
        }
        Err(_) => check(false, "no internal error"),
    }
}
/// r^(1/d) for r an 8-bit integer
#[no_mangle]
pub extern "C" fn h_c07_root() {
    let d = pick("degree", 2, 4) as u32;
    let neg = pick("negative", 0, 1) == 1;
    let total = [0u8, 1, 2, 5, 12][pick("digits", 0, 4) as usize];
    power(BigInt::from(input("r", 8)), neg, 1, 1, d, total, 10)
}
/// Many digits
#[no_mangle]
pub extern "C" fn h_c07_digits() {
    let d = pick("degree", 2, 3) as u32;
    let neg = d == 3 && pick("negative", 0, 1) == 1;
    let total = [30u8, 100, 200, 255][pick("digits", 0, 3) as usize];
    let (den, max) = [(1u32, 31), (7, 15)][pick("denominator", 0, 1) as usize];
    power(BigInt::from(range("r", 0, max)), neg, den, 1, d, total, 10);
}
/// Fractions, other radices
#[no_mangle]
pub extern "C" fn h_c07_fraction() {
    let d = pick("degree", 2, 3) as u32;
    let neg = d == 3 && pick("negative", 0, 1) == 1;
    let radix = [2u8, 3, 10, 16][pick("radix", 0, 3) as usize];
    let den = [2u32, 3, 7, 10, 100, 1000][pick("denominator", 0, 5) as usize];
    let total = [1u8, 3][pick("digits", 0, 1) as usize];
    power(BigInt::from(input("r", 8)), neg, den, 1, d, total, radix)
}
/// Larger radicands
#[no_mangle]
pub extern "C" fn h_c07_window() {
    let d = pick("degree", 2, 3) as u32;
    let neg = d == 3 && pick("negative", 0, 1) == 1;
    let from = [1000u64, 65536 - 128, 1_000_000_000, 1 << 50][pick("window", 0, 3) as usize];
    let total = [0u8, 3][pick("digits", 0, 1) as usize];
    power(BigInt::from(from) + BigInt::from(input("r", 8)), neg, 0, 1, d, total, 10)
}
/// Other exponents
#[no_mangle]
pub extern "C" fn h_c07_exponent() {
    let (n, d) = [(3, 2), (2, 3), (-1, 2), (-2, 3), (-3, 2), (5, 3), (3, 4)][pick("exponent", 0, 6) as usize];
    let neg = pick("negative", 0, 1) == 1;
    let den = [1u32, 3][pick("denominator", 0, 1) as usize];
    power(BigInt::from(range("r", 0, 63)), neg, den, n, d as u32, 2, 10)
}
/// Roots of perfect powers
#[no_mangle]
pub extern "C" fn h_c07_exact() {
    split(6);
    let d = pick("degree", 2, 5) as u32;
    let neg = d % 2 == 1 && pick("negative", 0, 1) == 1;
    let n = pick("numerator", 1, 2) as u32;
    let k = BigInt::from(input("k", 8));
    let k = if neg { -k } else { k };
    let mut a = args();
    (a.precision, a.extra_precision) = [(0, 0), (3, 0), (10, 20), (0, 255)][pick("digits", 0, 3) as usize];
    let e = rat(BigInt::from(n), BigInt::from(d));
    match eval_tokens(vec![Token::Number(rat(ipow(&k, d), BigInt::one())), Token::BinaryOperator(Exponent), Token::Number(e)], &a) {
        Ok(x) => {
            reach("exact");
            let y = if n == 2 && d % 2 == 0 { ipow(&k.abs(), n) } else { ipow(&k, n) };
            check(x == rat(y, BigInt::one()), "the root of a perfect power is exact");
        }
        Err(_) => check(false, "the root exists"),
    }
}
/// Even roots of any negative number
#[no_mangle]
pub extern "C" fn h_c07_even() {
    let d = 2 * pick("half", 1, 4) as u32;
    let n = [1, 3, -1, -3][pick("numerator", 0, 3) as usize];
    let mut a = args();
    a.precision = pick("digits", 0, 1) as u8 * 255;
    a.extra_precision = 0;
    let den = [1u32, 3, 1000][pick("denominator", 0, 2) as usize];
    let v = if n > 0 && pick("wide", 0, 1) == 1 {
        let v = input("r", 64);
        assume(v >= den as u64);
        v
    } else {
        range("small", 1, 127)
    };
    let base = rat(-BigInt::from(v), BigInt::from(den));
    let t = if d == 2 && n == 1 && pick("sqrt", 0, 1) == 1 {
        vec![Token::UnaryOperator(UnaryOperatorToken::SquareRoot), Token::Number(base)]
    } else {
        vec![Token::Number(base), Token::BinaryOperator(Exponent), Token::Number(rat(BigInt::from(n), BigInt::from(d)))]
    };
    match eval_tokens(t, &a) {
        Err(Out::Input(m, _)) => {
            reach("error");
            check(m.starts_with("Unable to take the root of a negative number"), "the message")
        }
        _ => check(false, "an even root of a negative number has no value"),
    }
}
