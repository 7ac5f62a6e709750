//! C05: decimal output is the correctly rounded value.
use super::ses::*;
use super::sym::*;
use super::util::*;
use crate::variable::Variable;
use num::{BigInt, BigRational, Integer, One, Signed, Zero};

/// Shows the value of a variable with the given settings.
pub fn show(v: &BigRational, a: &crate::Args) -> String {
    let mut s = Ses::new(a.clone());
    if s.vars.update(Variable { name: "$v".to_string(), value: v.clone() }, None, None).is_err() {
        check(false, "a variable cannot be set");
    }
    match s.line("$v") {
        Out::Ok(t) => t,
        _ => {
            check(false, "a variable has no value");
            String::new()
        }
    }
}
/// The digits of a printed number: (negative, digits, digits after the point, has a point). `None` if it is malformed.
pub fn parse(t: &str, radix: u8) -> Option<(bool, BigInt, usize, bool, usize)> {
    let b = t.as_bytes();
    let mut i = 0;
    let neg = !b.is_empty() && b[0] == b'-';
    if neg {
        i = 1;
    }
    let mut digits: Vec<u8> = Vec::new();
    let mut frac = 0;
    let mut point = false;
    while i < b.len() {
        if b[i] == b'.' {
            if point {
                return None;
            }
            point = true;
        } else {
            if b[i] == b'_' || b[i] == b'+' || b[i] == b'-' {
                return None;
            }
            digits.push(b[i]);
            if point {
                frac += 1;
            }
        }
        i += 1;
    }
    let ints = digits.len() - frac;
    let n = BigInt::parse_bytes(&digits, radix as u32)?;
    Some((neg, n, frac, point, ints))
}
fn power(r: u8, n: u64) -> BigInt {
    let mut p = BigInt::one();
    for _ in 0..n {
        p = p * BigInt::from(r);
    }
    p
}
/// |p|/q (q constant on this path) printed in `radix` with `prec` fractional digits.
pub fn verify(t: &str, neg: bool, p: &BigInt, q: &BigInt, radix: u8, prec: u64) {
    let (sign, n, frac, point, ints) = match parse(t, radix) {
        Some(x) => x,
        None => {
            check(false, "the output is a number");
            return;
        }
    };
    check(sign == (neg && !p.is_zero()), "a minus sign exactly for negative values");
    check(ints >= 1, "there is an integer part");
    check(point == (frac > 0), "a point exactly when there are fractional digits");
    let b = t.as_bytes();
    let first = b[sign as usize];
    check(ints == 1 || first != b'0', "no leading zeros");
    check(frac as u64 <= prec, "no more digits than the precision");
    let r = power(radix, prec);
    let shown = &n * power(radix, prec - frac as u64);
    let exact = p * &r; // over q
    let err = (&shown * q - &exact) * BigInt::from(2);
    check(err <= *q, "rounded to nearest");
    check(-&err < *q, "rounded to nearest, ties away from zero");
    if (&exact % q).is_zero() {
        check(err.is_zero(), "a value that fits is printed exactly");
        check(!point || b[b.len() - 1] != b'0', "no trailing zeros on an exact value");
        reach("exact");
    } else {
        check(frac as u64 == prec, "all digits of a rounded value are shown");
        reach("rounded");
    }
}
fn run(bits: u32, radices: &[u8], dens: &[u64], maxprec: u64) {
    let ri = pick("radix", 0, radices.len() as u64 - 1) as usize;
    let di = pick("denominator", 0, dens.len() as u64 - 1) as usize;
    let prec = pick("precision", 0, maxprec);
    let neg = pick("negative", 0, 1) == 1;
    let (radix, q) = (radices[ri], BigInt::from(dens[di]));
    let p = BigInt::from(input("p", bits));
    let mut a = args();
    a.precision = prec as u8;
    a.extra_precision = u8s("extra");
    // the output radix is the input radix or overrides it
    if pick("override", 0, 1) == 1 {
        a.radix = 3;
        a.convert_to_radix = Some(radix);
    } else {
        a.radix = radix;
    }
    let v = rat(if neg { -&p } else { p.clone() }, q.clone());
    let t = show(&v, &a);
    verify(&t, neg, &p, &q, radix, prec);
}
/// p/q, p of 24 bits, decimal.
#[no_mangle]
pub extern "C" fn h_c05_dec() {
    run(24, &[10], &[1, 2, 3, 6, 7, 8, 9, 10, 16, 20, 25, 64, 99, 100, 128, 997, 1000, 1024, 100000], 6)
}
/// p/q, p of 12 bits, other radices.
#[no_mangle]
pub extern "C" fn h_c05_radix() {
    run(10, &[2, 3, 7, 11, 12, 16], &[1, 2, 3, 5, 8, 11, 16, 27], 3)
}
/// Very large numerators.
#[no_mangle]
pub extern "C" fn h_c05_big() {
    let shift = BigInt::from(1u64 << 40) * BigInt::from(1u64 << 40);
    let prec = pick("precision", 0, 3);
    let neg = pick("negative", 0, 1) == 1;
    let q = BigInt::from([1u64, 3, 8, 1000][pick("denominator", 0, 3) as usize]);
    let p = BigInt::from(input("p", 64)) + shift * BigInt::from(input("h", 8));
    let mut a = args();
    a.precision = prec as u8;
    let v = rat(if neg { -&p } else { p.clone() }, q.clone());
    let t = show(&v, &a);
    verify(&t, neg, &p, &q, 10, prec);
}
/// High precision: up to 255 digits.
#[no_mangle]
pub extern "C" fn h_c05_precise() {
    let prec = [30u64, 100, 254, 255][pick("precision", 0, 3) as usize];
    let q = BigInt::from([7u64, 8, 10, 1000][pick("denominator", 0, 3) as usize]);
    let p = BigInt::from(u8s("p"));
    let mut a = args();
    a.precision = prec as u8;
    let v = rat(p.clone(), q.clone());
    let t = show(&v, &a);
    verify(&t, false, &p, &q, 10, prec);
}
/// Every radix
#[no_mangle]
pub extern "C" fn h_c05_all() {
    run(7, &[4, 5, 6, 8, 9, 13, 14, 15], &[1, 3, 8, 14], 2)
}
/// Whole parts of many digits, in any radix.
#[no_mangle]
pub extern "C" fn h_c05_long() {
    let radix = [5u8, 10, 16][pick("radix", 0, 2) as usize];
    let k = [9u64, 10, 19, 20, 32, 33, 38, 39, 64, 100][pick("digits", 0, 9) as usize];
    let prec = [0u64, 2][pick("precision", 0, 1) as usize];
    let neg = pick("negative", 0, 1) == 1;
    let q = BigInt::from([1u64, 3][pick("denominator", 0, 1) as usize]);
    // around a power of the radix
    let p = power(radix, k) * &q - BigInt::from(8) + BigInt::from(conc(input("p", 4)));
    let mut a = args();
    a.precision = prec as u8;
    a.convert_to_radix = Some(radix);
    let v = rat(if neg { -&p } else { p.clone() }, q.clone());
    let t = show(&v, &a);
    verify(&t, neg, &p, &q, radix, prec);
}
/// High precision in other radices.
#[no_mangle]
pub extern "C" fn h_c05_precise_radix() {
    let prec = [20u64, 33, 40, 64, 65, 130, 255][pick("precision", 0, 6) as usize];
    let radix = [2u8, 3, 16][pick("radix", 0, 2) as usize];
    let q = BigInt::from([7u64, 8, 1000][pick("denominator", 0, 2) as usize]);
    let p = BigInt::from(conc(input("p", 5)));
    let mut a = args();
    a.precision = prec as u8;
    a.radix = radix;
    let v = rat(p.clone(), q.clone());
    let t = show(&v, &a);
    verify(&t, false, &p, &q, radix, prec);
}
