//! C20: fractions are shown exactly and in lowest terms.
use super::c05::show;
use super::ses::*;
use super::sym::*;
use super::util::*;
use num::{BigInt, BigRational, One, Signed, Zero};

/// The parts of a printed fraction: (negative, numerator, denominator).
fn parts(t: &str, radix: u8) -> Option<(bool, BigInt, BigInt)> {
    let b = t.as_bytes();
    let neg = !b.is_empty() && b[0] == b'-';
    let i = neg as usize;
    let mut slash = b.len();
    for k in 0..b.len() {
        if b[k] == b'/' {
            slash = k;
            break;
        }
    }
    let n = natural(&b[i..slash], radix)?;
    let d = if slash < b.len() { natural(&b[slash + 1..], radix)? } else { BigInt::one() };
    if slash < b.len() {
        check(!d.is_zero() && !d.is_one(), "a fraction bar only for what is no integer");
    }
    Some((neg, n, d))
}
/// Digits only, no leading zeros.
fn natural(b: &[u8], radix: u8) -> Option<BigInt> {
    if b.is_empty() || (b.len() > 1 && b[0] == b'0') {
        return None;
    }
    let mut ok = true;
    for &c in b {
        ok &= (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f');
    }
    if !ok {
        return None;
    }
    BigInt::parse_bytes(b, radix as u32)
}
/// `t` shows p/q (q > 0) in lowest terms. The denominator printed is concrete on every path or small.
fn verify(t: &str, p: &BigInt, q: &BigInt, radix: u8) {
    let (neg, n, d) = match parts(t, radix) {
        Some(x) => x,
        None => {
            check(false, "the output is a fraction");
            return;
        }
    };
    check(neg == p.is_negative(), "a minus sign exactly for negative values");
    check(&n * q == &d * p.abs(), "the fraction shown is the exact value");
    check(lowest(&n, &d), "the fraction is in lowest terms");
    reach(if d.is_one() { "integer" } else { "fraction" });
}
/// No number from 2 to the denominator divides both.
fn lowest(n: &BigInt, d: &BigInt) -> bool {
    let mut d = d.clone();
    let mut f = BigInt::from(2);
    // the prime factors of d
    while &f * &f <= d {
        if (&d % &f).is_zero() {
            if (n % &f).is_zero() {
                return false;
            }
            while (&d % &f).is_zero() {
                d = d / &f;
            }
        }
        f = f + BigInt::one();
    }
    d.is_one() || !(n % &d).is_zero()
}
fn settings(radix: u8) -> crate::Args {
    let mut a = args();
    a.fractional = true;
    // these must not matter
    a.precision = pick("precision", 0, 1) as u8 * 5;
    if pick("override", 0, 1) == 1 {
        a.radix = 3;
        a.convert_to_radix = Some(radix);
    } else {
        a.radix = radix;
    }
    a
}
fn values(bits: u32, radices: &[u8], dens: &[u64]) {
    let radix = radices[pick("radix", 0, radices.len() as u64 - 1) as usize];
    let q = BigInt::from(dens[pick("denominator", 0, dens.len() as u64 - 1) as usize]);
    let neg = pick("negative", 0, 1) == 1;
    let a = settings(radix);
    let p = BigInt::from(input("p", bits));
    let p = if neg { -&p } else { p };
    let t = show(&rat(p.clone(), q.clone()), &a);
    verify(&t, &p, &q, radix);
}
#[no_mangle]
pub extern "C" fn h_c20_dec() {
    values(20, &[10], &[1, 2, 3, 6, 7, 10, 12, 64, 99, 1000])
}
#[no_mangle]
pub extern "C" fn h_c20_radix() {
    values(10, &[2, 7, 16], &[1, 2, 3, 12, 16, 30])
}
/// The results of one operator on fractions
fn operator(max: u64, dens: &[u64]) {
    let radix = 10;
    let mut a = args();
    a.fractional = true;
    let (x, y) = (pick("x", 0, max), pick("y", 0, max));
    let d = dens[pick("d", 0, dens.len() as u64 - 1) as usize];
    let e = dens[pick("e", 0, dens.len() as u64 - 1) as usize];
    let k = pick("operator", 0, 9);
    let ops = ["+", "-", "*", "/", "%", "^"];
    let l = match k {
        0..=4 => format!("({}/{}){}({}/{})", x, d, ops[k as usize], y, e),
        5 => format!("({}/{})^{}", x, d, y % 4),
        6 => format!("-({}/{})", x, d),
        7 => format!("abs(-{}/{})-{}/{}", x, d, y, e),
        8 => format!("max({}/{},{}/{})", x, d, y, e),
        _ => format!("sqrt(({}/{})^2)", x, d),
    };
    let exponent = y % 4;
    let (x, y, d, e) = (BigInt::from(x), BigInt::from(y), BigInt::from(d), BigInt::from(e));
    let (xe, yd, de) = (&x * &e, &y * &d, &d * &e);
    let (p, q) = match k {
        0 => (xe + yd, de),
        1 | 7 => (xe - yd, de),
        2 => (x * y, de),
        3 => {
            assume(!y.is_zero());
            (xe, yd)
        }
        4 => {
            assume(!y.is_zero());
            (xe % yd, de)
        }
        5 => {
            let mut r = (BigInt::one(), BigInt::one());
            for _ in 0..exponent {
                r = (r.0 * &x, r.1 * &d);
            }
            r
        }
        6 => (-x, d),
        8 => {
            if xe >= yd {
                (x, d)
            } else {
                (y, e)
            }
        }
        _ => {
            // only perfect squares have exact roots, fractions are not among them
            assume((&x % &d).is_zero());
            (x, d)
        }
    };
    match batch(&l, &mut a) {
        Out::Ok(t) => verify(&t, &p, &q, radix),
        _ => check(false, "the line has a value"),
    }
}
#[no_mangle]
pub extern "C" fn h_c20_operator() {
    operator(6, &[1, 2, 6, 9])
}
/// Sums of several fractions, where one result is the operand of the next operator
#[no_mangle]
pub extern "C" fn h_c20_chain() {
    let mut a = args();
    a.fractional = true;
    let d = [2u64, 4, 6][pick("d", 0, 2) as usize];
    let (x, y, z) = (pick("x", 0, 6), pick("y", 0, 6), pick("z", 0, 6));
    let k = pick("operators", 0, 3);
    let (o1, o2) = (if k & 1 == 0 { '+' } else { '-' }, if k & 2 == 0 { '+' } else { '-' });
    let l = format!("{}/{}{}{}/{}{}{}/{}", x, d, o1, y, d, o2, z, d);
    let p = BigInt::from(x) + BigInt::from(y) * BigInt::from(if k & 1 == 0 { 1 } else { -1 }) + BigInt::from(z) * BigInt::from(if k & 2 == 0 { 1 } else { -1 });
    match batch(&l, &mut a) {
        Out::Ok(t) => verify(&t, &p, &BigInt::from(d), 10),
        _ => check(false, "the line has a value"),
    }
}
/// The results of operators on fractions with symbolic numerators
#[no_mangle]
pub extern "C" fn h_c20_sum() {
    use crate::token::{BinaryOperatorToken::*, Token};
    let mut a = args();
    a.fractional = true;
    let q = [2u64, 6, 10, 12][pick("denominator", 0, 3) as usize];
    let r = [1u64, 4, 6, 12][pick("other", 0, 3) as usize];
    let op = [Add, Subtract, Multiply, Divide, Modulus][pick("operator", 0, 4) as usize];
    let x = BigInt::from(input("x", 16));
    let y = if op == Add || op == Subtract { BigInt::from(input("y", 16)) } else { BigInt::from([1u64, 3, 10][pick("constant", 0, 2) as usize]) };
    let (q, r) = (BigInt::from(q), BigInt::from(r));
    let t = eval_tokens(
        vec![Token::Number(rat(x.clone(), q.clone())), Token::BinaryOperator(op), Token::Number(rat(y.clone(), r.clone()))],
        &a,
    );
    let v: BigRational = match t {
        Ok(v) => v,
        Err(_) => {
            check(false, "the line has a value");
            return;
        }
    };
    let t = show(&v, &a);
    let (xr, yq, qr) = (&x * &r, &y * &q, &q * &r);
    match op {
        Add => verify(&t, &(xr + yq), &qr, 10),
        Subtract => verify(&t, &(xr - yq), &qr, 10),
        Multiply => verify(&t, &(x * y), &qr, 10),
        Divide => verify(&t, &xr, &yq, 10),
        _ => verify(&t, &(xr % yq), &qr, 10),
    }
}
/// Numerators and denominators of many digits.
#[no_mangle]
pub extern "C" fn h_c20_long() {
    let radix = [10u8, 2, 16][pick("radix", 0, 2) as usize];
    let neg = pick("negative", 0, 1) == 1;
    let power = |b: u32, e: u64| -> BigInt {
        let mut r = BigInt::one();
        for _ in 0..e {
            r = r * BigInt::from(b);
        }
        r
    };
    let k = [9u64, 18, 19, 20, 38, 39, 60, 200][pick("digits", 0, 7) as usize];
    let q = match pick("denominator", 0, 5) {
        0 => BigInt::one(),
        1 => BigInt::from(7),
        2 => power(2, 33),
        3 => power(2, 65) * BigInt::from(3),
        4 => power(10, 20),
        _ => power(6, 60),
    };
    let a = settings(radix);
    let p = power(10, k) + BigInt::from(conc(input("p", 3)));
    let p = if neg { -&p } else { p };
    let t = show(&rat(p.clone(), q.clone()), &a);
    verify(&t, &p, &q, radix);
}
