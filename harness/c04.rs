//! C04: exact arithmetic.
use super::sym::*;
use super::util::*;
use crate::token::{BinaryOperatorToken::*, FunctionNameToken, Token, UnaryOperatorToken};
use num::{BigInt, BigRational, One, Signed, Zero};

struct Q {
    n: BigInt,
    d: BigInt,
}
impl Q {
    fn rat(&self) -> BigRational {
        rat(self.n.clone(), self.d.clone())
    }
}
/// Any rational ±n/d with n and d of `bits` bits (d = 1 if `whole`).
fn operand(name: &str, bits: u32, whole: bool) -> Q {
    let neg = pick("negative", 0, 1) == 1;
    let n = wide(name, bits, neg);
    let d = if whole {
        BigInt::one()
    } else {
        let d = wide("denominator", bits, false);
        assume(d >= BigInt::one());
        // every rational is such a fraction
        if n.is_zero() {
            BigInt::one()
        } else {
            coprime(&n, &d);
            d
        }
    };
    Q { n, d }
}
/// The value is n/d.
fn is(v: &BigRational, n: BigInt, d: BigInt) -> bool {
    *v == rat(n, d)
}
fn binary(bits: u32) {
    let op = pick("op", 0, 3);
    let a = operand("a", bits, pick("whole a", 0, 1) == 1);
    let b = operand("b", bits, pick("whole b", 0, 1) == 1);
    let mut ar = args();
    pick_settings(&mut ar);
    let t = [Add, Subtract, Multiply, Divide][op as usize];
    match eval_tokens(vec![Token::Number(a.rat()), Token::BinaryOperator(t), Token::Number(b.rat())], &ar) {
        Ok(v) => {
            reach("value");
            let (n, d) = match op {
                0 => (&a.n * &b.d + &b.n * &a.d, &a.d * &b.d),
                1 => (&a.n * &b.d - &b.n * &a.d, &a.d * &b.d),
                2 => (&a.n * &b.n, &a.d * &b.d),
                _ => {
                    check(!b.n.is_zero(), "a division by zero has a value");
                    (&a.n * &b.d, &a.d * &b.n)
                }
            };
            check(is(&v, n, d), "the result is exact");
        }
        Err(Out::Input(m, _)) => {
            reach("error");
            check(op == 3 && b.n.is_zero() && m == "Cannot divide by 0", "an operation fails although it has a result");
        }
        Err(_) => check(false, "an operation fails although it has a result"),
    }
}
/// + - * / on all rationals with 128-bit numerators and denominators.
#[no_mangle]
pub extern "C" fn h_c04_binary() {
    binary(128)
}
/// (a op b) op c on all rationals with 64-bit numerators and denominators.
#[no_mangle]
pub extern "C" fn h_c04_chain() {
    let ops = [Add, Subtract, Multiply, Divide];
    let o1 = pick("op1", 0, 3) as usize;
    let o2 = pick("op2", 0, 3) as usize;
    let a = operand("a", 64, false);
    let b = operand("b", 64, false);
    let c = operand("c", 64, false);
    let ar = args();
    let step = |x: &Q, o: usize, y: &Q| -> Option<Q> {
        Some(match o {
            0 => Q { n: &x.n * &y.d + &y.n * &x.d, d: &x.d * &y.d },
            1 => Q { n: &x.n * &y.d - &y.n * &x.d, d: &x.d * &y.d },
            2 => Q { n: &x.n * &y.n, d: &x.d * &y.d },
            _ => {
                if y.n.is_zero() {
                    return None;
                }
                Q { n: &x.n * &y.d, d: &x.d * &y.n }
            }
        })
    };
    let want = step(&a, o1, &b).and_then(|x| step(&x, o2, &c));
    let got = eval_tokens(
        vec![
            Token::OpenParen,
            Token::Number(a.rat()),
            Token::BinaryOperator(ops[o1]),
            Token::Number(b.rat()),
            Token::CloseParen,
            Token::BinaryOperator(ops[o2]),
            Token::Number(c.rat()),
        ],
        &ar,
    );
    match (got, want) {
        (Ok(v), Some(w)) => {
            reach("value");
            check(is(&v, w.n, w.d), "the result is exact");
        }
        (Err(_), None) => reach("error"),
        (Ok(_), None) => check(false, "a division by zero has a value"),
        (Err(_), Some(_)) => check(false, "an operation fails although it has a result"),
    }
}
/// Modulus: the result r has a = q*b + r with q an integer, |r| < |b| and the sign of a.
fn modulus(bits: u32, small: u64) {
    let a = operand("a", bits, true);
    let neg = pick("negative", 0, 1) == 1;
    let bn = BigInt::from(range("b", 0, small));
    let b = Q { n: if neg { -bn } else { bn }, d: BigInt::from(pick("bd", 1, 3)) };
    let ad = pick("ad", 1, 4);
    let a = Q { n: a.n, d: BigInt::from(ad) };
    let mut ar = args();
    pick_settings(&mut ar);
    match eval_tokens(vec![Token::Number(a.rat()), Token::BinaryOperator(Modulus), Token::Number(b.rat())], &ar) {
        Ok(v) => {
            reach("value");
            check(!b.n.is_zero(), "a modulus by zero has a value");
            let y = &b.n * &a.d;
            let x = &a.n * &b.d;
            let r = &x % &y;
            check(is(&v, r, &a.d * &b.d), "the modulus is exact");
            check(v.is_zero() || (v.is_negative() == a.n.is_negative()), "the modulus has the sign of the dividend");
            check(v.abs() < b.rat().abs(), "the modulus is smaller than the divisor");
        }
        Err(Out::Input(m, _)) => {
            reach("error");
            check(b.n.is_zero() && m == "Cannot divide by 0", "a modulus fails although it has a result");
        }
        Err(_) => check(false, "a modulus fails although it has a result"),
    }
}
/// a % b for a = n/d, n of 128 bits, d up to 4, b = m/e with m up to 40, e up to 3.
#[no_mangle]
pub extern "C" fn h_c04_modulus() {
    modulus(128, 40)
}
/// Integer powers of all rationals with 64-bit numerators and denominators, exponents -9..9.
fn power(bits: u32, top: u64) {
    let a = operand("a", bits, pick("whole", 0, 1) == 1);
    let e = pick("e", 0, top);
    let eneg = pick("e negative", 0, 1) == 1;
    let mut ar = args();
    pick_settings(&mut ar);
    let mut n = BigInt::one();
    let mut d = BigInt::one();
    for _ in 0..e {
        n = n * &a.n;
        d = d * &a.d;
    }
    let x = BigInt::from(e);
    let x = BigRational::from(if eneg { -x } else { x });
    match eval_tokens(vec![Token::Number(a.rat()), Token::BinaryOperator(Exponent), Token::Number(x)], &ar) {
        Ok(v) => {
            reach("value");
            if eneg {
                check(e == 0 || !a.n.is_zero(), "a division by zero has a value");
                check(is(&v, d, n), "the power is exact");
            } else {
                check(is(&v, n, d), "the power is exact");
            }
        }
        Err(Out::Input(m, _)) => {
            reach("error");
            check(eneg && e > 0 && a.n.is_zero() && m == "Cannot divide by 0", "a power fails although it has a result");
        }
        Err(_) => check(false, "a power fails although it has a result"),
    }
}
#[no_mangle]
pub extern "C" fn h_c04_power() {
    power(64, 9)
}
/// max and min of up to three rationals, abs and unary minus of one.
#[no_mangle]
pub extern "C" fn h_c04_select() {
    let f = pick("function", 0, 3);
    let k = pick("count", 1, if f < 2 { 3 } else { 1 }) as usize;
    let mut t = vec![match f {
        0 => Token::Function(FunctionNameToken::Max),
        1 => Token::Function(FunctionNameToken::Min),
        2 => Token::UnaryOperator(UnaryOperatorToken::AbsoluteValue),
        _ => Token::BinaryOperator(Subtract),
    }];
    t.push(Token::OpenParen);
    let mut q = Vec::new();
    for i in 0..k {
        if i > 0 {
            t.push(Token::Comma);
        }
        let a = operand("a", 64, true);
        let a = Q { n: a.n, d: if i == 1 { BigInt::from(7) } else { BigInt::one() } };
        t.push(Token::Number(a.rat()));
        q.push(a);
    }
    t.push(Token::CloseParen);
    let mut ar = args();
    pick_settings(&mut ar);
    match eval_tokens(t, &ar) {
        Ok(v) => {
            reach("value");
            match f {
                0 | 1 => {
                    let mut one = false;
                    for x in &q {
                        let x = x.rat();
                        check(if f == 0 { v >= x } else { v <= x }, "max and min bound every argument");
                        one |= v == x;
                    }
                    check(one, "max and min are one of the arguments");
                }
                2 => check(v == (if q[0].n.is_negative() { rat(-&q[0].n, q[0].d.clone()) } else { q[0].rat() }), "abs is exact"),
                _ => check(is(&v, -&q[0].n, q[0].d.clone()), "unary minus is exact"),
            }
        }
        Err(_) => check(false, "an operation fails although it has a result"),
    }
}
/// The same through the text of a line: D.D op D.D with all digits.
#[no_mangle]
pub extern "C" fn h_c04_lines() {
    let mut s = String::new();
    if pick("negative", 0, 1) == 1 {
        s.push('-');
    }
    let mut a = digits(&mut s, "a", 5, 10);
    if s.starts_with('-') {
        a = -a;
    }
    s.push('.');
    let a = a * BigInt::from(100) + { let f = digits(&mut s, "f", 2, 10); if s.starts_with('-') { -f } else { f } };
    let op = pick("op", 0, 3);
    s.push(b"+-*/"[op as usize] as char);
    let b = digits(&mut s, "b", 4, 10);
    let mut ar = args();
    pick_settings(&mut ar);
    match value(&s, &ar) {
        Ok(v) => {
            reach("value");
            let h = BigInt::from(100);
            let (n, d) = match op {
                0 => (a + &b * &h, h),
                1 => (a - &b * &h, h),
                2 => (a * b, h),
                _ => {
                    check(!b.is_zero(), "a division by zero has a value");
                    (a, h * b)
                }
            };
            check(is(&v, n, d), "the result is exact");
        }
        Err(Out::Input(m, _)) => {
            reach("error");
            check(op == 3 && b.is_zero() && m == "Cannot divide by 0", "an operation fails although it has a result");
        }
        Err(_) => check(false, "an operation fails although it has a result"),
    }
}

/// Small operands, so that whatever the code does with them can be decided by their values.
fn small() -> Q {
    let n = BigInt::from(range("numerator", 0, 12));
    let neg = pick("negative", 0, 1) == 1;
    let d = [1u64, 3, 10][pick("denominator", 0, 2) as usize];
    Q { n: if neg { -n } else { n }, d: BigInt::from(d) }
}
#[no_mangle]
pub extern "C" fn h_c04_small() {
    let a = small();
    let b = small();
    let op = pick("op", 0, 4);
    let mut ar = args();
    pick_settings(&mut ar);
    let t = [Add, Subtract, Multiply, Divide, Modulus][op as usize];
    match eval_tokens(vec![Token::Number(a.rat()), Token::BinaryOperator(t), Token::Number(b.rat())], &ar) {
        Ok(v) => {
            reach("value");
            check(op < 3 || !b.n.is_zero(), "a division by zero has a value");
            let (n, d) = match op {
                0 => (&a.n * &b.d + &b.n * &a.d, &a.d * &b.d),
                1 => (&a.n * &b.d - &b.n * &a.d, &a.d * &b.d),
                2 => (&a.n * &b.n, &a.d * &b.d),
                3 => (&a.n * &b.d, &a.d * &b.n),
                _ => {
                    let (x, y) = (&a.n * &b.d, (&b.n * &a.d).abs());
                    let r = x.abs() % &y;
                    (if x.is_negative() { -r } else { r }, &a.d * &b.d)
                }
            };
            check(is(&v, n, d), "the result is exact");
        }
        Err(Out::Input(m, _)) => {
            reach("error");
            check(op >= 3 && b.n.is_zero() && m == "Cannot divide by 0", "an operation fails although it has a result");
        }
        Err(_) => check(false, "an operation fails although it has a result"),
    }
}
#[no_mangle]
pub extern "C" fn h_c04_small_power() {
    let a = small();
    let e = pick("e", 0, 5);
    let eneg = pick("e negative", 0, 1) == 1;
    let mut ar = args();
    pick_settings(&mut ar);
    let mut n = BigInt::one();
    let mut d = BigInt::one();
    for _ in 0..e {
        n = n * &a.n;
        d = d * &a.d;
    }
    let x = BigInt::from(e);
    let x = BigRational::from(if eneg { -x } else { x });
    match eval_tokens(vec![Token::Number(a.rat()), Token::BinaryOperator(Exponent), Token::Number(x)], &ar) {
        Ok(v) => {
            reach("value");
            check(!eneg || e == 0 || !a.n.is_zero(), "a division by zero has a value");
            check(if eneg { is(&v, d, n) } else { is(&v, n, d) }, "the power is exact");
        }
        Err(Out::Input(m, _)) => {
            reach("error");
            check(eneg && e > 0 && a.n.is_zero() && m == "Cannot divide by 0", "a power fails although it has a result");
        }
        Err(_) => check(false, "a power fails although it has a result"),
    }
}
#[no_mangle]
pub extern "C" fn h_c04_small_select() {
    let f = pick("function", 0, 2);
    let (a, b, c) = (small(), small(), if f < 2 { small() } else { Q { n: BigInt::one(), d: BigInt::one() } });
    let mut ar = args();
    pick_settings(&mut ar);
    let v = if f < 2 {
        let name = if f == 0 { FunctionNameToken::Max } else { FunctionNameToken::Min };
        let (x, y, z) = (a.rat(), b.rat(), c.rat());
        eval_tokens(
            vec![Token::Function(name), Token::OpenParen, Token::Number(x), Token::Comma, Token::Number(y), Token::Comma, Token::Number(z), Token::CloseParen],
            &ar,
        )
    } else {
        eval_tokens(
            vec![
                Token::UnaryOperator(UnaryOperatorToken::AbsoluteValue),
                Token::OpenParen,
                Token::Number(a.rat()),
                Token::BinaryOperator(Subtract),
                Token::Number(b.rat()),
                Token::CloseParen,
            ],
            &ar,
        )
    };
    match v {
        Ok(v) => {
            reach("value");
            if f == 2 {
                let n = &a.n * &b.d - &b.n * &a.d;
                let d = &a.d * &b.d;
                check(is(&v, if n.is_negative() { -n } else { n }, d), "abs is exact");
                return;
            }
            let mut best = &a;
            for x in [&b, &c] {
                let (l, r) = (&x.n * &best.d, &best.n * &x.d);
                if if f == 0 { l > r } else { l < r } {
                    best = x;
                }
            }
            check(is(&v, best.n.clone(), best.d.clone()), "max and min are the right argument");
        }
        Err(_) => check(false, "an operation fails although it has a result"),
    }
}
/// Larger integer powers of small numbers.
#[no_mangle]
pub extern "C" fn h_c04_power_large() {
    let neg = pick("negative", 0, 1) == 1;
    let m = BigInt::from(pick("n", 0, 3));
    let n = if neg { -&m } else { m };
    let d = BigInt::from([1u32, 2, 10][pick("d", 0, 2) as usize]);
    let e = [10u64, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300][pick("e", 0, 18) as usize];
    let eneg = pick("e negative", 0, 1) == 1;
    let mut ar = args();
    pick_settings(&mut ar);
    let (mut p, mut q) = (BigInt::one(), BigInt::one());
    for _ in 0..e {
        p = p * &n;
        q = q * &d;
    }
    let x = BigInt::from(e);
    let x = BigRational::from(if eneg { -x } else { x });
    match eval_tokens(vec![Token::Number(rat(n.clone(), d)), Token::BinaryOperator(Exponent), Token::Number(x)], &ar) {
        Ok(v) => {
            reach("value");
            check(!eneg || !n.is_zero(), "a division by zero has a value");
            check(if eneg { is(&v, q, p) } else { is(&v, p, q) }, "the power is exact");
        }
        Err(Out::Input(m, _)) => {
            reach("error");
            check(eneg && n.is_zero() && m == "Cannot divide by 0", "a power fails although it has a result");
        }
        Err(_) => check(false, "a power fails although it has a result"),
    }
}
