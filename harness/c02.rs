//! C02: numeric literals.
use super::sym::*;
use super::util::*;
use crate::token::{ParsedInput, Token, Tokenizer};
use num::{BigInt, BigRational, Zero};

fn special(b: u8) -> bool {
    matches!(b, b'+' | b'-' | b'*' | b'/' | b'%' | b'^' | b'(' | b')' | b'=' | b',')
        || b == b' ' || (b >= 9 && b <= 13)
}
/// The value a word spells in a radix, by definition; `None` if it is not a literal.
fn spell(w: &[u8], radix: u8) -> Option<BigRational> {
    let mut num = BigInt::zero();
    let mut den = BigInt::from(1);
    let mut digits = 0;
    let mut point = false;
    for &b in w {
        if b == b'_' {
            continue;
        }
        if b == b'.' {
            if point {
                return None;
            }
            point = true;
            continue;
        }
        let d = if b >= b'0' && b <= b'9' {
            b - b'0'
        } else if b >= b'a' && b <= b'z' {
            b - b'a' + 10
        } else if b >= b'A' && b <= b'Z' {
            b - b'A' + 10
        } else {
            return None;
        };
        if d >= radix {
            return None;
        }
        num = num * BigInt::from(radix) + BigInt::from(d);
        if point {
            den = den * BigInt::from(radix);
        }
        digits += 1;
    }
    if digits == 0 {
        return None;
    }
    Some(BigRational::new(num, den))
}
fn compare(w: &str, radix: u8) {
    let want = spell(w.as_bytes(), radix);
    let tk = Tokenizer::new();
    match tk.tokenize(w, radix) {
        Ok(ParsedInput::Tokens(t)) => {
            check(t.len() == 1, "a word is one token");
            match (&t[0].value, want) {
                (Token::Number(v), Some(x)) => {
                    check(*v == x, "the literal's value is the number written");
                    reach("number");
                }
                (Token::Number(_), None) => check(false, "a word that is not a literal is read as a number"),
                _ => check(false, "a word is read as something else than a number"),
            }
        }
        Ok(ParsedInput::Command(_)) => check(false, "a word is read as a command"),
        Err(_) => {
            check(want.is_none(), "a literal is rejected");
            reach("rejected");
        }
    }
    // and the same through the whole calculator
    let mut a = args();
    a.radix = radix;
    match (value(w, &a), spell(w.as_bytes(), radix)) {
        (Ok(v), Some(x)) => check(v == x, "the evaluated literal is the number written"),
        (Ok(_), None) => check(false, "a word that is not a literal has a value"),
        (Err(_), Some(_)) => check(false, "a literal has no value"),
        (Err(_), None) => {}
    }
}
fn word(n: usize) {
    let radix = pick("radix", 2, 16) as u8;
    let w = ascii("c", n);
    let b = w.as_bytes();
    for &c in b {
        assume(!special(c));
    }
    assume(b[0] != b'$');
    if n == 3 {
        assume(w != "abs" && w != "max" && w != "min");
    }
    if n == 4 {
        assume(w != "sqrt");
    }
    compare(&w, radix);
}
#[no_mangle]
pub extern "C" fn h_c02_word3() {
    let n = pick("n", 1, 3);
    word(n as usize)
}
#[no_mangle]
pub extern "C" fn h_c02_word4() {
    word(4)
}
#[no_mangle]
pub extern "C" fn h_c02_word5() {
    word(5)
}
/// Long literals: `n` digits, a radix point and underscores at any place, all digits symbolic.
fn long(n: usize, radix: u8) {
    let point = pick("point", 0, n as u64 + 1) as usize;
    let under = pick("underscore", 0, n as u64 + 1) as usize;
    let mut w: Vec<u8> = Vec::new();
    for i in 0..n {
        if i == under {
            w.push(b'_');
        }
        if i == point {
            w.push(b'.');
        }
        let c = u8s("digit");
        if radix <= 10 {
            assume(c >= b'0' && c < b'0' + radix);
        } else {
            // one case class per position, so that the path count stays linear
            let k = (i + under) % 3;
            match k {
                0 => assume(c >= b'0' && c <= b'9'),
                1 => assume(c >= b'a' && c < b'a' + (radix - 10)),
                _ => assume(c >= b'A' && c < b'A' + (radix - 10)),
            }
        }
        w.push(c);
    }
    if point == n {
        w.push(b'.');
    }
    let w = unsafe { String::from_utf8_unchecked(w) };
    if w.as_bytes()[0] == b'.' && n == 1 {
        reach("point first");
    }
    compare(&w, radix);
}
#[no_mangle]
pub extern "C" fn h_c02_long10() {
    long(21, 10)
}
#[no_mangle]
pub extern "C" fn h_c02_long16() {
    long(18, 16)
}
#[no_mangle]
pub extern "C" fn h_c02_long2() {
    let radix = [2, 3, 8, 11, 15][pick("radix", 0, 4) as usize];
    long(9, radix)
}
/// Literals beyond any machine word: arbitrary digits at both ends, in the middle and around the point.
#[no_mangle]
pub extern "C" fn h_c02_longer() {
    let (radix, n) = [(10u8, 40usize), (10, 80), (16, 33), (16, 40), (2, 65), (2, 130), (7, 50)][pick("kind", 0, 6) as usize];
    // n + 1: none
    let point = [n + 1, 0, 1, n / 2, n - 1, n][pick("point", 0, 5) as usize];
    let under = [n + 1, 0, 5, n][pick("underscore", 0, 3) as usize];
    let fill = [b'0', b"0123456789abcdef"[radix as usize - 1], b'1'][pick("fill", 0, 2) as usize];
    let mut w: Vec<u8> = Vec::new();
    for i in 0..=n {
        if i == under {
            w.extend_from_slice(b"__");
        }
        if i == point {
            w.push(b'.');
        }
        if i == n {
            break;
        }
        if i == 0 || i == n / 2 || i == n - 1 {
            let c = u8s("digit");
            if radix == 16 && i > 0 {
                assume(c >= b'A' && c <= b'F');
            } else {
                assume(c >= b'0' && c < b'0' + radix.min(10));
            }
            w.push(c);
        } else {
            w.push(fill);
        }
    }
    let w = unsafe { String::from_utf8_unchecked(w) };
    compare(&w, radix);
}
