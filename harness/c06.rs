//! C06: digit grouping and case only change presentation.
use super::c05::show;
use super::sym::*;
use super::util::*;
use num::BigInt;

fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' {
        b + 32
    } else {
        b
    }
}
/// One number (optional sign, digits, optional fraction) of `plain`, from `i` to `end`, is what `styled` shows from `j`.
/// Returns the place after it in `styled`.
fn number(plain: &[u8], mut i: usize, end: usize, styled: &[u8], mut j: usize, commas: bool, upper: bool) -> usize {
    let mut whole = 0;
    let mut k = i;
    if k < end && plain[k] == b'-' {
        k += 1;
    }
    while k < end && plain[k] != b'.' {
        whole += 1;
        k += 1;
    }
    let mut left = whole; // integer digits still to come
    let mut first = true;
    while i < end {
        let c = plain[i];
        if c == b'-' {
            check(j < styled.len() && styled[j] == b'-', "the sign is kept");
            i += 1;
            j += 1;
            continue;
        }
        if commas && left > 0 && left % 3 == 0 && !first {
            check(j < styled.len() && styled[j] == b',', "a comma between every three integer digits");
            j += 1;
        }
        check(j < styled.len(), "nothing is left out");
        if j >= styled.len() {
            return j;
        }
        let s = styled[j];
        check(c != b',' && !(c >= b'A' && c <= b'Z'), "no commas and no upper case by default");
        check(lower(s) == c, "only the case of a digit changes");
        if upper {
            check(!(s >= b'a' && s <= b'z'), "all digits are upper case");
        } else {
            check(!(s >= b'A' && s <= b'Z'), "all digits are lower case");
        }
        if left > 0 {
            left -= 1;
        }
        first = false;
        i += 1;
        j += 1;
    }
    j
}
fn run(bits: u32, radices: &[u8], dens: &[u64], maxprec: u64) {
    let radix = radices[pick("radix", 0, radices.len() as u64 - 1) as usize];
    let q = dens[pick("denominator", 0, dens.len() as u64 - 1) as usize];
    let style = pick("style", 1, 3);
    let fractional = pick("fractional", 0, 1) == 1;
    let neg = pick("negative", 0, 1) == 1;
    let p = BigInt::from(input("p", bits));
    styles(p, q, neg, style, fractional, radix, maxprec)
}
fn styles(p: BigInt, q: u64, neg: bool, style: u64, fractional: bool, radix: u8, maxprec: u64) {
    let mut a = args();
    // 5 when it must not matter
    a.precision = if fractional { 5 } else { pick("precision", 0, maxprec) as u8 };
    a.fractional = fractional;
    if pick("override", 0, 1) == 1 {
        a.convert_to_radix = Some(radix);
    } else {
        a.radix = radix;
    }
    let v = rat(if neg { -&p } else { p }, BigInt::from(q));
    let plain = show(&v, &a);
    a.commas = style & 1 != 0;
    a.upper = style & 2 != 0;
    let styled = show(&v, &a);
    let (pb, sb) = (plain.as_bytes(), styled.as_bytes());
    let mut slash = pb.len();
    for i in 0..pb.len() {
        if pb[i] == b'/' {
            slash = i;
        }
    }
    let mut j = number(pb, 0, slash, sb, 0, a.commas, a.upper);
    if slash < pb.len() {
        check(fractional, "a fraction only when asked for");
        check(j < sb.len() && sb[j] == b'/', "the fraction bar is kept");
        j = number(pb, slash + 1, pb.len(), sb, j + 1, a.commas, a.upper);
        reach("fraction");
    } else {
        reach("number");
    }
    check(j == sb.len(), "nothing is added");
}
#[no_mangle]
pub extern "C" fn h_c06_dec() {
    run(40, &[10], &[1, 7, 1000], 4)
}
#[no_mangle]
pub extern "C" fn h_c06_hex() {
    run(20, &[16, 11], &[1, 3, 0xabcdef], 2)
}
#[no_mangle]
pub extern "C" fn h_c06_bin() {
    run(12, &[2, 3], &[1, 1024], 4)
}
/// Numbers of many digits.
#[no_mangle]
pub extern "C" fn h_c06_long() {
    let radix = [10u8, 16, 2][pick("radix", 0, 2) as usize];
    let k = [14u64, 15, 16, 19, 20, 21, 33, 64, 65, 128, 300][pick("digits", 0, 10) as usize];
    let mut p = BigInt::from(1);
    for _ in 0..k {
        p = p * BigInt::from(radix);
    }
    let q = [1u64, 7][pick("denominator", 0, 1) as usize];
    let p = p - BigInt::from(4) + BigInt::from(conc(input("p", 3)));
    let neg = pick("negative", 0, 1) == 1;
    styles(p, q, neg, pick("style", 1, 3), pick("fractional", 0, 1) == 1, radix, 0)
}
