//! C01: no line crashes the calculator. A panic anywhere is a violation by itself.
use super::db::*;
use super::edit::*;
use super::ses::*;
use super::sym::*;
use super::term::*;
use super::util::*;
use crate::token::{BinaryOperatorToken::*, FunctionNameToken, Token, UnaryOperatorToken};
use crossterm::event::{Event, KeyCode, KeyModifiers};
use num::{BigInt, BigRational, One, Signed, Zero};

fn ended(o: &Out) {
    match o {
        Out::Ok(_) => reach("result"),
        Out::Input(..) => reach("error"),
        Out::Runtime(_) => reach("runtime error"),
    }
}
fn chars(n: usize) {
    let mut a = args();
    a.precision = pick("precision", 0, 1) as u8 * 2;
    a.extra_precision = 0;
    a.radix = if pick("hex", 0, 1) == 1 { 16 } else { 10 };
    a.fractional = boolean("fractional");
    a.commas = boolean("commas");
    a.upper = boolean("upper");
    let s = ascii("c", n);
    let o = if boolean("interactive") { Ses::new(a).line(&s) } else { batch(&s, &mut a) };
    ended(&o)
}
/// Every ASCII line of at most 3 characters.
#[no_mangle]
pub extern "C" fn h_c01_chars3() {
    let n = pick("n", 0, 3);
    chars(n as usize)
}
/// Powers are left to `powers`: the size of their results is not bounded.
#[no_mangle]
pub extern "C" fn h_c01_chars4() {
    let mut a = args();
    a.precision = 1;
    a.extra_precision = 0;
    a.fractional = boolean("fractional");
    let s = ascii("c", 4);
    for c in s.bytes() {
        assume(c != b'^');
    }
    ended(&batch(&s, &mut a))
}
fn classes(n: usize, set: &[u8]) {
    let mut a = args();
    a.precision = 1;
    a.extra_precision = 0;
    a.fractional = boolean("fractional");
    let mut s = String::new();
    for _ in 0..n {
        let c = u8s("c");
        let mut ok = false;
        for x in set {
            ok |= c == *x;
        }
        assume(ok);
        s.push(c as char);
    }
    ended(&batch(&s, &mut a))
}
#[no_mangle]
pub extern "C" fn h_c01_chars5() {
    classes(5, b"019.+-*/%()$_a ,")
}
#[no_mangle]
pub extern "C" fn h_c01_chars6() {
    classes(6, b"09.-+(),")
}
#[no_mangle]
pub extern "C" fn h_c01_chars7() {
    classes(7, b"9.-/()")
}
/// Any characters, ASCII or not
#[no_mangle]
pub extern "C" fn h_c01_unicode() {
    let mut a = args();
    let shape = pick("shape", 0, 4);
    let c = range("c", 0, 0x10ffff) as u32;
    assume(c < 0xd800 || c > 0xdfff);
    let c = unsafe { char::from_u32_unchecked(c) };
    let s = match shape {
        0 => format!("{}", c),
        1 => format!("1{}", c),
        2 => format!("${}=1", c),
        3 => format!("/upper {}", c),
        _ => format!("/{}", c),
    };
    ended(&if boolean("interactive") { Ses::new(a).line(&s) } else { batch(&s, &mut a) })
}
/// Numbers in every setting
#[no_mangle]
pub extern "C" fn h_c01_settings() {
    let e = [
        "1/11", "-1/111", "101", "0", "0.1", "-0.0001", "sqrt(10)", "-101%11", "10^-11", "1,000,000", "1111111111111111.1", "(-1)^(1/11)",
    ];
    let e = e[pick("line", 0, e.len() as u64 - 1) as usize];
    let mut a = args();
    a.radix = [2, 3, 10, 15, 16][pick("radix", 0, 4) as usize];
    let c = [0, 2, 3, 10, 15, 16][pick("to", 0, 5) as usize];
    a.convert_to_radix = if c == 0 { None } else { Some(c) };
    a.precision = [0, 1, 2, 254, 255][pick("precision", 0, 4) as usize];
    a.extra_precision = [0, 1, 255][pick("extra", 0, 2) as usize];
    if e.starts_with("sqrt") {
        // roots are slow
        assume(a.precision < 254 || (a.radix == 10 && a.extra_precision != 0));
    }
    a.fractional = boolean("fractional");
    a.commas = boolean("commas");
    a.upper = boolean("upper");
    ended(&batch(e, &mut a))
}
fn operand(name: &str) -> BigRational {
    let n = wide(name, 64, pick("negative", 0, 1) == 1);
    if pick("whole", 0, 1) == 1 {
        return BigRational::from_integer(n);
    }
    let d = wide("denominator", 32, false);
    assume(d >= BigInt::one());
    // every rational is such a fraction
    if n.is_zero() {
        return BigRational::zero();
    }
    coprime(&n, &d);
    rat(n, d)
}
/// The operators on any operands
#[no_mangle]
pub extern "C" fn h_c01_operators() {
    let (x, y) = (operand("a"), operand("b"));
    let op = pick("op", 0, 3);
    let op = [Add, Subtract, Multiply, Divide][op as usize];
    let mut t = vec![];
    if boolean("minus") {
        t.push(Token::UnaryOperator(UnaryOperatorToken::Negate));
    }
    t.push(Token::Number(x));
    t.push(Token::BinaryOperator(op));
    t.push(Token::Number(y));
    match eval_tokens(t, &args()) {
        Ok(_) => reach("result"),
        Err(_) => reach("error"),
    }
}
/// The modulus of any integers
#[no_mangle]
pub extern "C" fn h_c01_modulus() {
    let x = BigRational::from_integer(wide("a", 64, pick("negative", 0, 1) == 1));
    let y = BigRational::from_integer(BigInt::from(pick("b", 0, 32)) - BigInt::from(16));
    match eval_tokens(vec![Token::Number(x), Token::BinaryOperator(Modulus), Token::Number(y)], &args()) {
        Ok(_) => reach("result"),
        Err(_) => reach("error"),
    }
}
/// Powers and roots
#[no_mangle]
pub extern "C" fn h_c01_powers() {
    let b = ["0", "1", "(-1)", "2", "(-8)", "(1/2)", "(-1/27)", "0.1", "(-0.3)", "99", "1000000000000000000000000"];
    let e = ["0", "1", "-1", "2", "-3", "9", "(1/2)", "(-1/2)", "(1/3)", "(2/3)", "(-2/3)", "(3/2)", "0.5", "-0.25", "1.5"];
    let huge = ["100000000000000000000000000", "-100000000000000000000000000", "(1/100000000000000000000)", "(-1/99999999999999999999)", "(2/99999999999999999999)"];
    let l = if boolean("huge") {
        // no power of these is large
        format!("{}^{}", b[pick("base", 0, 2) as usize], huge[pick("exponent", 0, huge.len() as u64 - 1) as usize])
    } else {
        format!("{}^{}", b[pick("base", 0, b.len() as u64 - 1) as usize], e[pick("exponent", 0, e.len() as u64 - 1) as usize])
    };
    let mut a = args();
    a.precision = [0, 5][pick("precision", 0, 1) as usize];
    a.extra_precision = [0, 10][pick("extra", 0, 1) as usize];
    a.fractional = boolean("fractional");
    ended(&batch(&l, &mut a))
}
/// The square root of any number with up to 4 digits
#[no_mangle]
pub extern "C" fn h_c01_power_digits() {
    let mut s = String::new();
    let c = u8s("base");
    assume(c >= b'0' && c <= b'9');
    s.push(c as char);
    if boolean("point") {
        s.push('.');
        let c = u8s("base");
        assume(c >= b'0' && c <= b'9');
        s.push(c as char);
    }
    s.push('^');
    if boolean("minus") {
        s.push('-');
    }
    s.push((b'0' + pick("exponent", 0, 9) as u8) as char);
    let mut a = args();
    a.precision = 2;
    ended(&batch(&s, &mut a))
}
const COMMANDS: [&str; 20] = [
    "/h", "/help", "/?", "/c", "/commas", "/convert", "/converttoradix", "/f", "/frac", "/fractional", "/histcap", "/p", "/precision", "/purgevar",
    "/r", "/radix", "/reloadvar", "/u", "/upper", "/nothing",
];
/// Every command with anything after it
#[no_mangle]
pub extern "C" fn h_c01_commands() {
    let c = COMMANDS[pick("command", 0, COMMANDS.len() as u64 - 1) as usize];
    let n = pick("n", 0, 2) as usize;
    let l = format!("{} {}", c, ascii("c", n));
    let mut a = args();
    a.commas = boolean("commas");
    if boolean("interactive") {
        let mut s = Ses::new(a);
        let _ = s.line("$a=1");
        ended(&s.line(&l));
        // and what comes after it
        s.args.radix = conc(s.args.radix as u64) as u8;
        ended(&s.line("-1/3+$a"));
    } else {
        ended(&batch(&l, &mut a))
    }
}
/// The same with saved data
#[no_mangle]
pub extern "C" fn h_c01_commands_db() {
    data_dir();
    let c = ["/histcap", "/purgevar", "/reloadvar", "/precision"][pick("command", 0, 3) as usize];
    let n = pick("n", 0, 2) as usize;
    let arg = bytes("c", n, 0, 127);
    let l = format!("{} {}", c, super::c10::text(&arg));
    let mut s = session();
    ended(&s.submit("$a=1"));
    ended(&s.submit(&l));
    ended(&s.submit("-1/3+$a"));
    let _ = recall(&mut s);
    end(s);
    let mut s = session();
    ended(&s.submit("$a"));
    let _ = recall(&mut s);
    end(s);
}
/// Numbers of any size as arguments
#[no_mangle]
pub extern "C" fn h_c01_huge() {
    let n = [1usize, 3, 9, 10, 19, 20, 39, 60][pick("digits", 0, 7) as usize];
    let mut d = String::new();
    if boolean("minus") {
        d.push('-');
    }
    for i in 0..n {
        if i < 2 {
            let c = u8s("digit");
            assume(c >= b'0' && c <= b'9');
            d.push(c as char);
        } else {
            d.push(if i % 7 == 3 { '0' } else { '9' });
        }
    }
    let mut s = Ses::new(args());
    let l = match pick("line", 0, 9) {
        0 => format!("/radix {}", d),
        1 => format!("/converttoradix {}", d),
        2 => format!("/precision {}", d),
        3 => format!("/precision 1 {}", d),
        4 => format!("/histcap {}", d),
        5 => format!("/radix 2 {}", d),
        6 => format!("0^{}", d),
        7 => format!("(-1)^{}", d),
        8 => format!("1%{}", d),
        _ => format!("1/{}", d),
    };
    ended(&s.line(&l));
    s.args.radix = conc(s.args.radix as u64) as u8;
    ended(&s.line("-1/11+1"));
}
/// Lines and variables one after the other
#[no_mangle]
pub extern "C" fn h_c01_session() {
    let mut s = Ses::new(args());
    let lines = [
        "$a", "$a=1/3", "$a=-$a", "$b=$a", "$a=1/0", "$=1", "/purgevar $a", "/reloadvar $a", "/radix 2", "/radix 36", "/precision 0 0", "/precision 255",
        "/converttoradix 3", "/converttoradix none", "/fractional t", "/commas t", "sqrt($a)", "/histcap 0", "/histcap", "",
    ];
    for _ in 0..3 {
        ended(&s.line(lines[pick("line", 0, lines.len() as u64 - 1) as usize]));
    }
    ended(&s.line("-1/11-$a*$a"));
}
fn letter() -> u8 {
    let c = u8s("line");
    assume(c >= b'g' && c <= b'z');
    c
}
fn interactive(a: crate::Args, cols: u16, row: u16, ev: Vec<Event>) {
    match drive(a, ev, cols, row, super::edit::nothing, false) {
        End::Quit => reach("quit"),
        End::Script => reach("went on"),
        End::Narrow => reach("narrow"),
        End::Other => check(false, "no key ends the program with an error"),
    }
}
/// Keys, window sizes and resizes
#[no_mangle]
pub extern "C" fn h_c01_keys() {
    let mut a = args();
    a.alternate_screen = boolean("alternate");
    let cols = [0u16, 1, 2, 3, 4, 5, 6, 7, 9, 16, 80][pick("cols", 0, 10) as usize];
    let n = [0usize, 1, 4, 18][pick("before", 0, 3) as usize];
    let mut ev: Vec<Event> = (0..n).map(|_| ch(letter())).collect();
    for _ in 0..2 {
        ev.push(some_key(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 19, 20]));
    }
    interactive(a, cols, 2, ev)
}
/// The widest windows
#[no_mangle]
pub extern "C" fn h_c01_wide() {
    let mut a = args();
    a.alternate_screen = boolean("alternate");
    let cols = [255u16, 256, 32767, 32768, 65534, 65535][pick("cols", 0, 5) as usize];
    let mut ev = vec![];
    for _ in 0..2 {
        ev.push(some_key(&[18, 1, 7, 9, 14, 19]));
    }
    interactive(a, cols, 2, ev)
}
/// Submitted lines, at any width
#[no_mangle]
pub extern "C" fn h_c01_submitted() {
    let mut a = args();
    a.alternate_screen = boolean("alternate");
    let cols = [5u16, 6, 9, 80][pick("cols", 0, 3) as usize];
    let n = pick("before", 0, 2);
    let mut ev: Vec<Event> = (0..n).map(|_| ch(printable("line"))).collect();
    ev.push(code(KeyCode::Enter));
    ev.push(code(KeyCode::Up));
    ev.push(some_key(&[0, 1, 7, 8, 9]));
    ev.push(code(KeyCode::Enter));
    interactive(a, cols, 0, ev)
}
/// Long and deeply nested lines
#[no_mangle]
pub extern "C" fn h_c01_deep() {
    let n = [1usize, 50, 300][pick("n", 0, 2) as usize];
    let (open, middle, close) = [
        ("(", "1", ")"), ("-", "1", ""), ("(", "", ")"), ("(", "1", ""), ("", "1", ")"), ("sqrt(", "1", ")"), ("1+", "1", ""), ("1^", "1", ""), ("-(", "1", ")"),
        ("1", "", ""), ("$a=", "1", ""), ("$", "a", ""), ("a", "", ""), (",1", "1", ""), ("1.", "1", ""), (" ", "1", " "),
    ][pick("kind", 0, 15) as usize];
    let c = ascii("c", 1);
    let l = format!("{}{}{}{}", open.repeat(n), middle, close.repeat(n), c);
    let mut a = args();
    a.commas = boolean("commas");
    ended(&if boolean("interactive") { Ses::new(a).line(&l) } else { batch(&l, &mut a) })
}
