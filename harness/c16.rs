//! C16: settings commands set exactly what they say.
use super::ses::*;
use super::sym::*;
use super::util::*;
use crate::Args;
use clap::Parser;
use num::{BigInt, ToPrimitive, Zero};

#[derive(Clone, Copy, PartialEq)]
pub struct Set {
    pub radix: u8,
    pub conv: u8,
    pub precision: u8,
    pub extra: u8,
    pub fractional: bool,
    pub commas: bool,
    pub upper: bool,
}
pub fn get(a: &Args) -> Set {
    Set {
        radix: a.radix,
        conv: a.convert_to_radix.unwrap_or(0),
        precision: a.precision,
        extra: a.extra_precision,
        fractional: a.fractional,
        commas: a.commas,
        upper: a.upper,
    }
}
fn put(s: Set) -> Args {
    let mut a = args();
    a.radix = s.radix;
    a.convert_to_radix = if s.conv == 0 { None } else { Some(s.conv) };
    a.precision = s.precision;
    a.extra_precision = s.extra;
    a.fractional = s.fractional;
    a.commas = s.commas;
    a.upper = s.upper;
    a
}
/// Any settings the commands allow.
fn any() -> Set {
    let conv = u8s("conv");
    assume(conv == 0 || conv >= 2 && conv <= 16);
    let precision = u8s("precision");
    let extra = u8s("extra");
    assume(precision as u32 + extra as u32 <= 255);
    Set {
        radix: range("radix", 2, 16) as u8,
        conv,
        precision,
        extra,
        fractional: boolean("fractional"),
        commas: boolean("commas"),
        upper: boolean("upper"),
    }
}
fn same(a: &Set, b: &Set) -> bool {
    // one term, no forks
    (a.radix == b.radix)
        & (a.conv == b.conv)
        & (a.precision == b.precision)
        & (a.extra == b.extra)
        & (a.fractional == b.fractional)
        & (a.commas == b.commas)
        & (a.upper == b.upper)
}
fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 12
}
/// Runs one command line: the reply, and the settings afterwards.
fn go(line: &str, s: Set) -> (Out, Set) {
    let mut ses = Ses::new(put(s));
    let o = if boolean("batch") { batch(line, &mut ses.args) } else { ses.line(line) };
    let t = get(&ses.args);
    check(t.radix >= 2 && t.radix <= 16 && (t.conv == 0 || t.conv >= 2 && t.conv <= 16), "a radix is 2 to 16");
    check(t.precision as u32 + t.extra as u32 <= 255, "precision plus extra precision fits 8 bits");
    (o, t)
}
fn report(o: &Out, t: &Set, s: &Set, want: &str) {
    reach("report");
    check(same(t, s), "asking for a setting changes nothing");
    check(matches!(o, Out::Ok(x) if x == want), "the current value is reported");
}
fn refuse(o: &Out, t: &Set, s: &Set) {
    reach("refused");
    check(!o.is_ok(), "an invalid argument is an error");
    check(same(t, s), "an invalid argument changes nothing");
}
fn done(o: &Out, t: &Set, want: &Set) {
    reach("set");
    check(o.is_ok(), "a valid argument is accepted");
    check(same(t, want), "the setting gets the value and nothing else changes");
}
const BOOLS: [&str; 5] = ["/fractional", "/f", "/upper", "/commas", "/comma"];
fn set_bool(s: &mut Set, c: usize, v: bool) {
    match c {
        0 | 1 => s.fractional = v,
        2 => s.upper = v,
        _ => s.commas = v,
    }
}
fn get_bool(s: &Set, c: usize) -> bool {
    match c {
        0 | 1 => s.fractional,
        2 => s.upper,
        _ => s.commas,
    }
}
fn bool_args(c: usize, n: usize) {
    let s = any();
    let arg = bytes("c", n, 0, 127);
    for b in &arg {
        assume(*b != 11); // a vertical tab
    }
    let line = format!("{} {}", BOOLS[c], unsafe { std::str::from_utf8_unchecked(&arg) });
    let (o, t) = go(&line, s);
    let mut i = 0;
    let mut j = n;
    while i < j && blank(arg[i]) {
        i += 1;
    }
    while j > i && blank(arg[j - 1]) {
        j -= 1;
    }
    let w: Vec<u8> = arg[i..j].iter().map(|b| if *b >= b'A' && *b <= b'Z' { *b + 32 } else { *b }).collect();
    if w.is_empty() {
        report(&o, &t, &s, if get_bool(&s, c) { "true" } else { "false" });
    } else if w == b"t" || w == b"true" {
        let mut want = s;
        set_bool(&mut want, c, true);
        done(&o, &t, &want);
    } else if w == b"f" || w == b"false" {
        let mut want = s;
        set_bool(&mut want, c, false);
        done(&o, &t, &want);
    } else {
        refuse(&o, &t, &s);
    }
}
/// /fractional, /upper, /commas with every ASCII argument of up to 6 characters.
#[no_mangle]
pub extern "C" fn h_c16_bool() {
    let c = pick("command", 0, 4) as usize;
    let n = pick("n", 0, 6) as usize;
    bool_args(c, n);
}
#[no_mangle]
pub extern "C" fn h_c16_bool8() {
    let c = pick("command", 0, 4) as usize;
    let n = pick("n", 7, 8) as usize;
    bool_args(c, n);
}
const INTS: [&str; 3] = ["/radix", "/converttoradix", "/precision"];
/// What an argument text is: a list of integers (with possible underscores, points), or no list of integers.
/// `Err(true)`: not decided here.
fn ints(arg: &[u8]) -> Result<Vec<(bool, BigInt)>, bool> {
    let mut out = Vec::new();
    let mut neg = false;
    let mut word = false;
    let mut v = BigInt::zero();
    let mut ok = false;
    let mut odd = false;
    let n = arg.len();
    let mut i = 0;
    while i <= n {
        let b = if i < n { arg[i] } else { b' ' };
        i += 1;
        if blank(b) || b == b'-' {
            if word {
                if !ok {
                    return Err(odd);
                }
                out.push((neg, v));
                neg = false;
                word = false;
                ok = false;
                v = BigInt::zero();
            }
            if b == b'-' {
                if neg {
                    return Err(false);
                }
                neg = true;
            }
        } else if b >= b'0' && b <= b'9' {
            word = true;
            ok = true;
            v = v * BigInt::from(10) + BigInt::from(b - b'0');
        } else if b == b'_' || b == b'.' {
            word = true;
            odd = true;
        } else {
            return Err(false);
        }
    }
    if neg {
        return Err(false);
    }
    if odd {
        return Err(true);
    }
    Ok(out)
}
fn judge(c: usize, arg: &[u8], o: &Out, t: &Set, s: &Set) {
    let l = match ints(arg) {
        Ok(l) => l,
        Err(odd) => {
            if odd && o.is_ok() {
                // underscores and points: a literal that denotes an integer may be accepted
                reach("odd literal");
                let mut w = *s;
                match c {
                    0 => w.radix = t.radix,
                    1 => w.conv = t.conv,
                    _ => {
                        w.precision = t.precision;
                        w.extra = t.extra;
                    }
                }
                check(same(t, &w), "no other setting changes");
            } else {
                refuse(o, t, s);
            }
            return;
        }
    };
    judge_list(c, &l, o, t, s)
}
fn judge_list(c: usize, l: &[(bool, BigInt)], o: &Out, t: &Set, s: &Set) {
    let mut want = *s;
    if l.is_empty() {
        let text = match c {
            0 => s.radix.to_string(),
            1 if s.conv == 0 => "None".to_string(),
            1 => s.conv.to_string(),
            _ => format!("Precision = {}\nExtra Precision = {}", s.precision, s.extra),
        };
        return report(o, t, s, &text);
    }
    for (neg, v) in l {
        if *neg && !v.is_zero() {
            return refuse(o, t, s);
        }
    }
    let ok = match c {
        0 | 1 => {
            let ok = l.len() == 1 && l[0].1 >= int(2) && l[0].1 <= int(16);
            if ok {
                let v = l[0].1.to_u8().unwrap();
                if c == 0 {
                    want.radix = v;
                } else {
                    want.conv = v;
                }
            }
            ok
        }
        _ => {
            let ok = l.len() <= 2 && l[0].1 <= int(255) && (l.len() == 1 || l[1].1 <= int(255));
            if ok {
                want.precision = l[0].1.to_u8().unwrap();
                if l.len() > 1 {
                    want.extra = l[1].1.to_u8().unwrap();
                }
            }
            let e = if l.len() > 1 { l[1].1.clone() } else { int(s.extra as u64) };
            ok && &l[0].1 + e <= int(255)
        }
    };
    if ok {
        done(o, t, &want);
    } else {
        refuse(o, t, s);
    }
}
/// The settings that matter for a report, concrete.
fn any_int(c: usize) -> Set {
    let mut s = any();
    // what is printed
    match c {
        0 => s.radix = conc(s.radix as u64) as u8,
        1 => s.conv = conc(s.conv as u64) as u8,
        _ => {}
    }
    s
}
fn int_args(c: usize, arg: &[u8]) {
    let mut s = any();
    for b in arg {
        assume(*b != 11);
    }
    let line = format!("{} {}", INTS[c], unsafe { std::str::from_utf8_unchecked(arg) });
    let (o, t) = go(&line, s);
    if c == 1 && arg.len() >= 4 {
        // "none", whatever its case
        let mut i = 0;
        let mut j = arg.len();
        while i < j && blank(arg[i]) {
            i += 1;
        }
        while j > i && blank(arg[j - 1]) {
            j -= 1;
        }
        let w: Vec<u8> = arg[i..j].iter().map(|b| if *b >= b'A' && *b <= b'Z' { *b + 32 } else { *b }).collect();
        if w == b"none" {
            let mut want = s;
            want.conv = 0;
            return done(&o, &t, &want);
        }
    }
    judge(c, arg, &o, &t, &s);
}
/// /radix, /converttoradix and /precision with every ASCII argument of up to 3 characters.
#[no_mangle]
pub extern "C" fn h_c16_int() {
    let c = pick("command", 0, 2) as usize;
    let n = pick("n", 0, 3) as usize;
    let arg = bytes("c", n, 0, 127);
    int_args(c, &arg);
}
/// /converttoradix with every argument of letters and blanks up to 6 characters.
#[no_mangle]
pub extern "C" fn h_c16_none() {
    let n = pick("n", 4, 6) as usize;
    let arg = from_set("c", n, b" nNoOeEx\t");
    int_args(1, arg.as_bytes());
}
/// The same with up to `n` characters out of digits, blanks, signs.
fn list(n: usize) {
    let c = pick("command", 0, 2) as usize;
    let arg = from_set("c", n, b"0123456789 -");
    int_args(c, arg.as_bytes());
}
#[no_mangle]
pub extern "C" fn h_c16_list4() {
    list(pick("n", 4, 5) as usize)
}
#[no_mangle]
pub extern "C" fn h_c16_list7() {
    list(pick("n", 6, 7) as usize)
}
/// One to three numbers of up to three digits each, any of them negative.
#[no_mangle]
pub extern "C" fn h_c16_numbers() {
    let c = pick("command", 0, 2) as usize;
    let k = pick("count", 1, 3);
    let mut arg = Vec::new();
    for i in 0..k {
        if i > 0 {
            arg.push(b' ');
        }
        if pick("negative", 0, 1) == 1 {
            arg.push(b'-');
        }
        let n = pick("digits", 1, 3);
        for _ in 0..n {
            let b = u8s("d");
            assume(b >= b'0' && b <= b'9');
            arg.push(b);
        }
    }
    int_args(c, &arg);
}
/// One number of any of 20 digits.
#[no_mangle]
pub extern "C" fn h_c16_huge() {
    let c = pick("command", 0, 2) as usize;
    let neg = pick("negative", 0, 1) == 1;
    let n = [4, 9, 19, 20, 25][pick("digits", 0, 4) as usize];
    let mut line = format!("{} {}", INTS[c], if neg { "-" } else { "" });
    let v = digits(&mut line, "d", n, 10);
    let s = any();
    let (o, t) = go(&line, s);
    judge_list(c, &[(neg, v)], &o, &t, &s);
}
/// Histories: any sequence of settings commands with valid and invalid arguments.
fn history(n: usize) {
    let mut s = get(&args());
    let mut ses = Ses::new(put(s));
    const L: [&str; 24] = [
        "/radix 2", "/radix 16", "/radix 1", "/radix", "/converttoradix 7", "/converttoradix None", "/converttoradix 17", "/converttoradix",
        "/precision 0", "/precision 250", "/precision 250 5", "/precision 255 1", "/precision 1 2 3", "/precision", "/f t", "/fractional False",
        "/f", "/upper TRUE", "/upper f", "/commas t", "/comma f", "/commas x", "1+1", "/nosuch 3",
    ];
    for _ in 0..n {
        let k = pick("line", 0, 23) as usize;
        let o = ses.line(L[k]);
        let mut ok = true;
        match k {
            0 => s.radix = 2,
            1 => s.radix = 16,
            4 => s.conv = 7,
            5 => s.conv = 0,
            8 => s.precision = 0,
            9 if 250 + s.extra as u32 <= 255 => s.precision = 250,
            9 => ok = false,
            10 => {
                s.precision = 250;
                s.extra = 5;
            }
            14 => s.fractional = true,
            15 => s.fractional = false,
            17 => s.upper = true,
            18 => s.upper = false,
            19 => s.commas = true,
            20 => s.commas = false,
            2 | 6 | 11 | 12 | 21 | 23 => ok = false,
            3 => check(o.text() == s.radix.to_string(), "the current value is reported"),
            7 => check(o.text() == if s.conv == 0 { "None".to_string() } else { s.conv.to_string() }, "the current value is reported"),
            13 => check(
                o.text() == format!("Precision = {}\nExtra Precision = {}", s.precision, s.extra),
                "the current value is reported",
            ),
            16 => check(o.text() == if s.fractional { "true" } else { "false" }, "the current value is reported"),
            _ => {
                let r = if s.conv != 0 { s.conv } else { s.radix };
                check(o.text() == if r == 2 { "10" } else { "2" }, "the settings apply to the next results");
            }
        }
        check(o.is_ok() == ok, "valid commands are accepted, others refused");
        check(same(&get(&ses.args), &s), "the settings are what the commands so far have said");
        reach(if ok { "set" } else { "refused" });
    }
}
#[no_mangle]
pub extern "C" fn h_c16_history() {
    history(3)
}
/// The command line options with numbers of up to four characters.
fn cli(n: usize) {
    let k = pick("option", 0, 3) as usize;
    let (name, top, low) = [("--radix", 16, 2), ("--convert-to-radix", 16, 2), ("--precision", 255, 0), ("--extra-precision", 255, 0)][k];
    let mut line = String::new();
    let mut v = 0u64;
    for _ in 0..n {
        let b = u8s("d");
        assume(b >= b'0' && b <= b'9');
        line.push(b as char);
        v = v * 10 + (b - b'0') as u64;
    }
    match Args::try_parse_from(["bcalc", name, &line]) {
        Ok(a) => {
            reach("set");
            let t = get(&a);
            let mut want = get(&args());
            check(v >= low && v <= top, "an option out of range is refused");
            match k {
                0 => want.radix = v as u8,
                1 => want.conv = v as u8,
                2 => want.precision = v as u8,
                _ => want.extra = v as u8,
            }
            check(same(&t, &want), "an option sets its setting and nothing else");
        }
        Err(_) => {
            reach("refused");
            check(v < low || v > top, "an option in range is accepted");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c16_cli() {
    cli(pick("n", 1, 3) as usize)
}
/// The same with any two printable ASCII characters.
#[no_mangle]
pub extern "C" fn h_c16_cli_text() {
    let k = pick("option", 0, 3) as usize;
    let (name, top, low) = [("--radix", 16, 2), ("--convert-to-radix", 16, 2), ("--precision", 255, 0), ("--extra-precision", 255, 0)][k];
    let t = bytes("c", 2, 33, 126);
    let line = format!("{}={}", name, unsafe { std::str::from_utf8_unchecked(&t) });
    let digit = |b: u8| b >= b'0' && b <= b'9';
    match Args::try_parse_from(["bcalc", &line]) {
        Ok(a) => {
            reach("set");
            let got = get(&a);
            let mut want = get(&args());
            check(digit(t[1]) && (digit(t[0]) || t[0] == b'+' || t[0] == b'-' && t[1] == b'0'), "only numbers are accepted");
            let v = if digit(t[0]) { (t[0] - b'0') * 10 } else { 0 } + (t[1] - b'0');
            check(v >= low && v as u32 <= top, "an option out of range is refused");
            match k {
                0 => want.radix = v,
                1 => want.conv = v,
                2 => want.precision = v,
                _ => want.extra = v,
            }
            check(same(&got, &want), "an option sets its setting and nothing else");
        }
        Err(_) => {
            reach("refused");
            if digit(t[0]) && digit(t[1]) {
                let v = (t[0] - b'0') * 10 + (t[1] - b'0');
                check(v < low || v as u32 > top, "an option in range is accepted");
            }
        }
    }
}
/// Any combination of the options, in their short and long forms.
#[no_mangle]
pub extern "C" fn h_c16_flags() {
    let long = pick("long", 0, 1) == 1;
    let mut want = get(&args());
    let mut l = vec!["bcalc"];
    if pick("fractional", 0, 1) == 1 {
        l.push(if long { "--fractional" } else { "-f" });
        want.fractional = true;
    }
    if pick("radix", 0, 1) == 1 {
        l.push(if long { "--radix" } else { "-r" });
        l.push("7");
        want.radix = 7;
    }
    if pick("commas", 0, 1) == 1 {
        l.push(if long { "--commas" } else { "-c" });
        want.commas = true;
    }
    if pick("upper", 0, 1) == 1 {
        l.push(if long { "--upper" } else { "-u" });
        want.upper = true;
    }
    if pick("precision", 0, 1) == 1 {
        l.push(if long { "--precision" } else { "-p" });
        l.push("200");
        want.precision = 200;
    }
    if pick("extra", 0, 1) == 1 {
        l.push("--extra-precision");
        l.push("100");
        want.extra = 100;
    }
    if pick("convert", 0, 1) == 1 {
        l.push("--convert-to-radix");
        l.push("3");
        want.conv = 3;
    }
    let nodb = pick("no db", 0, 1) == 1;
    if nodb {
        l.push("--no-db");
    }
    match Args::try_parse_from(l) {
        Ok(a) => {
            reach("set");
            check(same(&get(&a), &want), "options set their settings and nothing else");
            check(a.no_db == nodb && a.input.is_none() && !a.alternate_screen, "options set their settings and nothing else");
            // even the largest precisions allowed together do no harm
            let mut a = a;
            a.no_db = true;
            let want = match (want.fractional, want.conv) {
                (true, 3) => "1/11",
                (true, _) => "1/4",
                _ => "",
            };
            if want != "" {
                let four = if a.radix == 7 && a.convert_to_radix.is_none() { "1/4" } else { want };
                check(matches!(batch("1/4", &mut a), Out::Ok(t) if t == four), "the options apply");
            }
        }
        Err(_) => check(false, "valid options are accepted"),
    }
}
