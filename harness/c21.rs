//! C21: a calculation given on the command line prints its result and does nothing else.
use super::db::*;
use super::prog::*;
use super::ses::*;
use super::sym::*;
use super::term::*;
use super::util::*;
use crate::Args;

fn untouched() {
    unsafe {
        check(MODE.on == 0 && MODE.off == 0 && TERM.handed == 0 && TERM.asked == 0, "the terminal is left alone");
    }
}
/// The program called exit: never with the arguments of these harnesses.
fn no_exit(_code: i32) {
    check(false, "the program runs to its end");
}
fn eq_line(o: &[u8], a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if o.len() != a.len() + b.len() + 1 {
        return false;
    }
    let mut r = o[o.len() - 1] == b'\n';
    for i in 0..a.len() {
        r &= o[i] == a[i];
    }
    for i in 0..b.len() {
        r &= o[a.len() + i] == b[i];
    }
    r
}
/// Runs the program and compares with what an interactive session answers.
fn one_shot(argv: Vec<String>, line: &str, mut a: Args) {
    // variables and saved data are not available here, so such lines are compared with `calculate` alone
    let special = line.bytes().any(|c| c == b'/' || c == b'$');
    let want = if special { batch(line, &mut a) } else { Ses::new(a).enter(line) };
    let r = run(argv, no_exit);
    let (o, e) = (out_take(), err_take());
    match want {
        Out::Ok(s) => {
            check(r.is_ok(), "the program succeeds");
            check(eq_line(&o, &s, ""), "the result and nothing else is printed");
            check(e.is_empty(), "no message");
            reach("result");
        }
        Out::Input(m, _) => {
            check(r.is_ok(), "an error in the input is reported by a message");
            check(o.is_empty(), "an error prints no result");
            check(eq_line(&e, "Error: ", &m), "the message is the error");
            reach("error");
        }
        Out::Runtime(_) => {
            check(r.is_err(), "other failures end the program");
            check(o.is_empty(), "a failure prints no result");
        }
    }
    untouched();
}
fn line_of(n: usize) -> String {
    let s = ascii("line", n);
    for c in s.bytes() {
        assume(c != 0);
    }
    s
}
/// The two ways of giving the line.
fn given(line: &str) -> Vec<String> {
    let mut v = vec!["bcalc".to_string()];
    match pick("form", 0, 2) {
        0 => v.push(format!("--input={}", line)),
        1 => {
            assume(line.is_empty() || line.as_bytes()[0] != b'-');
            v.push("-i".to_string());
            v.push(line.to_string());
        }
        _ => {
            assume(!line.is_empty() && line.as_bytes()[0] != b'=');
            v.push(format!("-i{}", line));
        }
    }
    v
}
#[no_mangle]
pub extern "C" fn h_c21_line() {
    let line = line_of(pick("len", 0, 2) as usize);
    one_shot(given(&line), &line, args());
}
#[no_mangle]
pub extern "C" fn h_c21_line3() {
    let line = line_of(3);
    one_shot(vec!["bcalc".to_string(), format!("--input={}", line)], &line, args());
}
/// Options before and after the line.
#[no_mangle]
pub extern "C" fn h_c21_options() {
    let mut a = args();
    let mut opts: Vec<String> = vec![];
    match pick("radix", 0, 3) {
        0 => {}
        1 => {
            a.radix = 16;
            opts.extend(words(&["-r", "16"]));
        }
        2 => {
            a.radix = 3;
            opts.push("--radix=3".to_string());
        }
        _ => {
            a.radix = 16;
            a.convert_to_radix = Some(12);
            opts.extend(words(&["-r16", "--convert-to-radix", "12"]));
        }
    }
    match pick("digits", 0, 3) {
        0 => {}
        1 => {
            a.precision = 0;
            opts.extend(words(&["-p", "0"]));
        }
        2 => {
            a.precision = 9;
            a.extra_precision = 0;
            opts.extend(words(&["--precision", "9", "--extra-precision", "0"]));
        }
        _ => {
            a.precision = 20;
            opts.push("-p20".to_string());
        }
    }
    match pick("flags", 0, 4) {
        0 => {}
        1 => {
            a.fractional = true;
            opts.push("-f".to_string());
        }
        2 => {
            a.commas = true;
            a.upper = true;
            opts.push("-cu".to_string());
        }
        3 => {
            a.upper = true;
            a.fractional = true;
            opts.extend(words(&["--upper", "--fractional"]));
        }
        // these change nothing here
        _ => opts.extend(words(&["-a", "--no-db"])),
    }
    let mut line = match pick("kind", 0, 4) {
        0 => "10201/".to_string(),
        1 => "sqrt 2*".to_string(),
        2 => "-1111111-".to_string(),
        3 => "$a=".to_string(),
        _ => "/precision ".to_string(),
    };
    let d = u8s("d");
    assume(d >= b'0' && d <= b'2' || d == b'a' || d == b'x');
    line.push(d as char);
    let inp = format!("--input={}", line);
    let mut argv = vec!["bcalc".to_string()];
    if pick("after", 0, 1) == 1 {
        argv.push(inp);
        argv.extend(opts);
    } else {
        argv.extend(opts);
        argv.push(inp);
    }
    one_shot(argv, &line, a);
}
/// A line without the database: nothing is saved, and what is saved stays.
#[no_mangle]
pub extern "C" fn h_c21_saved() {
    data_dir();
    let before = pick("before", 0, 2);
    let mut r = Saved::new();
    let mut x = None;
    if before > 0 {
        let mut s = session();
        for k in 0..before {
            let l = format!("$a={}", (b'1' + (u8s("v") % 9)) as char);
            s.submit(&l);
            r.add(l.as_bytes());
            let _ = k;
        }
        if pick("cap", 0, 1) == 1 {
            s.submit("/histcap 2");
            r.add(b"/histcap 2");
            r.cap = 2;
            r.trim();
        }
        x = s.value_db("$a");
        end(s);
    }
    let lines = ["1+1", "$a=7", "$a", "/purge $a", "/histcap 1", "/reload", "/clearhist", "/help", "1/0", "/vars", ")", "/histcap"];
    let line = lines[pick("line", 0, lines.len() as u64 - 1) as usize];
    let mut argv = words(&["bcalc", "-i", line]);
    if pick("alternate", 0, 1) == 1 {
        argv.push("-a".to_string());
    }
    one_shot(argv, line, args());
    new_process();
    if before == 0 {
        let p = format!("{}/bcalc", tmpdir());
        check(std::fs::metadata(&p).is_err(), "no data is saved");
        reach("none");
        return;
    }
    compare(&r);
    let mut s = session();
    check(s.value_db("$a") == x, "saved variables stay as they are");
    end(s);
    reach("saved");
}
/// Four characters of lines that often mean something.
#[no_mangle]
pub extern "C" fn h_c21_line4() {
    let line = from_set("line", 4, b"019.+-*/%()$_a ,=");
    one_shot(vec!["bcalc".to_string(), format!("--input={}", line)], &line, args());
}
/// Words after the line are refused, as are options that do not exist: no result, nothing touched.
fn refused(code: i32) {
    check(code != 0, "wrong arguments are an error");
    check(out_take().is_empty(), "wrong arguments print no result");
    check(!err_take().is_empty(), "a message says why");
    untouched();
    reach("refused");
}
#[no_mangle]
pub extern "C" fn h_c21_refused() {
    let mut v = words(&["bcalc", "-i", "1+1"]);
    let d = u8s("d");
    match pick("kind", 0, 6) {
        0 => {
            // one more word
            assume(d > 32 && d < 127 && d != b'-');
            v.push((d as char).to_string());
        }
        1 => {
            // a letter that is no option
            assume(d.is_ascii_alphabetic() && !b"rapifcuhV".contains(&d));
            v.push(format!("-{}", d as char));
        }
        2 => {
            assume(d.is_ascii_digit());
            v.push(format!("--radix={}", (d - b'0') as u32 * 17));
        }
        3 => {
            assume(d < 128 && !d.is_ascii_digit() && d != 0 && d != b'+' && d != b'=');
            v.push(format!("-p{}1", d as char));
        }
        4 => v.push(format!("-p{}", 256 + d as u32)),
        5 => v.push("-i".to_string()),
        _ => {
            v.push("--extra-precision".to_string());
            v.push(format!("{}", 256 + d as u32));
        }
    }
    let _ = run(v, refused);
    check(false, "wrong arguments are refused");
}
