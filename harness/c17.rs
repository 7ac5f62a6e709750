//! C17: slash lines are commands and nothing else.
use super::c16::get;
use super::ses::*;
use super::sym::*;
use super::util::*;
use crate::token::ParsedInput;

/// Names and aliases, and the command they are documented for.
const NAMES: [(&str, usize); 15] = [
    ("help", 0),
    ("h", 0),
    ("reloadvar", 1),
    ("purgevar", 2),
    ("histcap", 3),
    ("fractional", 4),
    ("f", 4),
    ("radix", 5),
    ("r", 5),
    ("converttoradix", 6),
    ("upper", 7),
    ("commas", 8),
    ("comma", 8),
    ("precision", 9),
    ("p", 9),
];
const USAGE: [&str; 10] = [
    "Usage: /help",
    "Usage: /reloadvar",
    "Usage: /purgevar",
    "Usage: /histcap",
    "Usage: /fractional",
    "Usage: /radix",
    "Usage: /converttoradix",
    "Usage: /upper",
    "Usage: /commas",
    "Usage: /precision",
];
const ARG: [&str; 10] = ["upper", "$v", "$v", "7", "true", "7", "7", "true", "true", "7"];

fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 12
}
fn command(name: &[u8]) -> Option<usize> {
    for (n, k) in NAMES {
        if name == n.as_bytes() {
            return Some(k);
        }
    }
    None
}
fn text(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
fn starts(o: &Out, s: &str) -> bool {
    matches!(o, Out::Ok(t) if t.starts_with(s))
}
/// `before` blanks, '/', a name of `n` arbitrary characters, a blank and an argument.
fn name(n: usize) {
    let pre = pick("blanks", 0, 2) as usize;
    let mut line = Vec::new();
    for _ in 0..pre {
        let b = u8s("blank");
        assume(blank(b));
        line.push(b);
    }
    line.push(b'/');
    let nm = bytes("c", n, 0, 127);
    for b in &nm {
        assume(!blank(*b) && *b != 11);
    }
    line.extend_from_slice(&nm);
    let a = args();
    let before = get(&a);
    let mut s = Ses::new(a);
    check(s.line("$v=5").is_ok(), "an assignment works");
    let k = command(&nm);
    let with = pick("argument", 0, 1) == 1;
    if with {
        let b = u8s("blank");
        assume(blank(b));
        line.push(b);
        line.extend_from_slice(ARG[k.unwrap_or(5)].as_bytes());
    }
    let o = s.line(text(&line));
    let mut want = before;
    match k {
        None => {
            reach("unknown");
            check(!o.is_ok(), "an unknown command is an error");
        }
        Some(k) => {
            reach("known");
            match k {
                0 => check(starts(&o, if with { USAGE[7] } else { "Available commands" }), "help is help"),
                // needs the database
                1 if !with => {}
                1 => check(!o.is_ok(), "reloadvar needs the database"),
                3 => check(!o.is_ok(), "histcap needs the database"),
                _ => check(o.is_ok(), "a known command works"),
            }
            if with {
                match k {
                    4 => want.fractional = true,
                    5 => want.radix = 7,
                    6 => want.conv = 7,
                    7 => want.upper = true,
                    8 => want.commas = true,
                    9 => want.precision = 7,
                    _ => {}
                }
            }
        }
    }
    check(get(&s.args) == want, "a command has its effect and no other");
    s.args = args();
    let v = s.line("$v");
    if k == Some(2) && with {
        check(!v.is_ok(), "purgevar removes the variable");
    } else {
        check(matches!(&v, Out::Ok(t) if t == "5"), "the line is not evaluated");
    }
}
/// Every name of 0 to 14 ASCII characters.
#[no_mangle]
pub extern "C" fn h_c17_names() {
    name(pick("n", 0, 14) as usize)
}
/// /help with every name of 1 to 14 ASCII characters.
#[no_mangle]
pub extern "C" fn h_c17_help() {
    let n = pick("n", 1, 14) as usize;
    let nm = bytes("c", n, 0, 127);
    for b in &nm {
        assume(!blank(*b) && *b != 11);
    }
    let mut line = b"/help ".to_vec();
    line.extend_from_slice(&nm);
    let mut s = Ses::new(args());
    let before = get(&s.args);
    let o = s.line(text(&line));
    check(get(&s.args) == before, "help changes nothing");
    match command(&nm) {
        Some(k) => {
            reach("known");
            check(starts(&o, USAGE[k]), "help shows the documentation of the command that has the name");
        }
        None => {
            reach("unknown");
            check(!o.is_ok(), "an unknown command is an error");
        }
    }
}
/// Every line of up to `n` ASCII characters: a command if and only if the first non-blank character is a slash.
fn lines(n: usize) {
    let l = bytes("c", n, 0, 127);
    for b in &l {
        assume(*b != 11);
    }
    let mut i = 0;
    while i < n && blank(l[i]) {
        i += 1;
    }
    let slash = i < n && l[i] == b'/';
    let mut s = Ses::new(args());
    let is = match s.tk.tokenize(text(&l), 10) {
        Ok(ParsedInput::Command((c, a))) => {
            if slash {
                let mut j = i + 1;
                while j < n && !blank(l[j]) {
                    j += 1;
                }
                check(c.value.as_bytes() == &l[i + 1..j], "the name reaches from the slash to the next blank");
                let k = if j < n { j + 1 } else { j };
                check(a.value.as_bytes() == &l[k..], "the arguments are the rest of the line");
            }
            true
        }
        _ => false,
    };
    reach(if slash { "command" } else { "other" });
    check(is == slash, "exactly the lines that start with a slash are commands");
}
#[no_mangle]
pub extern "C" fn h_c17_lines() {
    lines(pick("n", 0, 3) as usize)
}
#[no_mangle]
pub extern "C" fn h_c17_lines4() {
    lines(4)
}
/// One or two arbitrary characters before what would be a command: no effect unless they are blanks.
#[no_mangle]
pub extern "C" fn h_c17_prefix() {
    let n = pick("n", 1, 2) as usize;
    let mut l = bytes("c", n, 0, 127);
    for b in &l {
        assume(*b != 11);
    }
    let mut blanks = true;
    for b in &l {
        blanks &= blank(*b);
    }
    let slash = pick("slash", 0, 1) == 1;
    if !slash {
        // "/radix 7" only after a slash
        let mut i = 0;
        while i < n && blank(l[i]) {
            i += 1;
        }
        assume(i == n || l[i] != b'/');
    } else {
        assume(l[0] != b'/' && !(n == 2 && blank(l[0]) && l[1] == b'/'));
        l.push(b'/');
    }
    l.extend_from_slice([&b"radix 7"[..], b"upper t", b"f t", b"precision 7"][pick("command", 0, 3) as usize]);
    let mut s = Ses::new(args());
    let before = get(&s.args);
    let o = s.line(text(&l));
    if slash && blanks {
        reach("command");
        check(o.is_ok(), "blanks before a command do not matter");
        check(get(&s.args) != before, "a command has its effect");
    } else {
        reach("other");
        check(get(&s.args) == before, "a line that does not start with a slash is no command");
    }
}
