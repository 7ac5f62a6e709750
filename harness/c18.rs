//! C18: positions lie on the text they are about.
use super::c03::{Ref, K, K::*};
use super::ses::*;
use super::sym::*;
use super::util::*;
use crate::position::{Position, Positioned};
use crate::syntax_tree::SyntaxTree;
use crate::token::{BinaryOperatorToken as B, FunctionNameToken as F, ParsedInput, Token, Tokenizer, UnaryOperatorToken as U};
use crate::variable::VariableStore;
use num::{BigInt, BigRational, ToPrimitive};

fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 12
}
fn single(c: u8) -> bool {
    match c {
        b'+' | b'-' | b'*' | b'/' | b'%' | b'^' | b'(' | b')' | b'=' | b',' => true,
        _ => false,
    }
}
/// The words of a line: every operator character by itself, everything else up to a blank or an operator.
fn split(s: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if blank(s[i]) {
            i += 1;
        } else if single(s[i]) {
            v.push((i, 1));
            i += 1;
        } else {
            let a = i;
            while i < s.len() && !blank(s[i]) && !single(s[i]) {
                i += 1;
            }
            v.push((a, i - a));
        }
    }
    v
}
fn at(p: &Position, w: (usize, usize)) -> bool {
    (p.start == w.0) & (p.width == w.1)
}
/// The token was read from that text.
fn reads(t: &Token, w: &[u8]) -> bool {
    match t {
        Token::Variable(n) => w[0] == b'$' && n.as_bytes() == w,
        Token::AssignmentOperator => w == b"=",
        Token::Comma => w == b",",
        Token::OpenParen => w == b"(",
        Token::CloseParen => w == b")",
        Token::Number(_) => w[0] != b'$' && (w.len() > 1 || !single(w[0])),
        Token::BinaryOperator(o) => {
            w == match o {
                B::Add => b"+",
                B::Subtract => b"-",
                B::Multiply => b"*",
                B::Divide => b"/",
                B::Modulus => b"%",
                B::Exponent => b"^",
            }
        }
        Token::UnaryOperator(U::SquareRoot) => w == b"sqrt",
        Token::UnaryOperator(U::AbsoluteValue) => w == b"abs",
        Token::UnaryOperator(U::Negate) => false,
        Token::Function(F::Max) => w == b"max",
        Token::Function(F::Min) => w == b"min",
    }
}
fn text(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
fn tokens(s: &[u8]) {
    for c in s {
        assume(*c != 11);
    }
    let tk = Tokenizer::new();
    let words = split(s);
    match tk.tokenize(text(s), 10) {
        Ok(ParsedInput::Tokens(t)) => {
            reach("tokens");
            check(t.len() == words.len(), "one token for every word");
            for (i, t) in t.iter().enumerate() {
                check(at(&t.position, words[i]), "the span of a token");
                check(reads(&t.value, &s[words[i].0..words[i].0 + words[i].1]), "the token is what the span says");
            }
        }
        Ok(ParsedInput::Command((name, args))) => {
            reach("command");
            let mut i = 0;
            while blank(s[i]) {
                i += 1;
            }
            check(s[i] == b'/', "a command starts with a slash");
            let mut j = i + 1;
            while j < s.len() && !blank(s[j]) {
                j += 1;
            }
            check(at(&name.position, (i, j - i)), "the span of the command with its slash");
            check(name.value.as_bytes() == &s[i + 1..j], "the name of the command");
            if j < s.len() {
                j += 1;
            }
            check(at(&args.position, (j, s.len() - j)), "the span of the arguments");
            check(args.value.as_bytes() == &s[j..], "the arguments");
        }
        Err(e) => {
            reach("refused");
            let m = e.value.to_string();
            let mut found = false;
            for w in &words {
                if at(&e.position, *w) {
                    found = m.ends_with(&format!("'{}'", text(&s[w.0..w.0 + w.1])));
                    check(s[w.0] != b'$', "a variable is no error");
                }
            }
            check(found, "the error is about the word it points at");
        }
    }
}
/// Every line of up to 3 ASCII characters.
#[no_mangle]
pub extern "C" fn h_c18_tokens3() {
    let n = pick("length", 0, 3) as usize;
    tokens(&bytes("c", n, 0, 127));
}
#[no_mangle]
pub extern "C" fn h_c18_tokens4() {
    tokens(&bytes("c", 4, 0, 127));
}
/// Longer lines out of characters of every sort.
#[no_mangle]
pub extern "C" fn h_c18_tokens7() {
    tokens(from_set("c", 7, b"$5 +_.").as_bytes());
}
/// Names of functions between other characters.
#[no_mangle]
pub extern "C" fn h_c18_names() {
    let mut s = bytes("c", pick("before", 0, 1) as usize, 0, 127);
    s.extend_from_slice(["sqrt", "abs", "max", "min", "$name", "12.5"][pick("name", 0, 5) as usize].as_bytes());
    s.extend(bytes("d", pick("after", 0, 1) as usize, 0, 127));
    s.extend_from_slice([&b""[..], b"sqrt", b"max", b"=", b"$b", b"7"][pick("then", 0, 5) as usize]);
    tokens(&s);
}
/// Any Unicode text: the first character outside ASCII is pointed at.
#[no_mangle]
pub extern "C" fn h_c18_unicode() {
    let n = pick("before", 0, 3) as usize;
    let mut s = bytes("c", n, 0, 127);
    let x = ["é", "√", "😀", "\u{80}", "\u{a0}", "\u{2003}"][pick("char", 0, 5) as usize];
    s.extend_from_slice(x.as_bytes());
    s.extend(bytes("d", 1, 0, 127));
    if boolean("more") {
        s.extend_from_slice("ü".as_bytes());
    }
    match Tokenizer::new().tokenize(text(&s), 10) {
        Err(e) => {
            check(at(&e.position, (n, 1)), "the first character that is not ASCII");
            check(e.value.to_string() == "Non-ASCII data in input", "the message");
            reach("refused");
        }
        Ok(_) => check(false, "text outside ASCII is refused"),
    }
}

fn show(k: K) -> &'static str {
    match k {
        Num => "Number",
        Var => "Variable",
        Plus => "Addition Operator (+)",
        Minus => "Subtraction Operator (-)",
        Times => "Multiplication Operator (*)",
        Over => "Division Operator (/)",
        Mod => "Modulus Operator (%)",
        Pow => "Exponentiation Operator (^)",
        Open => "Open Parenthesis",
        Close => "Close Parenthesis",
        Comma => "Comma",
        Assign => "Assignment Operator (=)",
        Sqrt => "Square Root Operator (sqrt)",
        Abs => "Absolute Value Operator (abs)",
        Max => "Max Function",
        Min => "Min Function",
    }
}
fn binary(k: K) -> bool {
    matches!(k, Plus | Minus | Times | Over | Mod | Pow)
}
fn operand_end(k: K) -> bool {
    matches!(k, Num | Var | Close)
}
/// No operand starts at `i`.
fn nothing(k: &[K], mut i: usize) -> bool {
    while i < k.len() && k[i] == Minus {
        i += 1;
    }
    i >= k.len() || matches!(k[i], Close | Comma | Assign) || (binary(k[i]) && k[i] != Minus)
}
/// The bracket that is open at `i`, if any.
fn inside(k: &[K], i: usize) -> Option<usize> {
    let mut depth = 0;
    for j in (0..i).rev() {
        match k[j] {
            Close => depth += 1,
            Open if depth == 0 => return Some(j),
            Open => depth -= 1,
            _ => {}
        }
    }
    None
}
/// Something follows that closes the bracket at `i`.
fn closed(k: &[K], i: usize) -> bool {
    let mut depth = 0;
    for j in i + 1..k.len() {
        match k[j] {
            Open => depth += 1,
            Close if depth == 0 => return true,
            Close => depth -= 1,
            _ => {}
        }
    }
    false
}
fn call(k: &[K], open: usize) -> bool {
    open > 0 && matches!(k[open - 1], Max | Min)
}
/// The range of the error is on the tokens that the message is about. `w` are their spans.
fn judge(k: &[K], w: &[(usize, usize)], m: &str, p: &Position, math: usize) {
    let mut ok = false;
    if m == "No input" {
        ok = at(p, (0, 0)) && (k.is_empty() || (k.len() == 2 && k[0] == Var && k[1] == Assign));
    } else if m == "Missing an operator between two consecutive operands" {
        for i in 1..k.len() {
            if operand_end(k[i - 1]) && !binary(k[i]) && !matches!(k[i], Close | Comma | Assign) {
                let end = w[i - 1].0 + w[i - 1].1;
                ok |= at(p, (end, w[i].0 - end));
            }
        }
    } else if m == "Empty parentheses" {
        for i in 1..k.len() {
            if k[i - 1] == Open && k[i] == Close && !call(k, i - 1) {
                ok |= at(p, (w[i - 1].0, w[i].0 + w[i].1 - w[i - 1].0));
            }
        }
    } else {
        for i in 0..k.len() {
            let about = if m == "Mismatched close parenthesis" {
                k[i] == Close && inside(k, i).is_none()
            } else if m == "Mismatched open parenthesis" {
                k[i] == Open && !closed(k, i)
            } else if m == "Comma must follow an operand" {
                k[i] == Comma && i > 1 && k[i - 1] == Open && call(k, i - 1)
            } else if m == "Comma must be followed by an operand" {
                k[i] == Comma
                    && (i + 1 == k.len() || matches!(k[i + 1], Comma | Close))
                    && matches!(inside(k, i), Some(o) if call(k, o))
            } else if m.starts_with("Unknown variable: ") {
                k[i] == Var
            } else if let Some(t) = m.strip_prefix("Unexpected token encountered: ") {
                t == show(k[i])
                    && match k[i] {
                        Assign => !(i == 1 && k[0] == Var),
                        Comma => !matches!(inside(k, i), Some(o) if call(k, o)),
                        Minus => false,
                        x if binary(x) => i > 0 && matches!(k[i - 1], Minus | Sqrt | Abs | Max | Min),
                        _ => false,
                    }
            } else if let Some(t) = m.strip_suffix(" is missing a required operand") {
                (t == show(k[i]) || (k[i] == Minus && t == "Negation Operator (-)"))
                    && (nothing(k, i + 1) || (binary(k[i]) && k[i] != Minus && (i == 0 || !operand_end(k[i - 1]))))
            } else if m.starts_with("Functions without parentheses") {
                matches!(k[i], Max | Min)
                    && m.ends_with(show(k[i]))
                    && (i + 1 == k.len() || matches!(k[i + 1], Close | Comma))
            } else if m == "Cannot divide by 0" {
                matches!(k[i], Over | Mod | Pow) && i == math
            } else if m.starts_with("Unable to take the root") {
                matches!(k[i], Sqrt | Pow) && i == math
            } else if let Some(t) = m.strip_suffix(" has no arguments but requires them") {
                t == show(k[i]) && i == math
            } else {
                false
            };
            ok |= about && at(p, w[i]);
        }
    }
    check(ok, "the error points at what it is about");
}
fn token(k: K, n: &BigRational) -> Token {
    match k {
        Num => Token::Number(n.clone()),
        Var => Token::Variable("$a".to_string()),
        Plus => B::Add.into(),
        Minus => B::Subtract.into(),
        Times => B::Multiply.into(),
        Over => B::Divide.into(),
        Mod => B::Modulus.into(),
        Pow => B::Exponent.into(),
        Open => Token::OpenParen,
        Close => Token::CloseParen,
        Comma => Token::Comma,
        Assign => Token::AssignmentOperator,
        Sqrt => U::SquareRoot.into(),
        Abs => U::AbsoluteValue.into(),
        Max => F::Max.into(),
        Min => F::Min.into(),
    }
}
/// Where the reference evaluation fails (`usize::MAX`: nowhere).
fn fails(k: &[K], v: &[BigRational]) -> usize {
    let off = if k.len() > 1 && k[0] == Var && k[1] == Assign { 2 } else { 0 };
    let mut r = Ref { k: &k[off..], v: &v[off..], i: 0, math: false, at: 0 };
    let _ = r.line();
    if r.math {
        r.at + off
    } else {
        usize::MAX
    }
}
/// Tokens at symbolic positions: every gap and every width of a word.
fn placed(k: &[K], values: &[u8]) {
    let mut w = Vec::new();
    let mut v = Vec::new();
    let mut t = Vec::new();
    // kept as an integer: the engine reasons about sums of integers
    let mut end = BigInt::from(input("lead", 16));
    for (i, x) in k.iter().enumerate() {
        let begin = end + BigInt::from(input("gap", 16));
        let start = begin.to_u64().unwrap() as usize;
        let width = match x {
            Num | Var => {
                let w = BigInt::from(input("width", 15)) + BigInt::from(input("wide", 1)) + BigInt::from(1);
                w.to_u64().unwrap() as usize
            }
            Sqrt => 4,
            Abs | Max | Min => 3,
            _ => 1,
        };
        end = begin + BigInt::from(width as u64);
        w.push((start, width));
        v.push(BigRational::from(BigInt::from(values[i])));
        t.push(Positioned::new_raw(token(*x, &v[i]), start, width));
    }
    let st = match SyntaxTree::new(t.into()) {
        Ok(s) => s,
        Err(e) => {
            reach("syntax");
            judge(k, &w, &e.value.to_string(), &e.position, usize::MAX);
            return;
        }
    };
    let math = fails(k, &v);
    let mut a = args();
    a.precision = 1;
    a.extra_precision = 0;
    let mut vars = VariableStore::new();
    let r = catch(|| conv(st.execute(None, Some(&mut vars), None, &a).map(|_| String::new())));
    match r {
        (Some(Out::Input(m, Some(p))), _) => {
            reach("value");
            judge(k, &w, &m, &p, math);
        }
        (Some(Out::Input(_, None)), _) => check(false, "an error of the calculation has a position"),
        _ => {}
    }
}
fn seq(n: usize, kinds: &[K]) {
    let mut k = Vec::new();
    for _ in 0..n {
        k.push(kinds[pick("token", 0, kinds.len() as u64 - 1) as usize]);
    }
    placed(&k, &[3, 2, 4, 1, 2, 3, 0, 5]);
}
const ALL: [K; 16] = [Num, Var, Plus, Minus, Times, Over, Mod, Pow, Open, Close, Comma, Assign, Sqrt, Abs, Max, Min];
#[no_mangle]
pub extern "C" fn h_c18_seq3() {
    let n = pick("length", 0, 3) as usize;
    seq(n, &ALL)
}
#[no_mangle]
pub extern "C" fn h_c18_seq4() {
    seq(4, &[Num, Plus, Minus, Open, Close, Comma, Assign, Sqrt, Max, Var])
}
#[no_mangle]
pub extern "C" fn h_c18_seq5() {
    seq(5, &[Num, Minus, Times, Open, Close, Comma, Max])
}
#[no_mangle]
pub extern "C" fn h_c18_seq6() {
    seq(6, &[Num, Minus, Open, Close, Comma, Min])
}
/// Operands of 0, 1 and 2 with up to one sign, joined by operators: what has no value is pointed at.
#[no_mangle]
pub extern "C" fn h_c18_math() {
    let ops = [Plus, Minus, Times, Over, Mod, Pow];
    let mut k = Vec::new();
    let mut v = Vec::new();
    for i in 0..3 {
        if i > 0 {
            k.push(ops[pick("op", 0, 5) as usize]);
            v.push(0);
        }
        match pick("lead", 0, 2) {
            0 => {}
            1 => {
                k.push(Minus);
                v.push(0);
            }
            _ => {
                k.push(Sqrt);
                v.push(0);
            }
        }
        k.push(Num);
        v.push([0u8, 1, 4][pick("value", 0, 2) as usize]);
    }
    placed(&k, &v);
}
/// The same with brackets and calls.
#[no_mangle]
pub extern "C" fn h_c18_calls() {
    let ops = [Plus, Minus, Over, Mod, Pow];
    let (a, b) = (ops[pick("op", 0, 4) as usize], ops[pick("op", 0, 4) as usize]);
    let f: &[K] = [&[][..], &[Sqrt], &[Max], &[Abs], &[Minus]][pick("lead", 0, 4) as usize];
    let mut k = Vec::new();
    match pick("shape", 0, 4) {
        0 => {
            k.extend_from_slice(f);
            k.extend_from_slice(&[Open, Num, a, Num, Close, b, Num]);
        }
        1 => {
            k.extend_from_slice(&[Num, a]);
            k.extend_from_slice(f);
            k.extend_from_slice(&[Open, Num, b, Num, Close]);
        }
        2 => {
            k.extend_from_slice(&[Max, Open, Close, a, Num, b]);
            k.extend_from_slice(f);
            k.push(Num);
        }
        3 => {
            k.extend_from_slice(&[Num, a, Num, b, Min, Open, Close]);
        }
        _ => {
            k.extend_from_slice(&[Num, a, Max, Open, Num, b, Num, Comma]);
            k.extend_from_slice(f);
            k.extend_from_slice(&[Num, Close]);
        }
    }
    let mut v = Vec::new();
    for x in &k {
        v.push(if *x == Num { [0u8, 1][pick("value", 0, 1) as usize] } else { 0 });
    }
    placed(&k, &v);
}
/// Typed lines of three tokens with every spacing.
#[no_mangle]
pub extern "C" fn h_c18_lines() {
    let n = pick("length", 1, 3) as usize;
    let mut s = String::new();
    let (mut k, mut w, mut v) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..n {
        let x = ALL[pick("token", 0, 15) as usize];
        let t = match x {
            Num => ["30", "40", "50"][i],
            Var => "$ab",
            Plus => "+",
            Minus => "-",
            Times => "*",
            Over => "/",
            Mod => "%",
            Pow => "^",
            Open => "(",
            Close => ")",
            Comma => ",",
            Assign => "=",
            Sqrt => "sqrt",
            Abs => "abs",
            Max => "max",
            Min => "min",
        };
        let wordy = i > 0 && matches!(k[i - 1], Num | Var | Sqrt | Abs | Max | Min) && t.len() > 1;
        for _ in 0..pick("blanks", wordy as u64, 1 + (wordy as u64)) {
            s.push(' ');
        }
        w.push((s.len(), t.len()));
        s.push_str(t);
        k.push(x);
        v.push(BigRational::from(BigInt::from([30, 40, 50][i])));
    }
    assume(k[0] != Over);
    assume(!(k.contains(&Pow) || k.contains(&Sqrt)));
    if boolean("trailing") {
        s.push(' ');
    }
    let mut ses = Ses::new(args());
    match ses.line(&s) {
        Out::Input(m, Some(p)) => {
            reach("error");
            let f = fails(&k, &v);
            judge(&k, &w, &m, &p, f);
        }
        Out::Input(_, None) => check(false, "the error has a position"),
        Out::Runtime(_) => check(false, "no internal error"),
        Out::Ok(_) => reach("value"),
    }
}

/// The arguments of commands.
fn arguments(line: &[u8]) {
    for c in line {
        assume(*c != 11);
    }
    let mut ses = Ses::new(args());
    let (m, p) = match ses.line(text(line)) {
        Out::Input(m, Some(p)) => (m, p),
        Out::Input(m, None) => {
            check(m == "Variable store unavailable" || m == "Database unavailable", "the error has a position");
            return;
        }
        Out::Runtime(_) => {
            check(false, "no internal error");
            return;
        }
        Out::Ok(_) => {
            reach("done");
            return;
        }
    };
    reach("error");
    // the words of the arguments
    let mut i = 0;
    while blank(line[i]) {
        i += 1;
    }
    let mut j = i + 1;
    while j < line.len() && !blank(line[j]) {
        j += 1;
    }
    let help = matches!(&line[i + 1..j], b"h" | b"help");
    if m.starts_with("No such command: ") && !help {
        check(at(&p, (i, j - i)) && m.ends_with(&format!("'{}'", text(&line[i + 1..j]))), "the error is about the command");
        return;
    }
    let from = if j < line.len() { j + 1 } else { j };
    let w: Vec<(usize, usize)> = split(&line[from..]).iter().map(|x| (x.0 + from, x.1)).collect();
    let word = |i: usize| text(&line[w[i].0..w[i].0 + w[i].1]);
    let mut ok = false;
    if m == "Invalid argument" || m.starts_with("No such command: ") {
        // a word command argument: the range covers all that was given
        let (a, b) = (w[0].0, w[w.len() - 1].0 + w[w.len() - 1].1);
        ok = p.start <= a && p.start >= from && p.start + p.width >= b && p.start + p.width <= line.len();
    } else if m == "Too many arguments" {
        // numbers with their signs
        let (a, b) = (w[0].0, w[w.len() - 1].0 + w[w.len() - 1].1);
        ok = at(&p, (a, b - a));
    } else {
        for i in 0..w.len() {
            let signed = i > 0 && word(i - 1) == "-";
            let start = if signed { w[i - 1].0 } else { w[i].0 };
            let number = (start, w[i].0 + w[i].1 - start);
            let quoted = m.ends_with(&format!("'{}'", word(i)));
            ok |= if m == "Two negative signs in a row" {
                signed && word(i) == "-" && at(&p, number)
            } else if m == "Found negative sign without value" {
                i + 1 == w.len() && word(i) == "-" && at(&p, w[i])
            } else if m.starts_with("Invalid variable name: '/") || m.starts_with("Unable to parse number: '/") {
                // arguments that look like a command
                i == 0 && word(0) == "/" && p.start == w[0].0 && p.start + p.width <= line.len() && p.width > 0
            } else if m.starts_with("Invalid variable name: ") || m.starts_with("Unable to parse number: ") {
                quoted && at(&p, w[i])
            } else if m.starts_with("Expected ") {
                at(&p, w[i])
            } else if m.starts_with("Radix cannot be") || m.starts_with("Precision must be") || m.starts_with("Extra must be") {
                at(&p, number)
            } else if m.starts_with("Sum of precision") {
                let end = w[w.len() - 1].0 + w[w.len() - 1].1;
                at(&p, (w[0].0, end - w[0].0))
            } else if m.starts_with("Value must be representable as a 64-bit") {
                at(&p, w[i]) && w[i].1 >= 19
            } else {
                false
            };
        }
    }
    check(ok, "the error points at the argument it is about");
}
const COMMANDS: [&str; 9] =
    ["/help", "/reloadvar", "/purgevar", "/radix", "/converttoradix", "/upper", "/commas", "/precision", "/fractional"];
/// A command with up to three arbitrary characters after it.
#[no_mangle]
pub extern "C" fn h_c18_args() {
    let k = pick("command", 0, 8) as usize;
    let mut s = Vec::new();
    for _ in 0..pick("before", 0, 1) {
        s.push(b' ');
    }
    s.extend_from_slice(COMMANDS[k].as_bytes());
    s.push(b' ');
    let n = pick("length", 0, 2) as usize;
    s.extend(bytes("c", n, 0, 127));
    arguments(&s);
}
/// Numbers, signs, names and blanks as arguments.
#[no_mangle]
pub extern "C" fn h_c18_list() {
    let k = pick("command", 0, 4) as usize;
    let mut s = ["/radix ", "/precision ", "  /converttoradix ", "/purgevar ", "/reloadvar "][k].as_bytes().to_vec();
    s.extend_from_slice(from_set("c", 5, b" -8$").as_bytes());
    arguments(&s);
}
/// Numbers out of range, and numbers that do not fit together.
#[no_mangle]
pub extern "C" fn h_c18_numbers() {
    let k = pick("command", 0, 2) as usize;
    let mut s = ["/radix", "/precision", "/converttoradix"][k].as_bytes().to_vec();
    for _ in 0..pick("arguments", 1, 3) {
        for _ in 0..pick("blanks", 1, 2) {
            s.push(b' ');
        }
        if boolean("minus") {
            s.push(b'-');
        }
        s.extend_from_slice(["1", "7", "200", "256", "9223372036854775808", "1.5", "x"][pick("number", 0, 6) as usize].as_bytes());
    }
    arguments(&s);
}
/// Unknown commands.
#[no_mangle]
pub extern "C" fn h_c18_unknown() {
    let mut s = bytes("b", pick("before", 0, 1) as usize, 0, 127);
    s.push(b'/');
    let n = pick("length", 0, 2) as usize;
    s.extend(bytes("c", n, 0, 127));
    s.extend_from_slice([&b""[..], b" ", b" 1"][pick("after", 0, 2) as usize]);
    assume(s[0] == b'/' || blank(s[0]));
    arguments(&s);
}
#[no_mangle]
pub extern "C" fn h_c18_tokens5() {
    tokens(&bytes("c", 5, 0, 127));
}
#[no_mangle]
pub extern "C" fn h_c18_tokens8() {
    tokens(from_set("c", 8, b"$5 +_.(").as_bytes());
}
#[no_mangle]
pub extern "C" fn h_c18_seq4all() {
    seq(4, &ALL)
}
