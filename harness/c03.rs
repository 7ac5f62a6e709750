//! C03: lines are read by the grammar.
use super::ses::*;
use super::sym::*;
use super::util::*;
use crate::variable::Variable;
use num::{BigInt, BigRational, One, Signed, ToPrimitive, Zero};

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Num,
    Var,
    Plus,
    Minus,
    Times,
    Over,
    Mod,
    Pow,
    Open,
    Close,
    Comma,
    Assign,
    Sqrt,
    Abs,
    Max,
    Min,
}
use K::*;
/// What a line means.
pub enum Val {
    Is(BigRational),
    /// some number that is not compared (an irrational root or what depends on one)
    Some,
}
/// Why a line has no value.
pub enum No {
    /// not derivable
    Syntax,
    /// no value: division by zero, an even root of a negative number, a function without arguments
    Math,
}
type Ev = Result<Val, No>;
pub struct Ref<'a> {
    pub k: &'a [K],
    pub v: &'a [BigRational],
    pub i: usize,
    /// syntax errors win over errors in the calculation
    pub math: bool,
    /// the operator, root or function that has no value
    pub at: usize,
}
impl<'a> Ref<'a> {
    fn peek(&self) -> Option<K> {
        if self.i < self.k.len() {
            Some(self.k[self.i])
        } else {
            None
        }
    }
    fn fail(&mut self, at: usize) -> Val {
        if !self.math {
            self.at = at;
        }
        self.math = true;
        Val::Some
    }
    fn apply(&mut self, op: K, at: usize, a: Val, b: Val) -> Val {
        let (x, y) = match (a, b) {
            (Val::Is(x), Val::Is(y)) => (x, y),
            (_, Val::Some) if op == Pow => {
                assume(false);
                return Val::Some;
            }
            (Val::Some, Val::Is(y)) => {
                if op == Pow && !(y.is_integer() && y.abs() < rat(BigInt::from(10), BigInt::one())) {
                    assume(false);
                }
                if (op == Over || op == Mod) && y.is_zero() {
                    return self.fail(at);
                }
                return Val::Some;
            }
            _ => return Val::Some,
        };
        match op {
            Plus => Val::Is(x + y),
            Minus => Val::Is(x - y),
            Times => Val::Is(x * y),
            Over => {
                if y.is_zero() {
                    return self.fail(at);
                }
                Val::Is(x / y)
            }
            Mod => {
                if y.is_zero() {
                    return self.fail(at);
                }
                let t = (&x / &y).trunc();
                Val::Is(x - y * t)
            }
            _ => {
                if !y.is_integer() {
                    assume(false);
                }
                let n = y.to_integer();
                if n.is_negative() && x.is_zero() {
                    return self.fail(at);
                }
                let mut m = match n.abs().to_u64() {
                    Some(m) if m <= 64 => m,
                    _ => {
                        assume(false);
                        0
                    }
                };
                let mut p = BigRational::one();
                while m > 0 {
                    p = p * &x;
                    m -= 1;
                }
                Val::Is(if n.is_negative() { p.recip() } else { p })
            }
        }
    }
    /// a minus sign, a square root, an absolute value or a function binds to one operand
    fn operand(&mut self) -> Ev {
        let k = match self.peek() {
            Some(k) => k,
            None => return Err(No::Syntax),
        };
        let at = self.i;
        self.i += 1;
        match k {
            Num | Var => Ok(Val::Is(self.v[at].clone())),
            Minus => Ok(match self.operand()? {
                Val::Is(x) => Val::Is(-x),
                s => s,
            }),
            Abs => Ok(match self.operand()? {
                Val::Is(x) => Val::Is(if x < BigRational::zero() { -x } else { x }),
                s => s,
            }),
            Sqrt => match self.operand()? {
                Val::Is(x) => {
                    if x.is_negative() {
                        return Ok(self.fail(at));
                    }
                    // exact for small squares, otherwise not compared
                    let mut r = 0u32;
                    while r < 40 {
                        if x == BigRational::from(BigInt::from(r * r)) {
                            return Ok(Val::Is(BigRational::from(BigInt::from(r))));
                        }
                        r += 1;
                    }
                    Ok(Val::Some)
                }
                s => {
                    // its sign is not known here
                    assume(false);
                    Ok(s)
                }
            },
            Open => {
                let v = self.level(0)?;
                if self.peek() != Some(Close) {
                    return Err(No::Syntax);
                }
                self.i += 1;
                Ok(v)
            }
            Max | Min => {
                if self.peek() != Some(Open) {
                    return self.operand();
                }
                self.i += 1;
                if self.peek() == Some(Close) {
                    self.i += 1;
                    return Ok(self.fail(at));
                }
                let mut best = self.level(0)?;
                while self.peek() == Some(Comma) {
                    self.i += 1;
                    let n = self.level(0)?;
                    best = match (best, n) {
                        (Val::Is(a), Val::Is(b)) => Val::Is(if (a < b) == (k == Max) { b } else { a }),
                        _ => Val::Some,
                    };
                }
                if self.peek() != Some(Close) {
                    return Err(No::Syntax);
                }
                self.i += 1;
                Ok(best)
            }
            _ => Err(No::Syntax),
        }
    }
    fn level(&mut self, l: u32) -> Ev {
        if l == 4 {
            return self.operand();
        }
        let mut a = self.level(l + 1)?;
        loop {
            let op = match (self.peek(), l) {
                (Some(o @ (Plus | Minus)), 0) | (Some(o @ (Times | Over)), 1) | (Some(o @ Mod), 2) | (Some(o @ Pow), 3) => o,
                _ => return Ok(a),
            };
            let at = self.i;
            self.i += 1;
            let b = self.level(l + 1)?;
            a = self.apply(op, at, a, b);
        }
    }
    pub fn line(&mut self) -> Ev {
        let v = self.level(0)?;
        if self.i < self.k.len() {
            return Err(No::Syntax);
        }
        if self.math {
            return Err(No::Math);
        }
        Ok(v)
    }
}
fn wordy(k: K) -> bool {
    matches!(k, Num | Var | Sqrt | Abs | Max | Min)
}
fn run(n: usize, kinds: &[K], spaces: bool) {
    let mut k = Vec::new();
    for _ in 0..n {
        k.push(kinds[pick("token", 0, kinds.len() as u64 - 1) as usize]);
    }
    go(&k, spaces, true)
}
fn go(k: &[K], spaces: bool, print: bool) {
    let n = k.len();
    // such a line would be a command
    assume(k[0] != Over);
    let spaced = spaces && pick("spaced", 0, 1) == 1;
    // powers, moduli and roots of fixed numbers
    let hard = k.iter().any(|x| matches!(x, Pow | Mod | Sqrt));
    let mut s = String::new();
    let mut v = Vec::new();
    let a = if hard { BigInt::from(4) } else { BigInt::from(u8s("a")) };
    let small = [3u8, 2, 4, 1, 2, 3, 0, 5];
    for i in 0..n {
        if i > 0 && (spaced || (wordy(k[i - 1]) && wordy(k[i]))) {
            s.push(' ');
        }
        let mut x = BigInt::zero();
        match k[i] {
            Num => {
                if hard {
                    let d = small[i % 8];
                    s.push((b'0' + d) as char);
                    x = BigInt::from(d);
                } else {
                    x = digits(&mut s, "digit", 1, 10);
                }
            }
            Var => {
                s.push_str("$a");
                x = a.clone();
            }
            Plus => s.push('+'),
            Minus => s.push('-'),
            Times => s.push('*'),
            Over => s.push('/'),
            Mod => s.push('%'),
            Pow => s.push('^'),
            Open => s.push('('),
            Close => s.push(')'),
            Comma => s.push(','),
            Assign => s.push('='),
            Sqrt => s.push_str("sqrt"),
            Abs => s.push_str("abs"),
            Max => s.push_str("max"),
            Min => s.push_str("min"),
        }
        v.push(BigRational::from(x));
    }
    let mut ses = Ses::new(args());
    let a = BigRational::from(a);
    let _ = ses.vars.update(Variable { name: "$a".to_string(), value: a.clone() }, None, None);
    let assigns = n >= 2 && k[0] == Var && k[1] == Assign;
    let mut target = "$a";
    let want = if assigns {
        Ref { k: &k[2..], v: &v[2..], i: 0, math: false, at: 0 }.line()
    } else {
        if !k.contains(&Assign) {
            // the exact value is read from a variable
            target = "$r";
            s = format!("$r={}", s);
        }
        Ref { k, v: &v, i: 0, math: false, at: 0 }.line()
    };
    let out = if print { ses.line(&s) } else { ses.eval(&s) };
    let now = ses.vars.get("$a".to_string(), None);
    let a_now = match now {
        Ok(Some(x)) => x.value,
        _ => {
            check(false, "a variable is lost");
            return;
        }
    };
    match (out, want) {
        (Out::Ok(_), Ok(w)) => {
            reach("value");
            let got = match ses.vars.get(target.to_string(), None) {
                Ok(Some(x)) => x.value,
                _ => {
                    check(false, "a value was assigned");
                    return;
                }
            };
            if let Val::Is(w) = w {
                check(got == w, "the value of the line by the grammar");
            }
            if target != "$a" {
                check(a_now == a, "no other variable changes");
            }
        }
        (Out::Input(..), Err(e)) => {
            match e {
                No::Syntax => reach("not derivable"),
                No::Math => reach("no value"),
            }
            check(a_now == a, "nothing is evaluated");
            check(matches!(ses.vars.get("$r".to_string(), None), Ok(None)), "nothing is assigned");
        }
        (Out::Ok(_), Err(_)) => check(false, "a line outside the grammar has a value"),
        (_, Ok(_)) => check(false, "a line of the grammar is rejected"),
        (Out::Runtime(_), _) => check(false, "no internal error"),
    }
}
const ALL: [K; 16] = [Num, Var, Plus, Minus, Times, Over, Mod, Pow, Open, Close, Comma, Assign, Sqrt, Abs, Max, Min];
/// All sequences of one to three tokens.
#[no_mangle]
pub extern "C" fn h_c03_seq3() {
    let n = pick("length", 1, 3) as usize;
    run(n, &ALL, true)
}
#[no_mangle]
pub extern "C" fn h_c03_seq4() {
    run(4, &ALL, false)
}
#[no_mangle]
pub extern "C" fn h_c03_seq5() {
    run(5, &[Num, Minus, Times, Pow, Open, Close, Comma, Max, Sqrt], false)
}
#[no_mangle]
pub extern "C" fn h_c03_seq6() {
    run(6, &[Num, Minus, Open, Close, Comma, Min], false)
}
/// Lines with assignments
#[no_mangle]
pub extern "C" fn h_c03_assign() {
    run(5, &[Num, Var, Assign, Minus, Open, Close], false)
}
#[no_mangle]
pub extern "C" fn h_c03_assign8() {
    let mut k = vec![Var, Assign];
    for _ in 0..6 {
        k.push([Num, Var, Assign, Comma, Minus, Max][pick("token", 0, 5) as usize]);
    }
    go(&k, false, false)
}
/// Operands with up to one sign, joined by four operators.
#[no_mangle]
pub extern "C" fn h_c03_chain() {
    let ops = [Plus, Minus, Times, Over, Mod, Pow];
    let mut k = Vec::new();
    for i in 0..4 {
        if i > 0 {
            k.push(ops[pick("op", 0, 5) as usize]);
        }
        if pick("minus", 0, 1) == 1 {
            k.push(Minus);
        }
        k.push(Num);
    }
    go(&k, false, false)
}
/// Two operators with brackets around every part.
#[no_mangle]
pub extern "C" fn h_c03_groups() {
    let ops = [Plus, Minus, Times, Over, Mod, Pow];
    let (a, b) = (ops[pick("op", 0, 5) as usize], ops[pick("op", 0, 5) as usize]);
    let lead: &[K] = [&[][..], &[Minus], &[Abs], &[Max], &[Sqrt]][pick("lead", 0, 4) as usize];
    let mut k = Vec::new();
    match pick("shape", 0, 3) {
        0 => {
            k.extend_from_slice(lead);
            k.extend_from_slice(&[Open, Num, a, Num, Close, b, Num]);
        }
        1 => {
            k.extend_from_slice(&[Num, a]);
            k.extend_from_slice(lead);
            k.extend_from_slice(&[Open, Num, b, Num, Close]);
        }
        2 => {
            k.extend_from_slice(&[Num, a]);
            k.extend_from_slice(lead);
            k.extend_from_slice(&[Num, b, Num]);
        }
        _ => {
            k.extend_from_slice(&[Num, a, Max, Open, Num, b, Num, Comma]);
            k.extend_from_slice(lead);
            k.extend_from_slice(&[Num, Close]);
        }
    }
    go(&k, false, false)
}
/// A line without variables has the value of the grammar (its operands are fixed numbers).
fn fixed(k: &[K]) {
    let small = [3u8, 2, 4, 1, 2, 3, 7, 5];
    let mut s = String::from("$r=");
    let mut v = Vec::new();
    for i in 0..k.len() {
        let mut x = BigInt::zero();
        match k[i] {
            Num => {
                let d = small[(i / 2 + i / 14) % 8];
                s.push((b'0' + d) as char);
                x = BigInt::from(d);
            }
            Plus => s.push('+'),
            Minus => s.push('-'),
            Times => s.push('*'),
            Over => s.push('/'),
            Mod => s.push('%'),
            Pow => s.push('^'),
            Open => s.push('('),
            Close => s.push(')'),
            Comma => s.push(','),
            Max => s.push_str("max"),
            Min => s.push_str("min"),
            Abs => s.push_str("abs"),
            _ => {}
        }
        v.push(BigRational::from(x));
    }
    let want = Ref { k, v: &v, i: 0, math: false, at: 0 }.line();
    let mut ses = Ses::new(args());
    match (ses.eval(&s), want) {
        (Out::Ok(_), Ok(w)) => {
            reach("value");
            match (ses.vars.get("$r".to_string(), None), w) {
                (Ok(Some(x)), Val::Is(w)) => check(x.value == w, "the value of the line by the grammar"),
                (Ok(Some(_)), _) => {}
                _ => check(false, "a value was assigned"),
            }
        }
        (Out::Input(..), Err(_)) => reach("no value"),
        (Out::Ok(_), Err(_)) => check(false, "a line outside the grammar has a value"),
        _ => check(false, "a line of the grammar is rejected"),
    }
}
/// Long chains: one operator with another one at two places.
#[no_mangle]
pub extern "C" fn h_c03_long() {
    let ops = [Plus, Minus, Times, Over, Mod, Pow];
    let n = [10usize, 17, 40][pick("operands", 0, 2) as usize];
    let a = ops[pick("op", 0, 3) as usize];
    let b = ops[pick("op", 0, 5) as usize];
    let i = pick("first", 1, 9) as usize;
    let j = n - pick("last", 1, 5) as usize;
    let minus = pick("minus", 0, 9) as usize;
    let mut k = Vec::new();
    for o in 0..n {
        if o > 0 {
            k.push(if o == i || o == j { b } else { a });
        }
        if minus > 0 && o == minus - 1 {
            k.push(Minus);
        }
        k.push(Num);
    }
    fixed(&k)
}
/// Deeply nested groups and calls
#[no_mangle]
pub extern "C" fn h_c03_nested() {
    let ops = [Plus, Minus, Times, Over, Mod];
    let n = [4usize, 7, 12, 33][pick("depth", 0, 3) as usize];
    let (a, b) = (ops[pick("op", 0, 4) as usize], ops[pick("op", 0, 4) as usize]);
    let lead: &[K] = [&[][..], &[Minus], &[Abs], &[Max]][pick("lead", 0, 3) as usize];
    let call = lead == [Max];
    let mut k = Vec::new();
    let shape = pick("shape", 0, 2);
    // one closing parenthesis more or less
    let odd = pick("odd", 0, 2);
    if shape == 0 {
        for _ in 0..n {
            k.extend_from_slice(lead);
            k.push(Open);
        }
        k.push(Num);
        for i in 0..n {
            k.push(if i % 2 == 0 { a } else { b });
            k.push(Num);
            if call {
                k.push(Comma);
                k.push(Num);
            }
            k.push(Close);
        }
    } else {
        for i in 0..n {
            k.push(Num);
            k.push(if i % 2 == 0 { a } else { b });
            k.extend_from_slice(lead);
            k.push(Open);
        }
        k.push(Num);
        for i in 0..n {
            if call {
                k.push(Comma);
                k.push(Num);
            }
            k.push(Close);
            if shape == 2 {
                k.push(if i % 2 == 0 { b } else { a });
                k.push(Num);
            }
        }
    }
    match odd {
        1 => k.push(Close),
        2 => {
            let mut p = k.len() - 1;
            while k[p] != Close {
                p -= 1;
            }
            k.remove(p);
        }
        _ => {}
    }
    fixed(&k)
}
