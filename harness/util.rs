//! Shared by the harnesses: running lines, reference arithmetic.
use super::sym::*;
use crate::error::CalculatorFailure;
use crate::position::Position;
use crate::syntax_tree::SyntaxTree;
use crate::token::{ParsedInput, Tokenizer};
use crate::Args;
use num::{BigInt, BigRational, One, Signed, Zero};

pub fn args() -> Args {
    Args {
        radix: 10,
        input: None,
        alternate_screen: false,
        no_db: true,
        convert_to_radix: None,
        precision: 5,
        extra_precision: 10,
        fractional: false,
        commas: false,
        upper: false,
    }
}

pub enum Out {
    Ok(String),
    Input(String, Option<Position>),
    Runtime(String),
}
impl Out {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_input(&self) -> bool {
        matches!(self, Out::Input(..))
    }
    pub fn text(&self) -> &str {
        match self {
            Out::Ok(s) | Out::Input(s, _) | Out::Runtime(s) => s,
        }
    }
}

pub fn conv(r: Result<String, CalculatorFailure>) -> Out {
    match r {
        Ok(s) => Out::Ok(s),
        Err(CalculatorFailure::InputError(m)) => Out::Input(m.value, m.maybe_position),
        Err(CalculatorFailure::RuntimeError(e)) => Out::Runtime(e.to_string()),
    }
}
/// The exact value of a line, or the failure.
pub fn value(s: &str, a: &Args) -> Result<BigRational, Out> {
    let tk = Tokenizer::new();
    let tokens = match tk.tokenize(s, a.radix) {
        Ok(ParsedInput::Tokens(t)) => t,
        Ok(ParsedInput::Command(_)) => return Err(Out::Runtime("command".into())),
        Err(e) => return Err(conv(Err(e.into()))),
    };
    let st = match SyntaxTree::new(tokens.into()) {
        Ok(s) => s,
        Err(e) => return Err(conv(Err(e.into()))),
    };
    match st.execute(None, None, None, a) {
        Ok(v) => Ok(v),
        Err(e) => Err(conv(Err(e))),
    }
}
pub fn int(x: u64) -> BigInt {
    BigInt::from(x)
}
pub fn rat(n: BigInt, d: BigInt) -> BigRational {
    BigRational::new(n, d)
}
/// Decimal text of a byte.
pub fn dec(x: u64) -> String {
    x.to_string()
}
/// A literal of `n` symbolic digits (any digits) in a radix up to 10, appended to `s`; its value.
pub fn digits(s: &mut String, name: &str, n: usize, radix: u8) -> BigInt {
    let mut v = BigInt::zero();
    for _ in 0..n {
        let c = u8s(name);
        assume(c >= b'0' && c < b'0' + radix);
        v = v * BigInt::from(radix) + BigInt::parse_bytes(&[c], radix as u32).unwrap();
        s.push(c as char);
    }
    v
}
/// Runs a value through a fixed set of settings: 0 = the defaults.
pub fn pick_settings(a: &mut Args) {
    match pick("settings", 0, 2) {
        0 => {}
        1 => {
            a.precision = 0;
            a.extra_precision = 0;
            a.fractional = true;
            a.convert_to_radix = Some(2);
        }
        _ => {
            a.precision = 255;
            a.extra_precision = 255;
            a.commas = true;
            a.upper = true;
            a.convert_to_radix = Some(16);
        }
    }
}
use crate::position::Positioned;
use crate::token::Token;
/// The value of a token sequence.
pub fn eval_tokens(tokens: Vec<Token>, a: &Args) -> Result<BigRational, Out> {
    let v: Vec<Positioned<Token>> =
        tokens.into_iter().enumerate().map(|(i, t)| Positioned::new_raw(t, 2 * i, 1)).collect();
    let st = match SyntaxTree::new(v.into()) {
        Ok(s) => s,
        Err(e) => return Err(conv(Err(e.into()))),
    };
    match st.execute(None, None, None, a) {
        Ok(v) => Ok(v),
        Err(e) => Err(conv(Err(e))),
    }
}
/// A symbolic integer of `bits` bits (up to 128), negated if `neg`.
pub fn wide(name: &str, bits: u32, neg: bool) -> BigInt {
    let mut v = BigInt::from(input(name, bits.min(64)));
    if bits > 64 {
        v = v + BigInt::from(input(name, bits - 64)) * BigInt::from(1u128 << 64);
    }
    if neg {
        -v
    } else {
        v
    }
}
