use super::sym::*;
use crate::commands::CommandExecutor;
use crate::error::CalculatorFailure;
use crate::token::Tokenizer;
use crate::variable::VariableStore;
use crate::Args;

pub fn args() -> Args {
    Args {
        radix: 10,
        input: None,
        alternate_screen: false,
        no_db: true,
        convert_to_radix: None,
        precision: 5,
        extra_precision: 10,
        fractional: false,
        commas: false,
        upper: false,
    }
}
fn run(s: &str) -> Result<String, String> {
    let mut a = args();
    let tk = Tokenizer::new();
    let mut ce = CommandExecutor::new();
    let mut vars = VariableStore::new();
    match crate::calculate(s, &mut a, &tk, &mut ce, None, None, Some(&mut vars)) {
        Ok(s) => Ok(s),
        Err(CalculatorFailure::InputError(m)) => Err(m.value),
        Err(CalculatorFailure::RuntimeError(e)) => Err(e.to_string()),
    }
}
#[no_mangle]
pub extern "C" fn h_smoke_concrete() {
    for s in ["1+2*3", "sqrt 2", "$a=5", "1/3", "2^100", "/radix 16", "/help", "1+", "abs(-7)%4", "max(1,2,3)-min(4,5)"] {
        match run(s) {
            Ok(r) => note(&format!("{} -> {}", s, r)),
            Err(r) => note(&format!("{} -> error {}", s, r)),
        }
    }
}
#[no_mangle]
pub extern "C" fn h_smoke1() {
    let n = pick("n", 0, 3);
    let s = ascii("c", n as usize);
    let _ = run(&s);
    reach("done");
}
