//! C08: variables hold exactly what was last assigned.
use super::db::*;
use super::ses::*;
use super::sym::*;
use super::util::*;
use num::{BigInt, BigRational, One, Signed, ToPrimitive, Zero};

const NAMES: [&str; 4] = ["$a", "$b", "$ab", "$A"];
type Map = [Option<BigRational>; 4];

/// What a line does to the variables: the name assigned and its new value, if the line succeeds.
enum Does {
    Set(usize, BigRational),
    Show,
    Purge(usize),
    PurgeTwo(usize, usize),
    Other,
    Fail,
}
fn lit(s: &mut String, name: &str) -> BigInt {
    digits(s, name, 1, 10)
}
fn get(m: &Map, i: usize) -> Option<BigRational> {
    m[i].clone()
}
fn ratio(n: BigInt) -> BigRational {
    rat(n, BigInt::one())
}
/// One line of kind `k` about the names `n` and `m`; appends to `s`.
fn line(k: u64, s: &mut String, n: usize, m: usize, v: &Map) -> Does {
    let (ns, ms) = (NAMES[n], NAMES[m]);
    match k {
        // assignments that succeed
        0 => {
            s.push_str(ns);
            s.push('=');
            Does::Set(n, ratio(lit(s, "d")))
        }
        1 => {
            s.push_str(&format!(" {} = {} + ", ns, ms));
            let x = ratio(lit(s, "d"));
            match get(v, m) {
                Some(y) => Does::Set(n, y + x),
                None => Does::Fail,
            }
        }
        2 => {
            s.push_str(&format!("{} = {} / ", ns, ms));
            let x = lit(s, "d");
            match get(v, m) {
                Some(y) => {
                    if x.is_zero() {
                        Does::Fail
                    } else {
                        Does::Set(n, y / ratio(x))
                    }
                }
                None => Does::Fail,
            }
        }
        3 => {
            s.push_str(&format!("{}=max({},", ns, ms));
            let x = ratio(lit(s, "d"));
            s.push(')');
            match get(v, m) {
                Some(y) => Does::Set(n, if x > y { x } else { y }),
                None => Does::Fail,
            }
        }
        4 => {
            s.push_str(&format!("{}=-{}", ns, ms));
            match get(v, m) {
                Some(y) => Does::Set(n, -y),
                None => Does::Fail,
            }
        }
        // assignments that fail
        5 => {
            s.push_str(&format!("{}=({}", ns, ms));
            Does::Fail
        }
        6 => {
            s.push_str(&format!("{}={}={}", ns, ms, 7));
            Does::Fail
        }
        7 => {
            s.push_str(&format!("{}=", ns));
            Does::Fail
        }
        8 => {
            s.push_str(&format!("{}=(0-2)^(1/2)+{}", ns, ms));
            Does::Fail
        }
        9 => {
            s.push_str(&format!("{}=3+$none", ns));
            Does::Fail
        }
        10 => {
            s.push_str(&format!("{}=1;", ns));
            Does::Fail
        }
        11 => {
            s.push_str(&format!("1+({}=2)", ns));
            Does::Fail
        }
        // uses
        12 => {
            s.push_str(&format!("{}*{}", ns, ms));
            match (get(v, n), get(v, m)) {
                (Some(_), Some(_)) => Does::Show,
                _ => Does::Fail,
            }
        }
        13 => {
            s.push_str(ns);
            match get(v, n) {
                Some(_) => Does::Show,
                None => Does::Fail,
            }
        }
        // commands
        14 => {
            s.push_str(&format!("/purgevar {}", ns));
            Does::Purge(n)
        }
        15 => {
            s.push_str(&format!(" /purgevar {} {}", ns, ms));
            Does::PurgeTwo(n, m)
        }
        16 => {
            s.push_str(&format!("/purgevar {} 1", ns));
            Does::Fail
        }
        17 => {
            s.push_str("/purgevar");
            Does::Other
        }
        18 => {
            s.push_str(&format!("/precision {}", n));
            Does::Other
        }
        19 => {
            s.push_str("/radix 16");
            Does::Other
        }
        20 => {
            s.push_str("/fractional true");
            Does::Other
        }
        21 => {
            s.push_str(&format!("/reloadvar {}", ns));
            Does::Fail
        }
        _ => Does::Other,
    }
}
fn same(ses: &mut Ses, i: usize, want: &Option<BigRational>) {
    let got = match ses.vars.get(NAMES[i].to_string(), None) {
        Ok(g) => g,
        Err(_) => {
            check(false, "reading a variable does not fail");
            return;
        }
    };
    match (got, want) {
        (Some(g), Some(w)) => {
            check(g.name == NAMES[i], "the variable has its name");
            check(g.value == *w, "a variable holds exactly what was last assigned")
        }
        (None, None) => {}
        (Some(_), None) => check(false, "a name that was never assigned has no value"),
        (None, Some(_)) => check(false, "an assigned variable has a value"),
    }
}
fn run(kinds: &[u64], lines: usize, names: u64, print: bool) {
    let mut ses = Ses::new(args());
    let mut v: Map = [None, None, None, None];
    // any variables from before
    for i in 0..2 {
        if pick("before", 0, 1) == 1 {
            let x = rat(wide("v", 16, i == 1), BigInt::from([1, 3][i]));
            let w = crate::variable::Variable { name: NAMES[i].to_string(), value: x.clone() };
            check(ses.vars.update(w, None, None).is_ok(), "an assignment does not fail");
            v[i] = Some(x);
        }
    }
    for _ in 0..lines {
        let k = kinds[pick("kind", 0, kinds.len() as u64 - 1) as usize];
        let n = pick("n", 0, names - 1) as usize;
        let m = if matches!(k, 0 | 7 | 9 | 10 | 11 | 13 | 14 | 16 | 17 | 19 | 20 | 21) { 0 } else { pick("m", 0, names - 1) as usize };
        let mut s = String::new();
        let d = line(k, &mut s, n, m, &v);
        let o = if print || s.trim_start().starts_with('/') { ses.line(&s) } else { ses.eval(&s) };
        match d {
            Does::Set(i, x) => {
                reach("assigned");
                check(o.is_ok(), "the assignment succeeds");
                v[i] = Some(x);
            }
            Does::Show | Does::Other => {
                reach("other");
                check(o.is_ok(), "the line succeeds")
            }
            Does::Purge(i) => {
                check(o.is_ok(), "purging succeeds");
                v[i] = None;
            }
            Does::PurgeTwo(i, j) => {
                check(o.is_ok(), "purging succeeds");
                v[i] = None;
                v[j] = None;
            }
            Does::Fail => {
                reach("refused");
                check(!o.is_ok(), "the line is refused")
            }
        }
        // a radix of 16 reads the digits alike, but keep the lines that follow simple
        ses.args.radix = 10;
        for i in 0..4 {
            same(&mut ses, i, &v[i]);
        }
    }
    // reading them in an expression
    for i in 0..2 {
        match value_in(&mut ses, NAMES[i]) {
            Ok(x) => match &v[i] {
                Some(w) => check(x == *w, "a use yields exactly the value assigned"),
                None => check(false, "using a name never assigned is an error"),
            },
            Err(o) => check(v[i].is_none() && o.is_input(), "a use of an assigned variable succeeds"),
        }
    }
}
fn value_in(ses: &mut Ses, s: &str) -> Result<BigRational, Out> {
    use crate::syntax_tree::SyntaxTree;
    use crate::token::ParsedInput;
    let t = match ses.tk.tokenize(s, ses.args.radix) {
        Ok(ParsedInput::Tokens(t)) => t,
        _ => return Err(Out::Runtime("no tokens".into())),
    };
    match SyntaxTree::new(t.into()) {
        Ok(st) => st.execute(None, Some(&mut ses.vars), None, &ses.args).map_err(|e| conv(Err(e))),
        Err(e) => Err(conv(Err(e.into()))),
    }
}
#[no_mangle]
pub extern "C" fn h_c08_one() {
    run(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21], 1, 4, true)
}
#[no_mangle]
pub extern "C" fn h_c08_two() {
    run(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21], 2, 4, false)
}
#[no_mangle]
pub extern "C" fn h_c08_three() {
    run(&[0, 1, 2, 4, 6, 9, 11, 14, 15, 19], 3, 2, false)
}
#[no_mangle]
pub extern "C" fn h_c08_four() {
    run(&[0, 1, 2, 6, 14], 4, 2, false)
}
fn plain(c: u8) -> bool {
    c.is_ascii() && c > 32 && c != 127 && !b"+-*/%^()=,".contains(&c)
}
/// Any two names: what is assigned to one is the other's value exactly if they are the same.
fn names(la: usize, lb: usize) {
    let mut s = vec![b'$'];
    for _ in 0..la {
        let c = u8s("a");
        assume(plain(c));
        s.push(c);
    }
    let mut t = vec![b'$'];
    for _ in 0..lb {
        let c = u8s("b");
        assume(plain(c));
        t.push(c);
    }
    pair(s, t)
}
/// Long names that are the same but for one character.
#[no_mangle]
pub extern "C" fn h_c08_long_names() {
    let n = [8usize, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000][pick("length", 0, 17) as usize];
    let mut s = vec![b'v'; n];
    s[0] = b'$';
    let mut t = s.clone();
    let i = [1usize, n / 2, n - 1][pick("place", 0, 2) as usize];
    let (c, d) = (u8s("a"), u8s("b"));
    assume(plain(c) && plain(d));
    s[i] = c;
    t[i] = d;
    // or one character longer
    if pick("longer", 0, 1) == 1 {
        t.push(d);
    }
    pair(s, t)
}
fn pair(s: Vec<u8>, t: Vec<u8>) {
    let mut ses = Ses::new(args());
    let same = s == t;
    let (s, t) = unsafe { (String::from_utf8_unchecked(s), String::from_utf8_unchecked(t)) };
    let mut l = String::from(s.as_str());
    l.push('=');
    let x = ratio(lit(&mut l, "x"));
    check(ses.line(&l).is_ok(), "any name can be assigned");
    match pick("then", 0, 2) {
        // the other is assigned
        0 => {
            let mut l = String::from(t.as_str());
            l.push_str(" = ");
            let y = ratio(lit(&mut l, "y"));
            check(ses.line(&l).is_ok(), "any name can be assigned");
            match value_in(&mut ses, &s) {
                Ok(v) => check(v == if same { y.clone() } else { x }, "other names are unaffected"),
                Err(_) => check(false, "an assigned variable has a value"),
            }
            match value_in(&mut ses, &t) {
                Ok(v) => check(v == y, "a variable holds exactly what was last assigned"),
                Err(_) => check(false, "an assigned variable has a value"),
            }
        }
        // the other is used
        1 => match value_in(&mut ses, &t) {
            Ok(v) => {
                reach("same");
                check(same, "a name never assigned has no value");
                check(v == x, "a variable holds exactly what was last assigned");
            }
            Err(o) => {
                reach("different");
                check(!same, "an assigned variable has a value");
                check(o.is_input(), "using a name never assigned is an error");
            }
        },
        // the other is purged
        _ => {
            let l = format!("/purgevar {}", t);
            check(ses.line(&l).is_ok(), "any variable can be purged");
            match value_in(&mut ses, &s) {
                Ok(v) => check(!same && v == x, "other names are unaffected"),
                Err(_) => check(same, "a variable is only lost when it is purged"),
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c08_names() {
    let la = pick("la", 0, 3) as usize;
    let lb = pick("lb", 0, 3) as usize;
    names(la, lb)
}
/// Values: any rational survives, whatever the settings that display it.
#[no_mangle]
pub extern "C" fn h_c08_values() {
    let mut a = args();
    a.precision = [0u8, 5][pick("precision", 0, 1) as usize];
    a.extra_precision = 0;
    a.fractional = boolean("fractional");
    a.convert_to_radix = [None, Some(2), Some(16)][pick("conv", 0, 2) as usize];
    let mut ses = Ses::new(a);
    let neg = boolean("negative");
    let n = if neg { -BigInt::from(u8s("n")) } else { BigInt::from(u8s("n")) };
    let den = [1u32, 3, 7, 1000][pick("denominator", 0, 3) as usize];
    let x = rat(n, BigInt::from(den));
    let w = crate::variable::Variable { name: "$x".to_string(), value: x.clone() };
    check(ses.vars.update(w, None, None).is_ok(), "an assignment does not fail");
    check(ses.line("$y=$x").is_ok(), "an assignment does not fail");
    check(ses.line("$y").is_ok(), "a use does not fail");
    match value_in(&mut ses, "$y") {
        Ok(v) => {
            reach("value");
            check(v == x, "a variable holds exactly what was last assigned")
        }
        Err(_) => check(false, "an assigned variable has a value"),
    }
}
/// With saved data: the variables are compared at the end only, so that they are in use or not as the lines leave them.
fn saved(steps: usize, kinds: &[u64]) {
    data_dir();
    let mut ses = session();
    let mut v: Map = [None, None, None, None];
    for _ in 0..steps {
        let k = kinds[pick("kind", 0, kinds.len() as u64 - 1) as usize];
        if k == 100 {
            end(ses);
            ses = session();
            continue;
        }
        let n = pick("n", 0, 1) as usize;
        let m = 1 - n;
        let mut s = String::new();
        let d = line(k, &mut s, n, m, &v);
        let o = ses.submit(&s);
        match d {
            Does::Set(i, x) => {
                reach("assigned");
                check(o.is_ok(), "the assignment succeeds");
                v[i] = Some(x);
            }
            Does::Show | Does::Other => check(o.is_ok(), "the line succeeds"),
            Does::Purge(i) => {
                reach("purged");
                check(o.is_ok(), "purging succeeds");
                v[i] = None;
            }
            Does::PurgeTwo(i, j) => {
                check(o.is_ok(), "purging succeeds");
                v[i] = None;
                v[j] = None;
            }
            Does::Fail => {
                reach("refused");
                check(!o.is_ok(), "the line is refused")
            }
        }
    }
    for i in 0..2 {
        let x = ses.value_db(NAMES[i]);
        match (&x, &v[i]) {
            (Some(x), Some(w)) => check(x == w, "a use yields exactly the value assigned"),
            (None, None) => {}
            (Some(_), None) => check(false, "a purged or never assigned name has no value"),
            (None, Some(_)) => check(false, "an assigned variable has a value"),
        }
    }
    end(ses);
}
#[no_mangle]
pub extern "C" fn h_c08_saved3() {
    saved(3, &[0, 1, 5, 13, 14, 15, 19, 100])
}
#[no_mangle]
pub extern "C" fn h_c08_saved4() {
    saved(4, &[0, 4, 14, 100])
}
