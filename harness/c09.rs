//! C09: saved variables survive sessions exactly.
use super::db::*;
use super::ses::*;
use super::sym::*;
use super::util::*;
use num::{BigInt, BigRational, One, Zero};

/// What is saved of a variable: its value and the number of the last line that mentioned it.
#[derive(Clone)]
struct Var {
    mem: Option<i64>,
    db: Option<(i64, usize)>,
}
struct Model {
    vars: [Var; 2],
    /// numbers of the saved lines
    lines: Vec<usize>,
    count: usize,
    cap: usize,
}
impl Model {
    fn new() -> Model {
        let v = Var { mem: None, db: None };
        Model { vars: [v.clone(), v], lines: vec![], count: 0, cap: 100 }
    }
    fn trim(&mut self) {
        while self.lines.len() > self.cap {
            let id = self.lines.remove(0);
            for v in self.vars.iter_mut() {
                if let Some((_, last)) = v.db {
                    if last == id {
                        v.db = None;
                        reach("evicted");
                    }
                }
            }
        }
    }
    fn record(&mut self) {
        self.lines.push(self.count);
        self.count += 1;
        self.trim();
    }
    fn mention(&mut self, i: usize) {
        let id = self.count - 1;
        if let Some(d) = self.vars[i].db.as_mut() {
            d.1 = id;
        }
    }
    fn assign(&mut self, i: usize, v: i64) {
        self.vars[i] = Var { mem: Some(v), db: Some((v, self.count - 1)) };
    }
    /// The value a line sees.
    fn read(&mut self, i: usize) -> Option<i64> {
        let v = &mut self.vars[i];
        if v.mem.is_none() {
            v.mem = v.db.map(|d| d.0);
        }
        v.mem
    }
}
const NAMES: [&str; 2] = ["$a", "$b"];
const REOPEN: u8 = 100;
/// Numerators: values are n/7.
fn shown(o: &Out, v: Option<i64>, m: &str) {
    match v {
        // printed as a fraction
        Some(v) => check(is_sevenths(o, v), m),
        None => check(!o.is_ok(), "a variable that is not there is an error"),
    }
}
fn is_sevenths(o: &Out, v: i64) -> bool {
    // v is 1..=6: already reduced
    let t = o.text().as_bytes();
    o.is_ok() & (t.len() == 3) && (t[0] as i64 == 48 + v) & (t[1] == b'/') & (t[2] == b'7')
}
fn step(s: &mut Ses, m: &mut Model, kind: u8) {
    let d = |n: &str| range(n, 1, 6) as i64;
    let put = |name: &str, v: i64| format!("{}={}/7", name, (48 + v as u8) as char);
    match kind {
        0 | 1 => {
            let i = kind as usize;
            let v = d("value");
            let o = s.submit(&put(NAMES[i], v));
            m.record();
            m.mention(i);
            m.assign(i, v);
            shown(&o, Some(v), "an assignment yields the value");
        }
        2 | 3 => {
            let i = kind as usize - 2;
            let o = s.submit(NAMES[i]);
            m.record();
            m.mention(i);
            let v = m.read(i);
            if m.vars[i].mem.is_some() {
                reach("used");
            }
            shown(&o, v, "a variable keeps its value");
        }
        4 | 5 => {
            let i = kind as usize - 4;
            let o = s.submit(if i == 0 { "/purgevar $a" } else { "/purgevar $b" });
            m.record();
            check(o.is_ok(), "the variable is purged");
            m.vars[i] = Var { mem: None, db: None };
        }
        6 => {
            let o = s.submit("1");
            m.record();
            check(o.is_ok(), "the line is evaluated");
        }
        7 => {
            let o = s.submit("$a=1/0");
            m.record();
            m.mention(0);
            check(!o.is_ok(), "the line is an error");
        }
        8 => {
            let o = s.submit("$a+");
            m.record();
            m.mention(0);
            check(!o.is_ok(), "the line is an error");
        }
        9 => {
            let o = s.submit("/reloadvar $a");
            m.record();
            if let Some((v, _)) = m.vars[0].db {
                m.vars[0].mem = Some(v);
            }
            m.mention(0);
            check(o.is_ok(), "the variable is reloaded");
        }
        10 | 11 | 12 => {
            let n = kind as usize - 9;
            let o = s.submit(["/histcap 1", "/histcap 2", "/histcap 3"][n - 1]);
            m.record();
            check(o.is_ok(), "the capacity is set");
            m.cap = n;
            m.trim();
        }
        13 => {
            let o = s.submit("$b=$a");
            m.record();
            m.mention(0);
            m.mention(1);
            let v = m.read(0);
            if let Some(v) = v {
                m.assign(1, v);
            }
            shown(&o, v, "an assignment yields the value");
        }
        _ => {
            // several variables at once
            let o = s.submit("/purgevar $a $b");
            m.record();
            check(o.is_ok(), "the variables are purged");
            m.vars[0] = Var { mem: None, db: None };
            m.vars[1] = Var { mem: None, db: None };
        }
    }
}
fn fresh(m: &mut Model) -> Ses {
    for v in m.vars.iter_mut() {
        v.mem = None;
    }
    let mut s = session();
    s.args.fractional = true;
    s
}
fn run(steps: usize, kinds: &[u8]) {
    data_dir();
    let mut m = Model::new();
    let mut s = fresh(&mut m);
    for _ in 0..steps {
        let k = kinds[pick("kind", 0, kinds.len() as u64 - 1) as usize];
        if k == REOPEN {
            end(s);
            s = fresh(&mut m);
            reach("reopened");
        } else {
            step(&mut s, &mut m, k);
        }
    }
    end(s);
    // what a later session sees
    let mut s = fresh(&mut m);
    let k = 2 + pick("look", 0, 1) as u8;
    step(&mut s, &mut m, k);
    end(s);
    reach("compared");
}
#[no_mangle]
pub extern "C" fn h_c09_three() {
    run(3, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, REOPEN])
}
#[no_mangle]
pub extern "C" fn h_c09_five() {
    run(5, &[0, 2, 6, 11, REOPEN])
}
#[no_mangle]
pub extern "C" fn h_c09_four() {
    run(4, &[0, 1, 2, 4, 9, 10, 11, 13, REOPEN])
}
/// Values: typed lines with every digit symbolic
#[no_mangle]
pub extern "C" fn h_c09_values() {
    data_dir();
    let (n, tail) = [(5usize, ""), (20, ""), (3, "/7"), (6, "/1000"), (2, "/12"), (4, ".375"), (60, ""), (200, "")][pick("shape", 0, 7) as usize];
    let mut e = String::new();
    if boolean("negative") {
        e.push('-');
    }
    let w = from_set("whole", n, b"0123456789");
    assume(w.as_bytes()[0] != b'0');
    e += &w;
    e += tail;
    let mut s = session();
    s.args.fractional = true;
    s.args.precision = 20;
    s.args.radix = 10;
    let o = s.submit(&format!("$x={}", e));
    check(o.is_ok(), "the line is evaluated");
    end(s);
    let mut s = session();
    s.args.fractional = true;
    s.args.radix = [10u8, 16][pick("radix", 0, 1) as usize];
    s.args.convert_to_radix = Some(10);
    let p = s.submit("$x");
    check(p.is_ok() && eq(p.text().as_bytes(), o.text().as_bytes()), "a later session sees exactly the value");
    reach("compared");
    end(s);
}
/// Names: every two names
#[no_mangle]
pub extern "C" fn h_c09_names() {
    data_dir();
    let name = |n: &str| -> String {
        let k = pick("length", 0, 3) as usize;
        let mut v = vec![b'$'];
        for _ in 0..k {
            let c = u8s(n);
            // what a name is made of
            assume(c > 0 && c < 128 && c != 11);
            for x in b" \t\n\r\x0c+-*/%^(),=" {
                assume(c != *x);
            }
            v.push(c);
        }
        unsafe { String::from_utf8_unchecked(v) }
    };
    two_names(name("first"), name("second"))
}
/// Long names that are the same but for one character
#[no_mangle]
pub extern "C" fn h_c09_long_names() {
    data_dir();
    let n = [16usize, 17, 33, 64, 65, 129, 256, 257, 1000][pick("length", 0, 8) as usize];
    let i = [1usize, n / 2, n - 1][pick("place", 0, 2) as usize];
    let name = |c: &str| -> String {
        let mut v = vec![b'v'; n];
        v[0] = b'$';
        let c = u8s(c);
        assume(c >= b'!' && c < 127);
        for x in b"+-*/%^(),=" {
            assume(c != *x);
        }
        v[i] = c;
        unsafe { String::from_utf8_unchecked(v) }
    };
    two_names(name("first"), name("second"))
}
fn two_names(a: String, b: String) {
    let mut s = session();
    check(s.submit(&format!("{}=1", a)).is_ok(), "the line is evaluated");
    check(s.submit(&format!("{}=2", b)).is_ok(), "the line is evaluated");
    end(s);
    let same = eq(a.as_bytes(), b.as_bytes());
    let mut s = session();
    let (x, y) = (s.submit(&a), s.submit(&b));
    if same {
        reach("same");
        check(x.is_ok() && eq(x.text().as_bytes(), b"2"), "a name holds what was assigned last");
    } else {
        reach("different");
        check(x.is_ok() && eq(x.text().as_bytes(), b"1"), "a name holds its own value");
    }
    check(y.is_ok() && eq(y.text().as_bytes(), b"2"), "a name holds its own value");
    end(s);
}
#[no_mangle]
pub extern "C" fn h_c09_six() {
    run(6, &[0, 2, 6, 11, REOPEN])
}
