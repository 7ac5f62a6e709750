//! C11: database updates are all-or-nothing.
use super::db::*;
use super::ses::*;
use super::sym::*;
use super::util::*;
use num::{BigInt, BigRational, One, Zero};

#[derive(Clone)]
struct State {
    saved: Saved,
    /// the value of $a
    a: Option<i64>,
    /// $a is compared
    known: bool,
}
/// What a session just opened finds.
struct Found {
    lines: Vec<String>,
    cap: Option<i64>,
    a: Option<BigRational>,
}
fn look(s: &mut Ses) -> Found {
    let lines = recall(s);
    let cap = capacity(s);
    let a = s.value_db("$a");
    Found { lines, cap, a }
}
fn is(f: &Found, st: &State) -> bool {
    let a = match (&f.a, st.a) {
        (None, None) => true,
        (Some(x), Some(y)) => *x == BigRational::from_integer(y.into()),
        _ => false,
    };
    (a || !st.known) && f.cap == Some(st.saved.cap as i64) && st.saved.recalled(&f.lines)
}
/// A later session finds one of the states; the history can be extended from there.
fn later(allowed: &[State]) {
    let mut s = session();
    let f = look(&mut s);
    let mut st = None;
    for (i, x) in allowed.iter().enumerate() {
        if is(&f, x) {
            reach(["the first state", "the second state", "the third state"][i % 3]);
            st = Some(x.clone());
            break;
        }
    }
    check(st.is_some(), "a later session finds the state before or after the operation");
    let mut st = match st {
        Some(s) => s,
        None => return,
    };
    check(s.submit("2").is_ok(), "the history can be extended");
    st.saved.add(b"2");
    end(s);
    let mut s = session();
    let f = look(&mut s);
    check(st.saved.recalled(&f.lines) && f.cap == Some(st.saved.cap as i64), "the history can be extended");
    end(s);
}
const OPS: u64 = 6;
fn prepare() -> State {
    data_dir();
    let mut s = session();
    let mut st = State { saved: Saved::new(), a: None, known: true };
    // a history that is full or not
    let cap = [3u64, 100][pick("capacity", 0, 1) as usize];
    let l = format!("/histcap {}", cap);
    s.submit(&l);
    st.saved.add(l.as_bytes());
    st.saved.cap = cap as usize;
    let n = pick("lines", 0, 2);
    for _ in 0..n {
        let c = u8s("c");
        assume(c >= b'g' && c <= b'z');
        s.submit(super::c10::text(&[c]));
        st.saved.add(&[c]);
    }
    s.submit("$a=3");
    st.saved.add(b"$a=3");
    st.a = Some(3);
    end(s);
    st
}
fn states(st: &State, k: u64) -> Vec<State> {
    let mut v = vec![st.clone()];
    let l: &str = LINES[k as usize];
    let mut n = st.clone();
    n.saved.add(l.as_bytes());
    v.push(n.clone());
    match k {
        1 => n.a = Some(5),
        2 => n.saved.cap = 2,
        3 => n.a = None,
        5 => n.saved.cap = 5,
        _ => {}
    }
    n.saved.trim();
    v.push(n);
    v
}
const LINES: [&str; 6] = ["1", "$a=5", "/histcap 2", "/purgevar $a", "$a", "/histcap 5"];
fn crash(twice: bool, max: u64) {
    let st = prepare();
    let k = pick("operation", 0, OPS - 1);
    let mut s = session();
    let at = range("at", 0, max);
    inject(at, 1);
    let (o, how) = catch(|| s.submit(LINES[k as usize]).is_ok());
    let _ = inject_off();
    check(how != 1, "the line is no crash by itself");
    let all = states(&st, k);
    if how == 0 {
        reach("completed");
        check(o == Some(true), "the line succeeds");
        end(s);
        later(&all[2..]);
        return;
    }
    reach("killed");
    std::mem::forget(s);
    new_process();
    if twice {
        // and once more while the next session opens and records a line
        let at = range("again", 0, max);
        inject(at, 1);
        let (s, how) = catch(|| session());
        let _ = inject_off();
        if how == 2 {
            reach("killed again");
        }
        if let Some(s) = s {
            end(s);
        } else {
            new_process();
        }
    }
    later(&all);
}
#[no_mangle]
pub extern "C" fn h_c11_kill() {
    crash(false, 63)
}
#[no_mangle]
pub extern "C" fn h_c11_kill_twice() {
    crash(true, 63)
}
/// Killed while the database is opened, the first time and later
#[no_mangle]
pub extern "C" fn h_c11_open() {
    let fresh = boolean("fresh");
    let st = if fresh {
        data_dir();
        if boolean("directory") {
            let _ = std::fs::create_dir(tmpdir() + "/bcalc");
        }
        State { saved: Saved::new(), a: None, known: true }
    } else {
        prepare()
    };
    let at = range("at", 0, 63);
    inject(at, 1);
    let (s, how) = catch(|| session());
    let _ = inject_off();
    check(how != 1, "opening is no crash by itself");
    if how == 2 {
        reach("killed");
        new_process();
    } else {
        reach("completed");
        if let Some(s) = s {
            end(s);
        }
    }
    later(&[st]);
}
/// Opening fails
#[no_mangle]
pub extern "C" fn h_c11_open_error() {
    let fresh = boolean("fresh");
    let st = if fresh {
        data_dir();
        let _ = std::fs::create_dir(tmpdir() + "/bcalc");
        State { saved: Saved::new(), a: None, known: true }
    } else {
        prepare()
    };
    let at = range("at", 0, 63);
    inject(at, 2 + pick("full", 0, 1) as u32);
    let r = crate::saved_data::SavedData::open();
    let (_, hit) = inject_off();
    match r {
        Ok(db) => {
            reach("opened");
            check(db.is_some(), "the database is used");
            drop(db);
        }
        Err(_) => {
            reach("refused");
            check(hit, "the database can be opened");
        }
    }
    new_process();
    later(&[st]);
}
/// Many lines are evicted at once, or a line takes several pages
fn many(mode: u32) {
    data_dir();
    let mut s = session();
    let mut st = State { saved: Saved::new(), a: None, known: true };
    let n = [12usize, 40][pick("lines", 0, 1) as usize];
    for i in 0..n {
        let l = format!("x{:0>300}", i);
        s.submit(&l);
        st.saved.add(l.as_bytes());
    }
    end(s);
    let mut s = session();
    let long = format!("{}1", " ".repeat(9000));
    let k = pick("operation", 0, 1);
    let l: &str = if k == 0 { "/histcap 2" } else { &long };
    let at = range("at", 0, 255);
    inject(at, mode);
    let (o, how) = catch(|| s.submit(l).is_ok());
    let (_, hit) = inject_off();
    check(how != 1, "the line is no crash by itself");
    let mut all = vec![st.clone()];
    let mut n = st.clone();
    n.saved.add(l.as_bytes());
    all.push(n.clone());
    if k == 0 {
        n.saved.cap = 2;
        n.saved.trim();
    }
    all.push(n);
    if how == 2 {
        reach("killed");
        std::mem::forget(s);
        new_process();
        later(&all);
    } else {
        end(s);
        if o == Some(true) {
            reach("completed");
            later(&all[2..]);
        } else {
            reach("failed");
            check(hit, "the line succeeds");
            later(&all);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c11_many() {
    many(1)
}
#[no_mangle]
pub extern "C" fn h_c11_many_error() {
    many(2 + pick("full", 0, 1) as u32)
}
/// The session goes on after the failure
#[no_mangle]
pub extern "C" fn h_c11_go_on() {
    let st = prepare();
    let k = pick("operation", 0, OPS - 1);
    let mut s = session();
    let at = range("at", 0, 63);
    inject(at, 2 + pick("full", 0, 1) as u32);
    let o = s.submit(LINES[k as usize]);
    let (_, hit) = inject_off();
    assume(hit);
    let all = states(&st, k);
    let mut from = if o.is_ok() { all[2..].to_vec() } else { all };
    let p = s.submit("4");
    reach(if p.is_ok() { "recorded" } else { "refused" });
    end(s);
    let mut more = vec![];
    for x in &from {
        let mut n = x.clone();
        n.saved.add(b"4");
        // the line that assigned $a may have gone
        n.known = false;
        more.push(n);
    }
    if p.is_ok() {
        from = more;
    } else {
        from.append(&mut more);
    }
    later(&from);
}
/// A call of the operating system fails
fn fail(mode: u32, max: u64) {
    let st = prepare();
    let k = pick("operation", 0, OPS - 1);
    let mut s = session();
    let at = range("at", 0, max);
    inject(at, mode);
    let o = s.submit(LINES[k as usize]);
    let (_, hit) = inject_off();
    let all = states(&st, k);
    if !hit {
        reach("completed");
        check(o.is_ok(), "the line succeeds");
        end(s);
        later(&all[2..]);
    } else {
        if o.is_ok() {
            reach("in spite of it");
            end(s);
            later(&all[2..]);
        } else {
            reach("failed");
            end(s);
            later(&all);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c11_error() {
    fail(2, 63)
}
#[no_mangle]
pub extern "C" fn h_c11_full() {
    fail(3, 63)
}
