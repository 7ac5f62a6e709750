//! C23: sessions that run at the same time do not disturb each other.
use super::db::*;
use super::ses::*;
use super::sym::*;
use super::util::*;
use num::BigRational;
use rusqlite::ffi;

extern "C" {
    fn open(p: *const u8, flags: i32, mode: i32) -> i32;
    fn access(p: *const u8, m: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn pwrite64(fd: i32, b: *const u8, n: usize, o: i64) -> isize;
    fn unlink(p: *const u8) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
}
/// Where the two sessions take turns.
struct Turns {
    on: bool,
    /// system calls so far
    n: u64,
    /// at these calls the other session goes on
    at: [u64; 3],
    /// how often a session waited for the other one
    waits: u32,
}
static mut TURNS: Turns = Turns { on: false, n: 0, at: [0; 3], waits: 0 };
fn turns() -> &'static mut Turns {
    unsafe { &mut *std::ptr::addr_of_mut!(TURNS) }
}
/// A system call: another process may run before it.
fn turn() {
    let t = turns();
    if t.on {
        t.n += 1;
        if t.n == t.at[0] || t.n == t.at[1] || t.n == t.at[2] {
            co_switch();
        }
    }
}
unsafe extern "C" fn t_open(p: *const u8, flags: i32, mode: i32) -> i32 {
    turn();
    open(p, flags, mode)
}
unsafe extern "C" fn t_access(p: *const u8, m: i32) -> i32 {
    turn();
    access(p, m)
}
unsafe extern "C" fn t_read(fd: i32, b: *mut u8, n: usize) -> isize {
    turn();
    read(fd, b, n)
}
unsafe extern "C" fn t_pread(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
    turn();
    pread64(fd, b, n, o)
}
unsafe extern "C" fn t_write(fd: i32, b: *const u8, n: usize) -> isize {
    turn();
    write(fd, b, n)
}
unsafe extern "C" fn t_pwrite(fd: i32, b: *const u8, n: usize, o: i64) -> isize {
    turn();
    pwrite64(fd, b, n, o)
}
unsafe extern "C" fn t_unlink(p: *const u8) -> i32 {
    turn();
    unlink(p)
}
unsafe extern "C" fn t_ftruncate(fd: i32, n: i64) -> i32 {
    turn();
    ftruncate(fd, n)
}
/// SQLite waits for a lock: the other session goes on.
unsafe extern "C" fn t_sleep(_v: *mut ffi::sqlite3_vfs, us: i32) -> i32 {
    let t = turns();
    if t.on {
        t.waits += 1;
        co_switch();
    }
    us
}
fn install() {
    unsafe {
        let vfs = ffi::sqlite3_vfs_find(std::ptr::null());
        let set = (*vfs).xSetSystemCall.unwrap();
        for (n, f) in [
            ("open\0", t_open as *const ()),
            ("access\0", t_access as *const ()),
            ("read\0", t_read as *const ()),
            ("pread\0", t_pread as *const ()),
            ("pread64\0", t_pread as *const ()),
            ("write\0", t_write as *const ()),
            ("pwrite\0", t_pwrite as *const ()),
            ("pwrite64\0", t_pwrite as *const ()),
            ("unlink\0", t_unlink as *const ()),
            ("ftruncate\0", t_ftruncate as *const ()),
        ] {
            let f: ffi::sqlite3_syscall_ptr = std::mem::transmute(f);
            set(vfs, n.as_ptr() as *const _, f);
        }
        (*vfs).xSleep = Some(t_sleep);
    }
}
/// Runs the two at the same time; the second starts at one of the first one's system calls.
fn together<R, F: FnOnce() -> R, G: FnOnce()>(f: F, g: G, switches: usize, max: u64) -> R {
    let t = turns();
    t.n = 0;
    for k in 0..3 {
        t.at[k] = if k < switches { range("at", 1, max) } else { 0 };
        if k > 0 && k < switches {
            assume(t.at[k - 1] < t.at[k]);
        }
    }
    t.waits = 0;
    co_start(g);
    t.on = true;
    let r = f();
    while co_switch() {}
    t.on = false;
    if t.waits > 0 {
        reach("waited");
    }
    // the last of the turns was taken
    if switches > 0 && t.n >= t.at[switches - 1] {
        reach("interrupted");
    }
    r
}
struct Op {
    line: Vec<u8>,
    cap: Option<usize>,
    /// assigns this to $a
    value: Option<BigRational>,
    purge: bool,
}
/// The line of session `k`
fn op(kinds: &[u64], k: usize) -> Op {
    let mut o = Op { line: vec![], cap: None, value: None, purge: false };
    match kinds[pick("kind", 0, kinds.len() as u64 - 1) as usize] {
        0 => {
            let d = 1 + k as u8;
            o.line = vec![b'$', b'a', b'=', b'0' + d];
            o.value = Some(BigRational::from(num::BigInt::from(d)));
        }
        1 => o.line = b"$a+1".to_vec(),
        2 => o.line = b"7".to_vec(),
        3 => {
            o.line = b"/histcap 2".to_vec();
            o.cap = Some(2);
        }
        4 => {
            o.line = b"/histcap 3".to_vec();
            o.cap = Some(3);
        }
        5 => {
            o.line = b"/purgevar $a".to_vec();
            o.purge = true;
        }
        6 => o.line = b"/histcap".to_vec(),
        7 => o.line = b"/reloadvar $a".to_vec(),
        _ => o.line = b"((".to_vec(),
    }
    o
}
fn lines_after(before: &[&[u8]], x: &Op, y: &Op) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = before.iter().map(|l| l.to_vec()).collect();
    v.push(x.line.clone());
    v.push(y.line.clone());
    v
}
fn fits(got: &[String], all: &[Vec<u8>], least: usize, cap: usize) -> bool {
    let n = got.len();
    // newest first
    n >= all.len().min(least) && n <= all.len().min(cap) && (0..n).all(|i| eq(got[i].as_bytes(), &all[all.len() - 1 - i]))
}
fn both(with: bool, kinds: &[u64], switches: usize, max: u64) {
    data_dir();
    install();
    let mut before: Vec<&[u8]> = vec![];
    let mut first = session();
    let mut old = None;
    if with {
        let _ = first.submit("$a=5");
        before.push(b"$a=5");
        old = Some(BigRational::from(num::BigInt::from(5)));
    }
    let mut a = first;
    let mut b = session();
    let (x, y) = (op(kinds, 0), op(kinds, 1));
    let text = |o: &Op| String::from_utf8(o.line.clone()).unwrap_or_default();
    let (sx, sy) = (text(&x), text(&y));
    let mut rb = None;
    let ra = {
        let (pb, pr): (*mut Ses, *mut Option<Out>) = (&mut b, &mut rb);
        together(|| a.submit(&sx), move || unsafe { *pr = Some((*pb).submit(&sy)) }, switches, max)
    };
    let ok = |o: &Out| !matches!(o, Out::Runtime(_));
    check(ok(&ra), "no line fails because of another session");
    match rb {
        Some(o) => check(ok(&o), "no line fails because of another session"),
        None => check(false, "both lines are evaluated"),
    }
    drop(a);
    drop(b);
    let mut s = session();
    let got = recall(&mut s);
    let cap = match capacity(&mut s) {
        Some(c) => c as usize,
        None => {
            check(false, "the capacity can be read");
            return;
        }
    };
    let caps = [x.cap, y.cap];
    check(
        if x.cap.is_none() && y.cap.is_none() { cap == 100 } else { caps.contains(&Some(cap)) },
        "the capacity is one that was set",
    );
    // a lower capacity may have been in force for a while
    let least = cap.min(x.cap.unwrap_or(cap)).min(y.cap.unwrap_or(cap));
    check(
        fits(&got, &lines_after(&before, &x, &y), least, cap) || fits(&got, &lines_after(&before, &y, &x), least, cap),
        "every line is saved once",
    );
    if cap == 100 {
        let now = s.value_db("$a");
        let mut fine = false;
        if x.value.is_some() || y.value.is_some() {
            fine |= now.is_some() && (now == x.value || now == y.value);
        }
        if x.purge || y.purge {
            fine |= now.is_none();
        }
        if x.value.is_none() && y.value.is_none() && !x.purge && !y.purge {
            fine = now == old;
        }
        check(fine, "a variable holds what was last assigned");
    }
    // and the data can be worked on
    check(s.submit("8").is_ok(), "later lines are saved");
    end(s);
    let mut s = session();
    let after = recall(&mut s);
    check(after.len() == (got.len() + 1).min(cap) && after[0] == "8", "later lines are saved");
    reach("both");
}
#[no_mangle]
pub extern "C" fn h_c23_lines() {
    both(true, &[0, 1, 2, 3, 4, 5, 6, 7, 8], 1, 250)
}
#[no_mangle]
pub extern "C" fn h_c23_first() {
    both(false, &[0, 2, 3], 1, 250)
}
#[no_mangle]
pub extern "C" fn h_c23_lines2() {
    both(true, &[0], 2, 250)
}
#[no_mangle]
pub extern "C" fn h_c23_lines2all() {
    both(true, &[0, 2, 3, 5], 2, 250)
}
/// Two programs are started at the same time, or one while the other works.
#[no_mangle]
pub extern "C" fn h_c23_open() {
    data_dir();
    install();
    let mut n = 0;
    let kind = pick("kind", 0, 2);
    if kind > 0 {
        let mut s = session();
        check(s.submit("7").is_ok(), "a line succeeds");
        n = 1;
        drop(s);
    }
    let mut a = if kind == 2 { Some(session()) } else { None };
    let mut b: Option<Ses> = None;
    let pb: *mut Option<Ses> = &mut b;
    let start = move || unsafe { *pb = Some(session()) };
    if let Some(s) = &mut a {
        let o = together(|| s.submit("$a=3"), start, 1, 250);
        check(o.is_ok(), "no line fails because of another session");
        n += 1;
    } else {
        a = Some(together(session, start, 1, 250));
    }
    let mut a = match a {
        Some(a) => a,
        None => return,
    };
    let mut b = match b {
        Some(b) => b,
        None => {
            check(false, "both are started");
            return;
        }
    };
    check(a.db.is_some() && b.db.is_some(), "both use the saved data");
    check(a.submit("1").is_ok() && b.submit("2").is_ok(), "lines succeed");
    drop(a);
    drop(b);
    let mut s = session();
    let v = recall(&mut s);
    check(v.len() == n + 2 && v[0] == "2" && v[1] == "1", "every line is saved once");
    check(capacity(&mut s) == Some(100), "the capacity stays");
    reach("opened");
}
