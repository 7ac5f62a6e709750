//! C12: scrollback shows every earlier input and never alters it.
use super::db::*;
use super::edit::*;
use super::sym::*;
use super::term::*;
use super::util::*;
use crossterm::event::{Event, KeyCode, KeyModifiers};

/// A character of a word: the lines are no calculations.
fn letter() -> u8 {
    let c = u8s("line");
    assume(c >= b'g' && c <= b'z');
    c
}
fn typed(ev: &mut Vec<Event>, l: &[u8]) {
    for &c in l {
        ev.push(ch(c));
    }
    ev.push(code(KeyCode::Enter));
}
fn ended(e: End) {
    check(e == End::Script, "no key ends the program");
}
/// `lines` lines of 0 to `len` characters, then some keys
fn run(lines: usize, len: u64, keys: usize, kinds: &[u8]) {
    let mut ev = vec![];
    for _ in 0..lines {
        let n = pick("len", 0, len);
        let l: Vec<u8> = (0..n).map(|_| letter()).collect();
        typed(&mut ev, &l);
    }
    for _ in 0..keys {
        ev.push(some_key(kinds));
    }
    ended(drive(args(), ev, 60, 0, display, false));
}
#[no_mangle]
pub extern "C" fn h_c12_keys4() {
    run(2, 2, 4, &[7, 8, 9, 18, 1, 2, 14, 5])
}
/// Lines with any characters at their ends
#[no_mangle]
pub extern "C" fn h_c12_ends() {
    let mut ev = vec![];
    let mut l = vec![];
    for _ in 0..pick("len", 1, 3) {
        let c = u8s("line");
        assume(c >= 32 && c < 127);
        l.push(c);
    }
    // no commands, and nothing that is closed on entry
    let first = l.iter().find(|c| **c != 32);
    assume(first != Some(&b'/'));
    for c in &l {
        assume(*c != b'(');
    }
    typed(&mut ev, &l);
    for _ in 0..3 {
        ev.push(some_key(&[7, 8, 9]));
    }
    ended(drive(args(), ev, 60, 0, display, false));
}
#[no_mangle]
pub extern "C" fn h_c12_keys6() {
    run(2, 0, 6, &[7, 8, 9, 18, 1])
}
#[no_mangle]
pub extern "C" fn h_c12_walk() {
    // any walk
    run(3, 1, 7, &[7, 8])
}
#[no_mangle]
pub extern "C" fn h_c12_keys5() {
    run(2, 1, 5, &[7, 8, 9, 18, 1, 2, 14, 5])
}
#[no_mangle]
pub extern "C" fn h_c12_sessions_keys6() {
    let e = before(1, 2, 0, 100);
    let ev = (0..6).map(|_| some_key(&[7, 8, 9, 18])).collect();
    db(e, 100, ev);
}
/// Edits in more than one recalled line, back and forth, then one of them is submitted
#[no_mangle]
pub extern "C" fn h_c12_edits() {
    let mut ev = vec![];
    for _ in 0..2 {
        let l: Vec<u8> = (0..2).map(|_| letter()).collect();
        typed(&mut ev, &l);
    }
    ev.push(ch(letter()));
    for _ in 0..5 {
        ev.push(some_key(&[7, 8]));
        ev.push(some_key(&[18, 1]));
    }
    ev.push(code(KeyCode::Enter));
    for _ in 0..3 {
        ev.push(code(KeyCode::Up));
    }
    ended(drive(args(), ev, 60, 0, display, false));
}
/// Lines of earlier sessions, newest first
fn before(sessions: usize, lines: u64, len: u64, cap: usize) -> Vec<Vec<u8>> {
    data_dir();
    let mut all: Vec<Vec<u8>> = vec![];
    if cap < 100 {
        let mut s = session();
        let l = format!("/histcap {}", cap);
        let _ = s.submit(&l);
        all.push(l.into_bytes());
        end(s);
    }
    for _ in 0..sessions {
        let mut s = session();
        for _ in 0..pick("lines", 0, lines) {
            let n = if len == 0 { 1 } else { pick("len", 0, len) };
            let l: Vec<u8> = (0..n).map(|_| letter()).collect();
            let _ = s.submit(super::c10::text(&l));
            all.push(l);
        }
        end(s);
    }
    all.reverse();
    all.truncate(cap);
    all
}
fn db(earlier: Vec<Vec<u8>>, cap: usize, ev: Vec<Event>) {
    ended(drive_after(dbargs(), ev, 60, 0, display, false, earlier, cap));
}
/// Earlier sessions' lines after this session's
#[no_mangle]
pub extern "C" fn h_c12_sessions() {
    let e = before(2, 2, 1, 100);
    let mut ev = vec![];
    for _ in 0..pick("typed", 0, 1) {
        typed(&mut ev, &[letter()]);
    }
    let n = pick("up", 0, 6);
    for _ in 0..n {
        ev.push(code(KeyCode::Up));
    }
    for _ in 0..2 {
        ev.push(some_key(&[8, 18]));
    }
    db(e, 100, ev);
}
#[no_mangle]
pub extern "C" fn h_c12_sessions_keys() {
    let e = before(1, 2, 0, 100);
    let mut ev = vec![];
    for _ in 0..5 {
        ev.push(some_key(&[7, 8, 9, 18]));
    }
    db(e, 100, ev);
}
/// Lines are evicted while they are recalled
#[no_mangle]
pub extern "C" fn h_c12_evicted() {
    let e = before(1, 3, 0, 3);
    let mut ev = vec![];
    for _ in 0..pick("up", 0, 2) {
        ev.push(code(KeyCode::Up));
    }
    for _ in 0..pick("down", 0, 2) {
        ev.push(code(KeyCode::Down));
    }
    if boolean("capacity") {
        typed(&mut ev, b"/histcap 1");
    } else {
        typed(&mut ev, &[letter()]);
    }
    for _ in 0..4 {
        ev.push(some_key(&[7, 8, 9]));
    }
    db(e, 3, ev);
}
/// A third session sees what the first two left
#[no_mangle]
pub extern "C" fn h_c12_again() {
    let mut e = before(1, 1, 0, 100);
    let mut ev = vec![];
    for _ in 0..3 {
        ev.push(some_key(&[7, 9, 18]));
    }
    db(e.clone(), 100, ev);
    for l in &the().submitted {
        e.insert(0, l.clone());
    }
    new_process();
    let mut ev = vec![];
    for _ in 0..5 {
        ev.push(code(KeyCode::Up));
    }
    db(e, 100, ev);
}
/// Two sessions at the same time: each shows its own lines and those of the sessions before it
#[no_mangle]
pub extern "C" fn h_c12_two() {
    let e = before(1, 2, 0, 100);
    let mut s = [session(), session()];
    let mut own: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    for _ in 0..3 {
        let k = pick("which", 0, 1) as usize;
        let l = vec![letter()];
        let _ = s[k].submit(super::c10::text(&l));
        own[k].push(l);
    }
    for k in 0..2 {
        let v = recall(&mut s[k]);
        let mut want: Vec<Vec<u8>> = own[k].iter().rev().cloned().collect();
        want.extend(e.iter().cloned());
        check(v.len() == want.len(), "its own lines and those of earlier sessions are recalled");
        for (a, b) in v.iter().zip(&want) {
            check(eq(a.as_bytes(), b), "its own lines and those of earlier sessions are recalled");
        }
    }
    reach("two");
}
