//! C15: the edited line is displayed correctly in any window.
use super::edit::*;
use super::sym::*;
use super::term::*;
use super::util::*;
use crossterm::event::{Event, KeyCode, KeyModifiers};

fn lines(n: usize) -> Vec<Event> {
    (0..n).map(|_| ch(printable("line"))).collect()
}
fn ended(e: End, cols: usize, alternate: bool) {
    match e {
        End::Narrow => {
            reach("narrow");
            check(the().cols <= if alternate { 2 } else { 4 }, "only a window too narrow to edit in is reported as such");
        }
        End::Script => {
            reach("edited");
            check(the().cols > if alternate { 2 } else { 4 }, "a window too narrow to edit in is reported as such");
        }
        End::Quit => check(false, "the program ends"),
        End::Other => check(false, "no key ends the program with an error"),
    }
}
fn run(alternate: bool, widths: &[u16], before: &[usize], keys: usize, kinds: &[u8], row: u16) {
    let mut a = args();
    a.alternate_screen = alternate;
    let cols = widths[pick("cols", 0, widths.len() as u64 - 1) as usize];
    let n = before[pick("before", 0, before.len() as u64 - 1) as usize];
    let mut ev = lines(n);
    for _ in 0..keys {
        ev.push(some_key(kinds));
    }
    let e = drive(a, ev, cols, row, display, false);
    ended(e, cols as usize, alternate)
}
/// Typing and moving
#[no_mangle]
pub extern "C" fn h_c15_scroll() {
    run(false, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20], &[0, 1, 2, 3, 5, 8, 12, 17, 33], 3, &[0, 1, 2, 14, 15, 5, 6, 16, 17], 3)
}
/// Walking through the line
#[no_mangle]
pub extern "C" fn h_c15_walk() {
    let cols = pick("cols", 5, 12) as u16;
    let n = pick("before", 0, 14) as usize;
    let mut ev = lines(n);
    let k = pick("left", 0, n as u64) as usize;
    for _ in 0..k {
        ev.push(code(KeyCode::Left));
    }
    let j = pick("right", 0, k as u64) as usize;
    for _ in 0..j {
        ev.push(code(KeyCode::Right));
    }
    ev.push(some_key(&[0, 1, 2, 5, 6, 12]));
    let e = drive(args(), ev, cols, 0, display, false);
    ended(e, cols as usize, false)
}
#[no_mangle]
pub extern "C" fn h_c15_resize() {
    run(false, &[5, 9, 30], &[0, 4, 9, 14], 3, &[0, 2, 14, 5, 16, 19], 0)
}
/// In the alternate screen
#[no_mangle]
pub extern "C" fn h_c15_alternate() {
    run(true, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 20], &[0, 1, 2, 3, 5, 8, 12, 17], 3, &[0, 1, 2, 14, 15, 5, 6, 16, 17], 3)
}
#[no_mangle]
pub extern "C" fn h_c15_alternate_resize() {
    run(true, &[3, 9, 30], &[0, 4, 9, 14], 3, &[0, 2, 14, 5, 16, 19], 0)
}
/// A submitted line is shown in full
fn submit(alternate: bool) {
    let mut a = args();
    a.alternate_screen = alternate;
    let cols = [5u16, 6, 7, 10, 40][pick("cols", 0, 4) as usize];
    let n = pick("before", 0, 12) as usize;
    let mut ev = vec![];
    // a number: the result is as long as the line
    for _ in 0..n {
        ev.push(ch(b'7'));
    }
    ev.push(some_key(&[5, 6, 14]));
    ev.push(code(KeyCode::Enter));
    ev.push(ch(b'5'));
    ev.push(code(KeyCode::Up));
    ev.push(code(KeyCode::Home));
    let e = drive(a, ev, cols, 2, display, true);
    ended(e, cols as usize, alternate)
}
#[no_mangle]
pub extern "C" fn h_c15_submit() {
    submit(false)
}
#[no_mangle]
pub extern "C" fn h_c15_submit_alternate() {
    submit(true)
}
#[no_mangle]
pub extern "C" fn h_c15_scroll4() {
    run(false, &[0, 2, 4, 5, 6, 7, 8, 9, 10, 20], &[0, 1, 2, 3, 5, 8, 12, 17, 33], 4, &[0, 1, 2, 14, 15, 5, 6, 16, 17], 3)
}
#[no_mangle]
pub extern "C" fn h_c15_resize4() {
    run(false, &[5, 9, 30], &[0, 4, 9, 14], 4, &[0, 2, 14, 5, 16, 19], 0)
}
/// Wide windows and long lines
fn big(alternate: bool) {
    let mut a = args();
    a.alternate_screen = alternate;
    let cols = [80u16, 81, 255, 257, 300][pick("cols", 0, 4) as usize];
    let n = [75usize, 76, 78, 80, 160, 251, 253, 255, 256, 300][pick("before", 0, 9) as usize];
    let mut ev: Vec<Event> = (0..n).map(|i| ch(b"12+(a) "[i % 7])).collect();
    ev.push(some_key(&[0, 1, 14, 5]));
    ev.push(some_key(&[0, 2, 15, 16, 6]));
    let e = drive(a, ev, cols, 3, late, false);
    ended(e, cols as usize, alternate)
}
/// At the bottom of a window of a few rows
fn bottom(alternate: bool) {
    let mut a = args();
    a.alternate_screen = alternate;
    let cols = [5u16, 9][pick("cols", 0, 1) as usize];
    let n = [0usize, 1, 3, 6, 7][pick("before", 0, 4) as usize];
    unsafe {
        HEIGHT = pick("height", 3, 5) as u16;
    }
    let row = pick("row", 0, unsafe { HEIGHT } as u64 - 1) as u16;
    let mut ev = vec![];
    for _ in 0..n {
        ev.push(ch(b'7'));
    }
    ev.push(some_key(&[18, 1, 5]));
    ev.push(some_key(&[1, 6]));
    if pick("submit", 0, 1) == 1 {
        ev.push(code(KeyCode::Enter));
        ev.push(ch(b'5'));
        ev.push(code(KeyCode::Enter));
        ev.push(code(KeyCode::Up));
        ev.push(some_key(&[18, 7, 5]));
    }
    let e = drive(a, ev, cols, row, display, true);
    ended(e, cols as usize, alternate)
}
#[no_mangle]
pub extern "C" fn h_c15_bottom() {
    bottom(false)
}
#[no_mangle]
pub extern "C" fn h_c15_bottom_alternate() {
    bottom(true)
}
fn late(r: &Ref) {
    if unsafe { TERM.events.len() } <= 2 {
        r.display();
    }
}
#[no_mangle]
pub extern "C" fn h_c15_big() {
    big(false)
}
#[no_mangle]
pub extern "C" fn h_c15_big_alternate() {
    big(true)
}
