//! C13: the line editor behaves as a text buffer with a cursor.
use super::edit::*;
use super::sym::*;
use super::term::*;
use super::util::*;
use crossterm::event::{Event, KeyCode, KeyModifiers};

fn run(before: usize, keys: usize, kinds: &[u8], outputs: bool) {
    let mut ev: Vec<Event> = (0..before).map(|_| ch(printable("line"))).collect();
    for _ in 0..keys {
        ev.push(some_key(kinds));
    }
    let end = drive(args(), ev, 120, 0, display, outputs);
    match end {
        End::Quit => reach("quit"),
        End::Script => reach("edited"),
        _ => check(false, "no key ends the program with an error"),
    }
}
/// Any keys, from an empty line
#[no_mangle]
pub extern "C" fn h_c13_keys3() {
    run(0, 3, &[1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13], false)
}
#[no_mangle]
pub extern "C" fn h_c13_keys5() {
    run(0, 5, &[0, 1, 2, 5, 6, 14, 15], false)
}
/// Any keys, in a longer line
#[no_mangle]
pub extern "C" fn h_c13_long() {
    let n = [3usize, 14, 15, 16, 17, 29, 30, 31, 32][pick("before", 0, 8) as usize];
    run(n, 3, &[0, 1, 2, 3, 4, 5, 6], false)
}
#[no_mangle]
pub extern "C" fn h_c13_long4() {
    let n = [4usize, 16, 31][pick("before", 0, 2) as usize];
    run(n, 4, &[0, 1, 2, 14, 15, 5, 6, 16, 17], false)
}
/// What is submitted is what is shown
#[no_mangle]
pub extern "C" fn h_c13_submit() {
    let mut ev = vec![];
    for _ in 0..4 {
        ev.push(some_key(&[18, 1, 2, 14, 15, 5]));
    }
    ev.push(code(KeyCode::Enter));
    ev.push(some_key(&[18, 9, 1, 11]));
    ev.push(code(KeyCode::Enter));
    let end = drive(args(), ev, 200, 0, display, true);
    check(end == End::Script, "no key ends the program");
}
#[no_mangle]
pub extern "C" fn h_c13_keys4() {
    run(0, 4, &[1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13], false)
}
#[no_mangle]
pub extern "C" fn h_c13_keys7() {
    run(0, 7, &[0, 1, 2, 5, 6, 14, 15], false)
}
/// Lines far longer than the window
#[no_mangle]
pub extern "C" fn h_c13_hundreds() {
    let n = [99usize, 127, 128, 129, 254, 255, 256, 257, 300][pick("before", 0, 8) as usize];
    let mut ev: Vec<Event> = (0..n).map(|i| ch(b"12+(a) "[i % 7])).collect();
    // somewhere in the line
    for _ in 0..[0usize, 50, 100][pick("left", 0, 2) as usize] {
        ev.push(code(KeyCode::Left));
    }
    for _ in 0..2 {
        ev.push(some_key(&[0, 1, 2, 5, 6, 16, 17]));
    }
    let end = drive(args(), ev, 80, 0, late, false);
    check(end == End::Script, "no key ends the program");
    reach("edited");
}
fn late(r: &Ref) {
    if unsafe { TERM.events.len() } <= 3 {
        r.display();
    }
}
