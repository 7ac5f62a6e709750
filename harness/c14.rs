//! C14: the parenthesis hotkey jumps to the true match.
use super::edit::*;
use super::sym::*;
use super::term::*;
use super::util::*;
use crossterm::event::{Event, KeyCode, KeyModifiers};

fn hot() -> Event {
    key(KeyCode::Char(if boolean("n") { 'n' } else { 'm' }), KeyModifiers::CONTROL)
}
/// A line of `n` characters out of `set`, the cursor anywhere, the hotkey twice and once more.
fn run(n: usize, set: &[u8], alternate: bool) {
    let s = from_set("c", n, set);
    let mut a = args();
    a.alternate_screen = alternate;
    let mut ev: Vec<Event> = s.bytes().map(ch).collect();
    let left = pick("left", 0, n as u64);
    for _ in 0..left {
        ev.push(code(KeyCode::Left));
    }
    ev.push(hot());
    ev.push(hot());
    let end = drive(a, ev, 120, 0, only_last, false);
    check(end == End::Script, "the key does not end the program");
}
/// the typing itself is not what this is about
fn only_last(r: &Ref) {
    if unsafe { TERM.events.len() } <= 2 {
        r.display();
    }
}
#[no_mangle]
pub extern "C" fn h_c14_short() {
    let n = pick("length", 0, 3) as usize;
    let s = (0..n).map(|_| printable("c")).collect::<Vec<u8>>();
    let mut ev: Vec<Event> = s.into_iter().map(ch).collect();
    let left = pick("left", 0, n as u64);
    for _ in 0..left {
        ev.push(code(KeyCode::Left));
    }
    ev.push(hot());
    ev.push(hot());
    let end = drive(args(), ev, 120, 0, only_last, false);
    check(end == End::Script, "the key does not end the program");
}
#[no_mangle]
pub extern "C" fn h_c14_lines6() {
    let n = pick("length", 4, 6) as usize;
    run(n, b"()x", false)
}
#[no_mangle]
pub extern "C" fn h_c14_lines8() {
    run(8, b"()", false)
}
#[no_mangle]
pub extern "C" fn h_c14_lines10() {
    run(10, b"()", false)
}
#[no_mangle]
pub extern "C" fn h_c14_alternate() {
    run(5, b"()x", true)
}
#[no_mangle]
pub extern "C" fn h_c14_lines12() {
    run(12, b"()", false)
}
#[no_mangle]
pub extern "C" fn h_c14_lines14() {
    run(14, b"()", false)
}
/// Deep nesting and far matches
#[no_mangle]
pub extern "C" fn h_c14_deep() {
    let n = [30usize, 63, 64, 65, 127, 128, 129, 150][pick("depth", 0, 7) as usize];
    let shape = pick("shape", 0, 3);
    let mut s = vec![];
    match shape {
        // nested
        0 => {
            s.resize(n, b'(');
            s.push(b'1');
            s.resize(2 * n + 1, b')');
        }
        // one pair around many
        1 => {
            s.push(b'(');
            for _ in 0..n {
                s.extend_from_slice(b"()");
            }
            s.push(b')');
        }
        // only open or only closed
        2 => s.resize(2 * n, b'('),
        _ => s.resize(2 * n, b')'),
    }
    let len = s.len();
    let left = [0usize, 1, 2, n - 1, n, n + 1, len - 1, len][pick("left", 0, 7) as usize];
    let mut ev: Vec<Event> = s.into_iter().map(ch).collect();
    for _ in 0..left {
        ev.push(code(KeyCode::Left));
    }
    ev.push(hot());
    ev.push(hot());
    let end = drive(args(), ev, 120, 0, only_last, false);
    check(end == End::Script, "the key does not end the program");
}
