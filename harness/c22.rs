//! C22: the terminal is given back however a session ends, and only the keys for it end one.
use super::db::*;
use super::edit::*;
use super::prog::*;
use super::sym::*;
use super::term::*;
use crossterm::event::{Event, KeyCode, KeyModifiers};

struct Run {
    alternate: bool,
    /// output breaks when this many events were handed out
    breaks: Option<usize>,
    out: Vec<u8>,
    quit: bool,
    paste: bool,
    first: bool,
}
static mut RUN: Run = Run { alternate: false, breaks: None, out: vec![], quit: false, paste: false, first: true };
const ENTER: &[u8] = b"\x1b[?1049h";
const LEAVE: &[u8] = b"\x1b[?1049l";

fn run_state() -> &'static mut Run {
    unsafe { &mut *std::ptr::addr_of_mut!(RUN) }
}
/// How often `p` was written. (Text the user typed contains no escape characters.)
fn count(o: &[u8], p: &[u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i + p.len() <= o.len() {
        if o[i] == 27 && &o[i..i + p.len()] == p {
            n += 1;
        }
        i += 1;
    }
    n
}
fn take() {
    let o = out_take();
    run_state().out.extend_from_slice(&o);
}
/// What the terminal is like while the program waits for keys.
fn waiting(k: usize) {
    let r = run_state();
    take();
    unsafe {
        check(MODE.raw, "keys are read in raw mode");
    }
    if r.breaks != Some(0) {
        let (e, l) = (count(&r.out, ENTER), count(&r.out, LEAVE));
        check(e == l + r.alternate as usize, "the alternate screen is shown if it was asked for");
    }
    check(!r.quit && !r.paste, "the program ends");
    if r.breaks == Some(k) {
        out_break(true);
    }
    match unsafe { TERM.events.front() } {
        Some(Event::Key(e)) => {
            if let KeyCode::Char(c) = e.code {
                if e.modifiers == KeyModifiers::CONTROL && (c == 'c' || c == 'd' || c == 'z') {
                    r.quit = true;
                }
            }
        }
        Some(Event::Paste(_)) => r.paste = true,
        _ => {}
    }
}
/// After the end.
fn given_back() {
    let r = run_state();
    take();
    unsafe {
        check(!MODE.raw, "raw mode is left");
    }
    if r.breaks.is_none() {
        let (e, l) = (count(&r.out, ENTER), count(&r.out, LEAVE));
        check(e == l, "the alternate screen is left");
        check(e == 0 || r.alternate, "the alternate screen is entered only on request");
    }
}
fn at_exit(_code: i32) {
    given_back();
    if unsafe { TERM.handed } > 0 {
        check(run_state().quit, "the program only ends when it is asked to");
    }
    reach("exit");
}
fn arrange(alternate: bool, cols: u16, row: u16, events: Vec<Event>) -> Vec<String> {
    let r = run_state();
    r.alternate = alternate;
    unsafe {
        TERM.cols = cols;
        TERM.rows = 24;
        TERM.pos = (0, row);
        TERM.events = events.into();
        TERM.on_event = Some(waiting);
        TERM.on_position = None;
        TERM.handed = 0;
    }
    let mut v = words(&["bcalc"]);
    if alternate {
        v.push((if pick("long", 0, 1) == 1 { "--alternate-screen" } else { "-a" }).to_string());
    }
    v
}
fn session_ends(argv: Vec<String>, may_fail: bool) {
    let x = run(argv, at_exit);
    given_back();
    let r = run_state();
    match x {
        Ok(()) => {
            check(r.quit, "the program only ends when it is asked to");
            reach("quit");
        }
        Err(e) => {
            let io = e.downcast_ref::<std::io::Error>().and_then(|e| e.raw_os_error());
            if io == Some(SCRIPT_END) {
                reach("reading failed");
            } else if e.to_string().contains("too narrow") {
                reach("narrow");
            } else if r.paste {
                reach("paste");
            } else {
                check(may_fail, "the program only ends when it is asked to");
                reach("failed");
            }
        }
    }
}
/// Any keys.
#[no_mangle]
pub extern "C" fn h_c22_keys() {
    let alternate = boolean("alternate");
    let mut v = vec![];
    for _ in 0..2 {
        v.push(match pick("paste", 0, 1) {
            1 => Event::Paste(String::new()),
            _ => some_key(&[3, 7, 9, 10, 11, 12]),
        });
    }
    let cols = [40u16, 6, 5, 2][pick("cols", 0, 3) as usize];
    let mut a = arrange(alternate, cols, 7, v);
    a.push("--no-db".to_string());
    session_ends(a, false);
}
/// Exactly the three keys end a session, at every place.
#[no_mangle]
pub extern "C" fn h_c22_quit() {
    let alternate = boolean("alternate");
    let mut v = vec![];
    for _ in 0..pick("before", 0, 3) {
        v.push(match pick("kind", 0, 3) {
            0 => ch(printable("c")),
            1 => code(KeyCode::Enter),
            2 => code(KeyCode::Left),
            _ => ch(b'('),
        });
    }
    let c = u8s("c");
    assume(c < 128);
    let mods = KeyModifiers::from_bits_truncate(range("mods", 0, 63) as u8);
    v.push(key(KeyCode::Char(c as char), mods));
    let n = v.len();
    let mut a = arrange(alternate, 40, 0, v);
    a.push("--no-db".to_string());
    session_ends(a, false);
    let r = run_state();
    let want = mods == KeyModifiers::CONTROL && (c == b'c' || c == b'd' || c == b'z');
    check(r.quit == want, "the key is reached");
    check(unsafe { TERM.handed } == n + !want as usize, "these keys and no others end the session");
}
/// With saved data which cannot be opened.
#[no_mangle]
pub extern "C" fn h_c22_open() {
    let alternate = boolean("alternate");
    match pick("how", 0, 2) {
        0 => std::env::set_var("_B_UTIL_DATA_DIR", format!("{}/missing", tmpdir())),
        1 => {
            data_dir();
            inject(input("fault", 16), 2);
        }
        _ => data_dir(),
    }
    let k = key(KeyCode::Char('d'), KeyModifiers::CONTROL);
    let a = arrange(alternate, 40, 0, vec![ch(b'1'), code(KeyCode::Enter), k]);
    session_ends(a, true);
    inject_off();
}
/// Raw mode cannot be switched on, or writing to the terminal fails from some point on.
#[no_mangle]
pub extern "C" fn h_c22_output() {
    let alternate = boolean("alternate");
    let r = run_state();
    let k = key(KeyCode::Char('d'), KeyModifiers::CONTROL);
    let mut v = vec![];
    for _ in 0..3 {
        v.push(match pick("kind", 0, 3) {
            0 => ch(b'1'),
            1 => code(KeyCode::Enter),
            2 => code(KeyCode::Left),
            _ => k.clone(),
        });
    }
    let mut a = arrange(alternate, 40, 0, v);
    a.push("--no-db".to_string());
    match pick("breaks", 0, 5) {
        0 => unsafe { MODE.fail = 25 },
        1 => {
            r.breaks = Some(0);
            out_break(true);
        }
        n => r.breaks = Some(n as usize - 2),
    }
    session_ends(a, true);
    out_break(false);
}
/// A session with saved data in which any one file system call fails.
#[no_mangle]
pub extern "C" fn h_c22_fault() {
    let alternate = boolean("alternate");
    data_dir();
    let mut v = vec![];
    for k in 0..3 {
        v.push(match pick("kind", 0, 3) {
            0 => ch(b'7'),
            1 => code(KeyCode::Enter),
            2 => code(KeyCode::Up),
            _ => {
                if k % 2 == 0 {
                    ch(b'$')
                } else {
                    code(KeyCode::Enter)
                }
            }
        });
    }
    v.push(key(KeyCode::Char('z'), KeyModifiers::CONTROL));
    let a = arrange(alternate, 40, 0, v);
    inject(input("fault", 16), [2, 3][pick("mode", 0, 1) as usize]);
    session_ends(a, true);
    inject_off();
}
