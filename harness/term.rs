//! The scripted terminal: what the patched crossterm asks instead of a real tty.
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use std::collections::VecDeque;

pub struct Term {
    pub cols: u16,
    pub rows: u16,
    pub pos: (u16, u16),
    pub events: VecDeque<Event>,
    /// called before every event is handed out, with the number of events handed out so far
    pub on_event: Option<fn(usize)>,
    pub handed: usize,
    /// called when the program asks for the cursor's position
    pub on_position: Option<fn()>,
    /// how often the position or size was asked for
    pub asked: usize,
}
pub static mut TERM: Term =
    Term { cols: 80, rows: 24, pos: (0, 0), events: VecDeque::new(), on_event: None, handed: 0, on_position: None, asked: 0 };

/// Error returned by `event::read` when the script is exhausted.
pub const SCRIPT_END: i32 = 103;

#[no_mangle]
pub extern "C" fn verif_hook_event(out: *mut u8) -> i32 {
    unsafe {
        if let Some(f) = TERM.on_event {
            f(TERM.handed);
        }
        TERM.handed += 1;
        match TERM.events.pop_front() {
            Some(e) => {
                std::ptr::write(out as *mut Event, e);
                0
            }
            None => SCRIPT_END,
        }
    }
}
#[no_mangle]
pub extern "C" fn verif_hook_size() -> u32 {
    unsafe {
        TERM.asked += 1;
        TERM.cols as u32 | (TERM.rows as u32) << 16
    }
}
#[no_mangle]
pub extern "C" fn verif_hook_position() -> u32 {
    unsafe {
        TERM.asked += 1;
        if let Some(f) = TERM.on_position {
            f();
        }
        TERM.pos.0 as u32 | (TERM.pos.1 as u32) << 16 }
}
pub fn key(code: KeyCode, m: KeyModifiers) -> Event {
    Event::Key(KeyEvent::new(code, m))
}

/// The terminal's mode: switched to raw, times it was switched; errors to report when it is switched on.
pub struct Mode {
    pub raw: bool,
    pub on: usize,
    pub off: usize,
    pub fail: i32,
}
pub static mut MODE: Mode = Mode { raw: false, on: 0, off: 0, fail: 0 };
#[no_mangle]
pub extern "C" fn verif_hook_raw(on: u32) -> i32 {
    unsafe {
        if on == 1 {
            if MODE.fail != 0 {
                return MODE.fail;
            }
            MODE.raw = true;
            MODE.on += 1;
        } else {
            MODE.raw = false;
            MODE.off += 1;
        }
    }
    0
}
