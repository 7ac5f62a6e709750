//! Driving the interactive editor with scripted events: a small terminal emulator and a reference editor.
use super::ses::*;
use super::sym::*;
use super::term::*;
use super::util::*;
use crate::Args;
use crossterm::event::{Event, KeyCode, KeyModifiers};

/// What the terminal shows. Cells right of a row's end are blank.
pub struct Screen {
    pub cols: usize,
    pub rows: Vec<Vec<u8>>,
    pub row: usize,
    pub col: usize,
    /// a character was written in the last column: the next one goes to the next row
    pub full: bool,
    /// rows that were scrolled out of the window; `rows` and `row` count them
    pub top: usize,
    /// rows of the window
    pub height: usize,
}
impl Screen {
    pub fn new(cols: usize, row: usize) -> Screen {
        Screen { cols, rows: vec![vec![]; row + 1], row, col: 0, full: false, top: 0, height: 500 }
    }
    /// The next row; at the bottom of the window everything scrolls.
    fn down(&mut self) {
        self.row += 1;
        if self.row >= self.top + self.height {
            self.top = self.row + 1 - self.height;
        }
        while self.rows.len() <= self.row {
            self.rows.push(vec![]);
        }
    }
    fn put(&mut self, c: u8) {
        if self.full {
            self.full = false;
            self.col = 0;
            self.down();
        }
        let r = &mut self.rows[self.row];
        while r.len() <= self.col {
            r.push(b' ');
        }
        r[self.col] = c;
        if self.col + 1 >= self.cols {
            self.full = true;
        } else {
            self.col += 1;
        }
    }
    pub fn feed(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            i += 1;
            if c == b'\n' {
                // in raw mode the column stays
                self.down();
                self.full = false;
            } else if c == b'\r' {
                self.col = 0;
                self.full = false;
            } else if c == 27 {
                if i >= b.len() || b[i] != b'[' {
                    check(false, "an escape sequence the terminal knows");
                    return;
                }
                i += 1;
                let mut n: Vec<usize> = vec![];
                let mut cur: Option<usize> = None;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b';') {
                    if b[i] == b';' {
                        n.push(cur.unwrap_or(0));
                        cur = Some(0);
                    } else {
                        cur = Some(cur.unwrap_or(0) * 10 + (b[i] - b'0') as usize);
                    }
                    i += 1;
                }
                if let Some(x) = cur {
                    n.push(x);
                }
                if i >= b.len() {
                    check(false, "an escape sequence the terminal knows");
                    return;
                }
                let arg = |k: usize| n.get(k).copied().unwrap_or(1).max(1);
                match b[i] {
                    b'G' => {
                        self.col = (arg(0) - 1).min(self.cols - 1);
                        self.full = false;
                    }
                    b'H' => {
                        self.row = self.top + (arg(0) - 1).min(self.height - 1);
                        self.col = (arg(1) - 1).min(self.cols - 1);
                        self.full = false;
                        while self.rows.len() <= self.row {
                            self.rows.push(vec![]);
                        }
                    }
                    b'E' => {
                        // this does not scroll
                        for _ in 0..arg(0) {
                            if self.row + 1 < self.top + self.height {
                                self.down();
                            }
                        }
                        self.col = 0;
                        self.full = false;
                    }
                    b'K' => {
                        let r = &mut self.rows[self.row];
                        match n.first().copied().unwrap_or(0) {
                            0 => r.truncate(self.col),
                            2 => r.clear(),
                            _ => check(false, "an escape sequence the terminal knows"),
                        }
                    }
                    b'J' => {
                        if n.first().copied().unwrap_or(0) != 0 {
                            check(false, "an escape sequence the terminal knows");
                        }
                        self.rows[self.row].truncate(self.col);
                        let below = self.row + 1;
                        for r in self.rows[below..].iter_mut() {
                            r.clear();
                        }
                    }
                    _ => check(false, "an escape sequence the terminal knows"),
                }
                i += 1;
            } else {
                self.put(c);
            }
        }
    }
}
/// One term, no forks.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}

/// The reference: a text buffer with a cursor, and the submitted lines.
pub struct Ref {
    /// copies of the lines as edited: 0 is the line being composed, then the submitted lines, newest first
    pub copies: Vec<Vec<u8>>,
    pub at: usize,
    pub cursor: usize,
    pub submitted: Vec<Vec<u8>>,
    /// lines of earlier sessions, newest first
    pub earlier: Vec<Vec<u8>>,
    /// how many of these were already recalled in this session
    pub loaded: usize,
    /// the number of lines that stay saved
    pub cap: usize,
    pub alternate: bool,
    pub cols: usize,
    /// rows above the current input
    pub done: bool,
    pub entered: bool,
    /// whether the output of submitted lines is compared
    pub outputs: bool,
    /// the rows shown above the line being edited
    pub ses: Ses,
    pub start: usize,
    pub screen: Screen,
    pub checks: fn(&Ref),
    pub pushed: bool,
}
/// The rows of the window of the next session.
pub static mut HEIGHT: u16 = 500;
pub static mut REF: Option<Ref> = None;
pub fn the() -> &'static mut Ref {
    unsafe { REF.as_mut().unwrap() }
}
impl Ref {
    pub fn text(&self) -> &[u8] {
        &self.copies[self.at]
    }
    fn reset(&mut self) {
        // what is no longer saved is not recalled, unless it was before
        let still = self.cap.saturating_sub(self.submitted.len()).max(self.loaded);
        if still < self.earlier.len() {
            reach("evicted");
            self.earlier.truncate(still);
        }
        let mut c = vec![vec![]];
        for l in self.submitted.iter().rev() {
            c.push(l.clone());
        }
        for l in &self.earlier {
            c.push(l.clone());
        }
        self.copies = c;
        self.at = 0;
        self.cursor = 0;
    }
    fn len(&self) -> usize {
        self.text().len()
    }
    /// The parenthesis that pairs with the one under the cursor.
    pub fn pair(&self) -> Option<usize> {
        let t = self.text();
        if t.len() < 2 {
            return None;
        }
        let pos = self.cursor.min(t.len() - 1);
        // by the positions of the open parentheses not closed yet; an unmatched ) opens nothing
        let mut open: Vec<usize> = vec![];
        for (i, &c) in t.iter().enumerate() {
            if c == b'(' {
                open.push(i);
            } else if c == b')' {
                if let Some(o) = open.pop() {
                    if o == pos {
                        return Some(i);
                    }
                    if i == pos {
                        return Some(o);
                    }
                }
            }
        }
        None
    }
    pub fn step(&mut self, e: &Event) {
        let none = KeyModifiers::NONE;
        let k = match e {
            Event::Key(k) => k,
            Event::Resize(w, _) => {
                self.cols = *w as usize;
                self.screen.cols = self.cols.max(1);
                self.pushed = true;
                return;
            }
            _ => return,
        };
        let (a, p) = (self.at, self.cursor);
        let large = k.modifiers == KeyModifiers::CONTROL || k.modifiers == KeyModifiers::SHIFT;
        let dist = if k.modifiers == none {
            1
        } else if large {
            15
        } else {
            0
        };
        match k.code {
            KeyCode::Char(c) => {
                if (c as u32) >= 128 {
                    return;
                }
                let mut c = c as u8;
                if k.modifiers == KeyModifiers::CONTROL {
                    if c == b'c' || c == b'd' || c == b'z' {
                        self.done = true;
                    } else if c == b'm' || c == b'n' {
                        if let Some(q) = self.pair() {
                            reach("pair");
                            self.cursor = q;
                        } else {
                            reach("no pair");
                        }
                    }
                    return;
                }
                if k.modifiers == KeyModifiers::SHIFT {
                    if c >= b'a' && c <= b'z' {
                        c -= 32;
                    }
                } else if k.modifiers != none {
                    return;
                }
                self.copies[a].insert(p, c);
                self.cursor += 1;
            }
            KeyCode::Backspace => {
                if p > 0 {
                    self.copies[a].remove(p - 1);
                    self.cursor -= 1;
                }
            }
            KeyCode::Delete => {
                if p < self.len() {
                    self.copies[a].remove(p);
                }
            }
            KeyCode::Left => self.cursor = p.saturating_sub(dist),
            KeyCode::Right => self.cursor = (p + dist).min(self.len()),
            KeyCode::Home => self.cursor = 0,
            KeyCode::End => self.cursor = self.len(),
            KeyCode::Up => {
                if a + 1 < self.copies.len() {
                    self.at += 1;
                    self.loaded = self.loaded.max(self.at.saturating_sub(self.submitted.len()));
                    if self.at > self.submitted.len() {
                        reach("earlier session");
                    } else {
                        reach("same session");
                    }
                    self.cursor = self.len();
                }
            }
            KeyCode::Down => {
                if a > 0 {
                    self.at -= 1;
                    self.cursor = self.len();
                }
            }
            KeyCode::Enter => {
                let l = self.copies[a].clone();
                self.submitted.push(l.clone());
                let still = self.cap.saturating_sub(self.submitted.len()).max(self.loaded);
                self.earlier.truncate(still);
                if l.len() == 10 && same(&l[..9], b"/histcap ") {
                    self.cap = (l[9] - b'0') as usize;
                }
                self.entered = true;
            }
            _ => {}
        }
    }
    /// Rows of a line shown in full.
    pub fn wrapped(&self, t: &[u8]) -> Vec<Vec<u8>> {
        let n = self.cols - 2;
        let mut out = vec![];
        let mut i = 0;
        loop {
            let e = (i + n).min(t.len());
            let mut r = if i == 0 { b"# ".to_vec() } else { b"  ".to_vec() };
            r.extend_from_slice(&t[i..e]);
            out.push(r);
            i = e;
            if i >= t.len() {
                return out;
            }
        }
    }
    pub fn blank_below(&self, from: usize) {
        if from < self.screen.rows.len() {
            for r in &self.screen.rows[from..] {
                check(r.is_empty(), "nothing is shown below the line");
            }
        }
    }
    /// The display while a line is edited.
    pub fn display(&self) {
        let t = self.text();
        let s = &self.screen;
        check(!s.full, "the terminal cursor is on a cell");
        // the window has a row for each row of the line
        let tall = if self.alternate { self.cursor.max(t.len().saturating_sub(1)) / (self.cols - 2) + 1 } else { 1 };
        if tall <= s.height {
            check(self.start >= s.top, "the line being edited is inside of the window");
        }
        if self.alternate {
            let rows = self.wrapped(t);
            for (i, r) in rows.iter().enumerate() {
                let got = s.rows.get(self.start + i).map_or(&[][..], |x| &x[..]);
                check(same(got, r), "the whole line is shown wrapped");
            }
            self.blank_below(self.start + rows.len().max(s.row - self.start.min(s.row)));
            let n = self.cols - 2;
            check(s.row == self.start + self.cursor / n && s.col == 2 + self.cursor % n, "the terminal cursor is on the right character");
            return;
        }
        check(s.row == self.start, "the line is edited on one row");
        self.blank_below(self.start + 1);
        let row = &s.rows[self.start];
        check(s.col >= 2 && s.col - 2 <= self.cursor, "the terminal cursor is on the right character");
        if s.col < 2 || s.col - 2 > self.cursor {
            return;
        }
        let off = self.cursor - (s.col - 2);
        let left = if off == 0 { &b"# "[..] } else { &b"< "[..] };
        check(row.len() >= 2 && same(&row[..2], left), "the left scroll mark is shown exactly if text is hidden there");
        if row.len() < 2 {
            return;
        }
        let shown = row.len() - 2;
        let all = off + shown == t.len() && same(&row[2..], &t[off..]);
        if all {
            reach(if off == 0 { "all" } else { "left hidden" });
        } else {
            reach(if off == 0 { "right hidden" } else { "both hidden" });
            check(shown >= 2 && off + shown - 2 < t.len(), "a contiguous part of the line is shown");
            if shown >= 2 && off + shown - 2 < t.len() {
                let e = off + shown - 2;
                check(same(&row[2..shown], &t[off..e]), "the part of the line around the cursor is shown");
                check(same(&row[shown..], b" >"), "the right scroll mark is shown exactly if text is hidden there");
                check(self.cursor < e, "the cursor is inside of the part shown");
            }
        }
    }
    /// Takes in what was written since the last event.
    pub fn shown(&mut self) {
        let b = out_take();
        self.screen.feed(&b);
    }
    /// What the terminal shows after a line was submitted, up to the next prompt.
    fn finished(&mut self) {
        self.entered = false;
        let t = self.submitted.last().unwrap().clone();
        let mut want = self.wrapped(&t);
        let mut known = true;
        if self.outputs {
            let text = unsafe { std::str::from_utf8_unchecked(&t) };
            let o = match self.ses.line(text) {
                Out::Ok(s) => s,
                Out::Input(s, _) => format!("Error: {}", s),
                Out::Runtime(s) => format!("Runtime Error: {}", s),
            };
            for l in o.split('\n') {
                let mut b = l.as_bytes();
                // long lines are wrapped by the terminal
                loop {
                    let e = b.len().min(self.cols);
                    want.push(b[..e].to_vec());
                    b = &b[e..];
                    if b.is_empty() {
                        break;
                    }
                }
            }
            reach("submitted");
        } else {
            known = false;
        }
        for (i, r) in want.iter().enumerate() {
            let got = self.screen.rows.get(self.start + i).map_or(&[][..], |x| &x[..]);
            check(same(got, r), "the submitted line and its result are shown");
        }
        let next = if known { self.start + want.len() } else { self.screen.row };
        check(self.screen.row == next, "the next line is edited below");
        self.start = next;
        self.reset();
    }
}
fn on_event(k: usize) {
    let r = the();
    r.shown();
    check(!r.entered, "the next line is edited after a line is submitted");
    (r.checks)(r);
    if r.done {
        check(false, "the program ends");
    }
    let next = unsafe { TERM.events.front() };
    if let Some(e) = next {
        r.step(e);
    }
}
fn on_position() {
    let r = the();
    r.shown();
    if r.entered {
        r.finished();
    }
    unsafe {
        TERM.pos = (r.screen.col as u16, (r.screen.row - r.screen.top) as u16);
    }
}
pub fn nothing(_: &Ref) {}
pub fn display(r: &Ref) {
    r.display()
}
#[derive(Clone, Copy, PartialEq)]
pub enum End {
    Quit,
    Script,
    Narrow,
    Other,
}
/// Runs the interactive loop on the events; checks `checks` before each event.
pub fn drive(a: Args, events: Vec<Event>, cols: u16, row: u16, checks: fn(&Ref), outputs: bool) -> End {
    drive_after(a, events, cols, row, checks, outputs, vec![], 100)
}
/// The same after earlier sessions: `earlier` is what they left, newest first, of at most `cap` lines.
pub fn drive_after(
    mut a: Args, events: Vec<Event>, cols: u16, row: u16, checks: fn(&Ref), outputs: bool, earlier: Vec<Vec<u8>>, cap: usize,
) -> End {
    let ses = Ses::new(args());
    let mut r = Ref {
        copies: vec![vec![]],
        at: 0,
        cursor: 0,
        submitted: vec![],
        earlier,
        loaded: 0,
        cap,
        alternate: a.alternate_screen,
        cols: cols as usize,
        done: false,
        entered: false,
        outputs,
        ses,
        start: row as usize,
        screen: Screen::new((cols as usize).max(1), row as usize),
        checks,
        pushed: false,
    };
    r.reset();
    r.ses.args.radix = a.radix;
    r.ses.args.precision = a.precision;
    r.ses.args.extra_precision = a.extra_precision;
    unsafe {
        REF = Some(r);
        TERM.cols = cols;
        TERM.rows = HEIGHT;
        the().screen.height = HEIGHT as usize;
        TERM.pos = (0, row);
        TERM.events = events.into();
        TERM.on_event = Some(on_event);
        TERM.on_position = Some(on_position);
        TERM.handed = 0;
    }
    out_take();
    let tk = crate::token::Tokenizer::new();
    let ce = crate::commands::CommandExecutor::new();
    let x = crate::interactive_calc(&mut a, ce, tk);
    match x {
        Ok(()) => {
            check(the().done, "the program only ends when it is asked to");
            End::Quit
        }
        Err(e) => {
            if let Some(io) = e.downcast_ref::<std::io::Error>() {
                return if io.raw_os_error() == Some(SCRIPT_END) { End::Script } else { End::Other };
            }
            if e.to_string().contains("too narrow") {
                End::Narrow
            } else {
                End::Other
            }
        }
    }
}
pub fn ch(c: u8) -> Event {
    key(KeyCode::Char(c as char), KeyModifiers::NONE)
}
pub fn code(c: KeyCode) -> Event {
    key(c, KeyModifiers::NONE)
}
/// A printable character.
pub fn printable(name: &str) -> u8 {
    let c = u8s(name);
    assume(c >= 32 && c < 127);
    c
}
/// Some keys; `kinds` selects which.
pub fn some_key(kinds: &[u8]) -> Event {
    let k = kinds[pick("key", 0, kinds.len() as u64 - 1) as usize];
    let mods = || KeyModifiers::from_bits_truncate(range("mods", 0, 63) as u8);
    match k {
        0 => ch(printable("c")),
        1 => code(KeyCode::Backspace),
        2 => code(KeyCode::Delete),
        3 => key(KeyCode::Left, mods()),
        4 => key(KeyCode::Right, mods()),
        5 => code(KeyCode::Home),
        6 => code(KeyCode::End),
        7 => code(KeyCode::Up),
        8 => code(KeyCode::Down),
        9 => code(KeyCode::Enter),
        10 => key(KeyCode::Char(printable("c") as char), mods()),
        11 => match pick("other", 0, 8) {
            0 => code(KeyCode::Tab),
            1 => code(KeyCode::Esc),
            2 => code(KeyCode::F(u8s("f"))),
            3 => code(KeyCode::Insert),
            4 => code(KeyCode::BackTab),
            5 => code(KeyCode::PageUp),
            6 => Event::FocusGained,
            7 => Event::FocusLost,
            _ => code(KeyCode::Null),
        },
        12 => Event::Resize([5u16, 6, 7, 8, 9, 12, 40][pick("width", 0, 6) as usize], unsafe { HEIGHT }),
        13 => {
            let c = range("wide", 128, 0xd7ff) as u32;
            key(KeyCode::Char(unsafe { char::from_u32_unchecked(c) }), mods())
        }
        14 => code(KeyCode::Left),
        15 => code(KeyCode::Right),
        16 => key(KeyCode::Left, KeyModifiers::CONTROL),
        17 => key(KeyCode::Right, KeyModifiers::SHIFT),
        // characters of words: cheap to evaluate
        18 => {
            let c = u8s("c");
            assume(c >= b'g' && c <= b'z');
            ch(c)
        }
        19 => Event::Resize(pick("width", 0, 12) as u16, unsafe { HEIGHT }),
        20 => key(KeyCode::Char(if boolean("n") { 'n' } else { 'm' }), KeyModifiers::CONTROL),
        _ => code(KeyCode::Null),
    }
}
