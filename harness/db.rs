//! Sessions on the saved data.
use super::ses::*;
use super::sym::*;
use super::util::*;
use crate::Args;

pub fn data_dir() {
    std::env::set_var("_B_UTIL_DATA_DIR", tmpdir());
}
pub fn dbargs() -> Args {
    let mut a = args();
    a.no_db = false;
    a
}
/// A new session.
pub fn session() -> Ses {
    Ses::new(dbargs())
}
/// Ends a session in an orderly way.
pub fn end(s: Ses) {
    drop(s);
    new_process();
}
/// The saved lines, newest first, as a session just opened recalls them.
pub fn recall(s: &mut Ses) -> Vec<String> {
    let mut v = vec![];
    loop {
        match s.inputs.try_to_go_to_earlier_line(s.db.as_mut()) {
            Ok(true) => v.push(s.inputs.current_line().to_string()),
            Ok(false) => {
                while s.inputs.try_to_go_to_later_line() {}
                return v;
            }
            Err(_) => {
                check(false, "the history can be recalled");
                return v;
            }
        }
    }
}

/// The reference: the saved lines, oldest first, and the capacity.
#[derive(Clone)]
pub struct Saved {
    pub lines: Vec<Vec<u8>>,
    pub cap: usize,
}
impl Saved {
    pub fn new() -> Saved {
        Saved { lines: vec![], cap: 100 }
    }
    pub fn trim(&mut self) {
        while self.lines.len() > self.cap {
            self.lines.remove(0);
        }
    }
    pub fn add(&mut self, l: &[u8]) {
        self.lines.push(l.to_vec());
        self.trim();
    }
    /// Whether a session just opened recalls exactly these lines.
    pub fn recalled(&self, v: &[String]) -> bool {
        if v.len() != self.lines.len() {
            return false;
        }
        let mut r = true;
        for i in 0..v.len() {
            r &= eq(v[i].as_bytes(), &self.lines[v.len() - 1 - i]);
        }
        r
    }
}
/// One term, no forks.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
pub fn capacity(s: &mut Ses) -> Option<i64> {
    match s.db.as_mut().unwrap().get_max_history_size() {
        Ok(n) => Some(n),
        Err(_) => None,
    }
}
/// Opens a session and compares what is saved with the reference.
pub fn compare(r: &Saved) {
    let mut s = session();
    let v = recall(&mut s);
    check(r.recalled(&v), "the saved history is the last lines in order");
    check(capacity(&mut s) == Some(r.cap as i64), "the capacity is kept");
    end(s);
}
