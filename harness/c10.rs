//! C10: the saved history is the last N inputs in order.
use super::db::*;
use super::ses::*;
use super::sym::*;
use super::util::*;

/// One step of a session: a line of some kind.
pub fn line(kind: u8) -> (Vec<u8>, Option<usize>) {
    match kind {
        // an error
        0 => {
            let c = u8s("c");
            assume(c >= b'g' && c <= b'z');
            (vec![c], None)
        }
        1 => {
            let c = u8s("digit");
            assume(c >= b'0' && c <= b'9');
            (vec![c], None)
        }
        2 => {
            let c = range("cap", 1, 9);
            (vec![b'/', b'h', b'i', b's', b't', b'c', b'a', b'p', b' ', b'0' + c as u8], Some(c as usize))
        }
        3 => (b"/histcap 0".to_vec(), None),
        4 => (vec![], None),
        5 => (b"/histcap".to_vec(), None),
        6 => (b"1/0".to_vec(), None),
        7 => (b"/histcap 1 2".to_vec(), None),
        8 => (b" /nothing".to_vec(), None),
        9 => (b"/histcap 2".to_vec(), Some(2)),
        10 => (b"/histcap 99".to_vec(), Some(99)),
        _ => {
            let c = range("cap", 1, 3);
            (vec![b'/', b'h', b'i', b's', b't', b'c', b'a', b'p', b' ', b'0' + c as u8], Some(c as usize))
        }
    }
}
const REOPEN: u8 = 100;
pub fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
pub fn submit(s: &mut Ses, r: &mut Saved, kind: u8) {
    let (b, cap) = line(kind);
    let o = s.submit(text(&b));
    r.add(&b);
    match kind {
        1 | 4 => check(o.is_ok(), "the line is evaluated"),
        5 => check(eq(o.text().as_bytes(), r.cap.to_string().as_bytes()), "the capacity is reported"),
        2 | 9 | 10 | 11 => {
            check(o.is_ok(), "the capacity is set");
            r.cap = conc(cap.unwrap() as u64) as usize;
            r.trim();
            reach("capacity");
        }
        _ => check(!o.is_ok(), "the line is an error"),
    }
}
fn run(s: Ses, mut r: Saved, steps: usize, kinds: &[u8]) {
    let mut s = s;
    for _ in 0..steps {
        let k = kinds[pick("kind", 0, kinds.len() as u64 - 1) as usize];
        if k == REOPEN {
            end(s);
            s = session();
            reach("reopened");
        } else {
            submit(&mut s, &mut r, k);
        }
    }
    end(s);
    if r.lines.len() == r.cap {
        reach("full");
    }
    compare(&r);
    reach("compared");
}
#[no_mangle]
pub extern "C" fn h_c10_three() {
    data_dir();
    let n = pick("steps", 0, 3) as usize;
    run(session(), Saved::new(), n, &[0, 1, 2, 3, 4, 5, 6, 7, 8, REOPEN]);
}
#[no_mangle]
pub extern "C" fn h_c10_five() {
    data_dir();
    run(session(), Saved::new(), 5, &[0, 11, 3, REOPEN]);
}
/// From a full history of the default capacity
#[no_mangle]
pub extern "C" fn h_c10_default() {
    data_dir();
    let mut s = session();
    let mut r = Saved::new();
    for i in 0..98 {
        let l = format!("x{}", i);
        s.submit(&l);
        r.add(l.as_bytes());
    }
    run(s, r, 4, &[0, 10, 9, REOPEN]);
}
/// Two sessions at the same time
#[no_mangle]
pub extern "C" fn h_c10_two() {
    data_dir();
    let mut a = session();
    let mut r = Saved::new();
    submit(&mut a, &mut r, 0);
    let mut b = session();
    for _ in 0..4 {
        let k = [0u8, 11][pick("kind", 0, 1) as usize];
        if boolean("second") {
            submit(&mut b, &mut r, k);
        } else {
            submit(&mut a, &mut r, k);
        }
    }
    drop(a);
    end(b);
    compare(&r);
    reach("compared");
}
/// The text of the lines
#[no_mangle]
pub extern "C" fn h_c10_text() {
    data_dir();
    let mut r = Saved::new();
    let mut s = session();
    for _ in 0..2 {
        let n = pick("length", 0, 4) as usize;
        let b = bytes("c", n, 0, 127);
        for (i, c) in b.iter().enumerate() {
            s.inputs.insert_char_into_current_line(i, *c as char);
        }
        let o = s.inputs.input_finished(s.db.as_mut());
        check(o.is_ok(), "the line is recorded");
        r.add(&b);
    }
    end(s);
    compare(&r);
    reach("compared");
}
/// Long lines
#[no_mangle]
pub extern "C" fn h_c10_long() {
    data_dir();
    let mut r = Saved::new();
    let mut s = session();
    for _ in 0..2 {
        let n = [10usize, 300, 5000, 20000][pick("length", 0, 3) as usize];
        let mut b = vec![b'x'; n];
        let c = bytes("c", 3, 1, 127);
        b[0] = c[0];
        b[n / 2] = c[1];
        b[n - 1] = c[2];
        for (i, c) in b.iter().enumerate() {
            s.inputs.insert_char_into_current_line(i, *c as char);
        }
        let o = s.inputs.input_finished(s.db.as_mut());
        check(o.is_ok(), "the line is recorded");
        r.add(&b);
    }
    end(s);
    compare(&r);
    reach("compared");
}
/// Any capacity
#[no_mangle]
pub extern "C" fn h_c10_capacity() {
    data_dir();
    let n = pick("length", 1, 3) as usize;
    let arg = from_set("arg", n, b"0123456789- x");
    let l = format!("/histcap {}", arg);
    let mut s = session();
    let o = s.submit(&l);
    end(s);
    let mut r = Saved::new();
    r.add(l.as_bytes());
    // the reference: one number
    let w: Vec<&[u8]> = arg.as_bytes().split(|c| *c == b' ').filter(|w| !w.is_empty()).collect();
    let mut want = None;
    if w.len() == 1 {
        let mut v = 0usize;
        let mut ok = true;
        for &c in w[0] {
            if c >= b'0' && c <= b'9' {
                v = v * 10 + (c - b'0') as usize;
            } else {
                ok = false;
            }
        }
        if ok && v > 0 {
            want = Some(v);
        }
    }
    if w.is_empty() {
        reach("report");
        check(o.is_ok() && eq(o.text().as_bytes(), b"100"), "the capacity is reported");
    } else if let Some(v) = want {
        reach("set");
        check(o.is_ok(), "the capacity is set");
        r.cap = v;
    } else {
        reach("refused");
        check(!o.is_ok(), "an invalid capacity is refused");
    }
    compare(&r);
}
/// Capacities of many digits
#[no_mangle]
pub extern "C" fn h_c10_capacity_large() {
    data_dir();
    // around 2^15, 2^16, 2^31, 2^32, 2^53, 2^63 and 2^64, and a power of ten
    let base = [32765u64, 65533, 2147483645, 4294967293, 9007199254740990, 9223372036854775805, 18446744073709551608, 10000000000000]
        [pick("base", 0, 7) as usize];
    let v = base + pick("more", 0, 5);
    let l = format!("/histcap {}", v);
    let mut r = Saved::new();
    let mut s = session();
    for t in ["1", "2"] {
        s.submit(t);
        r.add(t.as_bytes());
    }
    let o = s.submit(&l);
    r.add(l.as_bytes());
    if v < 1u64 << 63 {
        reach("set");
        check(o.is_ok(), "the capacity is set");
        r.cap = v as usize;
    } else {
        reach("refused");
        check(!o.is_ok(), "an invalid capacity is refused");
    }
    s.submit("3");
    r.add(b"3");
    end(s);
    compare(&r);
    let mut s = session();
    let o = s.submit("/histcap");
    r.add(b"/histcap");
    check(o.is_ok() && eq(o.text().as_bytes(), r.cap.to_string().as_bytes()), "the capacity is reported");
    end(s);
    let mut s = session();
    s.submit("4");
    r.add(b"4");
    end(s);
    compare(&r);
}

#[no_mangle]
pub extern "C" fn h_c10_six() {
    data_dir();
    run(session(), Saved::new(), 6, &[0, 11, REOPEN]);
}
