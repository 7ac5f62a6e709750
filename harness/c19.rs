//! C19: reopening never damages saved data.
use super::db::*;
use super::edit::*;
use super::ses::*;
use super::sym::*;
use super::term::*;
use super::util::*;
use num::BigRational;

fn path() -> String {
    tmpdir() + "/bcalc/saved_data.sqlite"
}
fn bytes_of_file() -> Vec<u8> {
    std::fs::read(path()).unwrap_or_default()
}
/// Sets a value of the table of settings the way another version of the program would.
fn set_meta(key: i64, value: i64) {
    let c = rusqlite::Connection::open(path()).unwrap();
    let r = c.execute("INSERT OR REPLACE INTO meta_int (key, value) VALUES (?1, ?2)", [key, value]);
    check(r.is_ok(), "the harness can write the table");
    drop(c);
    new_process();
}
fn meta(key: i64) -> Option<i64> {
    let c = rusqlite::Connection::open(path()).unwrap();
    let r: Option<i64> = c.query_row("SELECT value FROM meta_int WHERE key=?1", [key], |r| r.get(0)).ok();
    drop(c);
    new_process();
    r
}
/// Some lines of some kinds; what is saved then.
fn fill(steps: usize) -> (Saved, Option<u8>) {
    let mut r = Saved::new();
    let mut a = None;
    let mut s = session();
    for _ in 0..steps {
        let (l, ok) = match pick("kind", 0, 3) {
            0 => {
                let c = u8s("c");
                assume(c >= b'g' && c <= b'z');
                (vec![c], false)
            }
            1 => {
                let c = u8s("value");
                assume(c >= b'1' && c <= b'9');
                a = Some(c);
                (vec![b'$', b'a', b'=', c], true)
            }
            2 => (b"/histcap 50".to_vec(), true),
            _ => (b"/histcap 7".to_vec(), true),
        };
        let o = s.submit(super::c10::text(&l));
        check(o.is_ok() == ok, "the line is evaluated");
        r.add(&l);
        if l[0] == b'/' {
            r.cap = if l[9] == b'5' { 50 } else { 7 };
        }
    }
    end(s);
    (r, a)
}
fn unchanged(r: &Saved, a: Option<u8>) {
    let mut s = session();
    let v = recall(&mut s);
    check(r.recalled(&v), "the saved lines are not changed");
    check(capacity(&mut s) == Some(r.cap as i64), "the capacity is not changed");
    let x = s.value_db("$a");
    match a {
        None => check(x.is_none(), "no variable appears"),
        Some(c) => check(x == Some(BigRational::from_integer((c as i64 - 48).into())), "the variable is not changed"),
    }
    end(s);
}
#[no_mangle]
pub extern "C" fn h_c19_reopen() {
    data_dir();
    let n = pick("steps", 0, 3) as usize;
    let (r, a) = fill(n);
    let k = pick("times", 1, 3);
    for _ in 0..k {
        let s = session();
        end(s);
    }
    unchanged(&r, a);
    // two sessions at once
    let s = session();
    let t = session();
    drop(s);
    end(t);
    unchanged(&r, a);
    reach("reopened");
}
/// Any capacity that was saved
#[no_mangle]
pub extern "C" fn h_c19_capacity() {
    data_dir();
    let (mut r, a) = fill(1);
    let cap = input("capacity", 64) as i64;
    assume(cap >= 1);
    set_meta(3, cap);
    for _ in 0..2 {
        let mut s = session();
        check(capacity(&mut s) == Some(cap), "the capacity is not changed");
        end(s);
    }
    check(meta(3) == Some(cap), "the capacity is not changed");
    let mut s = session();
    check(s.submit("1").is_ok(), "the line is evaluated");
    r.add(b"1");
    end(s);
    let mut s = session();
    let v = recall(&mut s);
    if cap == 1 {
        check(v.len() == 1 && eq(v[0].as_bytes(), b"1"), "the saved history is the last line");
        reach("one");
    } else {
        check(r.recalled(&v), "the saved lines are not changed");
        reach("more");
    }
    end(s);
}
/// Any version and minimum version
#[no_mangle]
pub extern "C" fn h_c19_version() {
    data_dir();
    let (r, a) = fill(1);
    let version = input("version", 64) as i64;
    let minimum = input("minimum", 64) as i64;
    set_meta(1, version);
    set_meta(2, minimum);
    let before = bytes_of_file();
    let o = crate::saved_data::SavedData::open();
    if minimum > 1 {
        reach("refused");
        check(o.is_err(), "a database of a newer version is refused");
        drop(o);
        new_process();
        let after = bytes_of_file();
        check(eq(&before, &after), "a database that is refused is left untouched");
        // and so does the program
        let e = drive(dbargs(), vec![ch(b'1'), code(crossterm::event::KeyCode::Enter)], 80, 0, nothing, false);
        check(e == End::Other, "the program ends with an error");
        new_process();
        let after = bytes_of_file();
        check(eq(&before, &after), "a database that is refused is left untouched");
        // the saved data is still there for the newer version
        set_meta(2, 1);
        unchanged(&r, a);
    } else {
        reach("opened");
        check(matches!(o, Ok(Some(_))), "the database is opened");
        drop(o);
        new_process();
        unchanged(&r, a);
        check(meta(1) == Some(version) && meta(2) == Some(minimum), "the versions are not changed");
    }
}
fn sql(statements: &[&str]) {
    let c = rusqlite::Connection::open(path()).unwrap();
    for s in statements {
        check(c.execute(s, ()).is_ok(), "the harness can write the database");
    }
    drop(c);
    new_process();
}
/// A database written by some other version: only some of the tables, any versions
#[no_mangle]
pub extern "C" fn h_c19_other() {
    data_dir();
    let _ = std::fs::create_dir(tmpdir() + "/bcalc");
    let tables = pick("tables", 0, 3);
    if tables > 0 {
        sql(&["CREATE TABLE meta_int(key INTEGER PRIMARY KEY ASC, value INTEGER NOT NULL)"]);
    }
    if tables > 1 {
        sql(&[
            "CREATE TABLE input_history(id INTEGER PRIMARY KEY ASC, input TEXT NOT NULL, next REFERENCES input_history(id), prev REFERENCES input_history(id))",
            "INSERT INTO input_history VALUES (7, 'x', NULL, NULL)",
            "CREATE TABLE input_history_tags(key INTEGER PRIMARY KEY ASC, value REFERENCES input_history(id))",
            "INSERT INTO input_history_tags VALUES (1, 7), (2, 7)",
        ]);
    }
    if tables > 2 {
        sql(&["CREATE TABLE future(x)", "INSERT INTO future VALUES (5)"]);
    }
    let declared = tables > 0 && boolean("declared");
    let minimum = if declared { input("minimum", 64) as i64 } else { 1 };
    if declared {
        set_meta(2, minimum);
    }
    if tables > 0 && boolean("versioned") {
        set_meta(1, input("version", 64) as i64);
    }
    let before = bytes_of_file();
    if minimum > 1 {
        let o = crate::saved_data::SavedData::open();
        check(o.is_err(), "a database of a newer version is refused");
        drop(o);
        new_process();
        let after = bytes_of_file();
        check(eq(&before, &after), "a database that is refused is left untouched");
        reach("refused");
    } else {
        // tables that are missing are added
        let mut s = session();
        let v = recall(&mut s);
        if tables > 1 {
            check(v.len() == 1 && eq(v[0].as_bytes(), b"x"), "the saved lines are not changed");
        } else {
            check(v.is_empty(), "no line appears");
        }
        check(s.submit("$a=1").is_ok(), "the database works");
        end(s);
        let mut s = session();
        check(recall(&mut s).len() == v.len() + 1, "the database works");
        check(s.value_db("$a").is_some(), "the database works");
        end(s);
        reach("opened");
    }
}
/// Without the directory
#[no_mangle]
pub extern "C" fn h_c19_none() {
    std::env::remove_var("_B_UTIL_DATA_DIR");
    let o = crate::saved_data::SavedData::open();
    check(matches!(o, Ok(None)), "no database is used");
    let mut ses = Ses::new(dbargs());
    let c = u8s("c");
    assume(c >= b'1' && c <= b'9');
    let mut l = vec![b'$', b'a', b'='];
    l.push(c);
    let x = ses.submit(super::c10::text(&l));
    let y = ses.submit("$a");
    check(x.is_ok() && y.is_ok(), "lines are evaluated");
    check(eq(x.text().as_bytes(), &[c]) && eq(y.text().as_bytes(), &[c]), "variables work");
    let z = ses.submit(["/histcap", "/histcap 5", "/reloadvar $a"][pick("command", 0, 2) as usize]);
    check(!z.is_ok(), "a command that needs the database is an error");
    let v = recall(&mut ses);
    check(v.len() == 3 && eq(v[1].as_bytes(), b"$a") && eq(v[2].as_bytes(), &l), "the history of the session works");
    end(ses);
    check(std::fs::metadata(tmpdir() + "/bcalc").is_err(), "nothing is written");
    let e = drive(dbargs(), vec![ch(c), code(crossterm::event::KeyCode::Enter)], 80, 0, nothing, true);
    check(e == End::Script, "the program works");
    reach("none");
}
