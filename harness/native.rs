//! Native definitions of the symbolic interface, used to replay a counterexample on the real build.
//! VERIF_INPUTS names a file of lines `name<TAB>value`; VERIF_RESULT names the file the outcome is written to.
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;

extern "C" {
    fn getenv(n: *const u8) -> *const u8;
    fn _exit(c: i32) -> !;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, f: i32, m: i32) -> i32;
    fn pread(fd: i32, b: *mut u8, n: usize, o: i64) -> isize;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn lseek(fd: i32, o: i64, w: i32) -> i64;
}

struct St {
    vals: HashMap<String, u128>,
    count: HashMap<String, u32>,
    loc: String,
    outfd: i32,
    errfd: i32,
    caught: u32,
}
static ST: Mutex<Option<St>> = Mutex::new(None);

fn result(s: &str) {
    let p = std::env::var("VERIF_RESULT").unwrap_or("/dev/null".into());
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
        let _ = writeln!(f, "{}", s);
    }
}
fn with_st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    let mut g = match ST.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    if g.is_none() {
        let mut vals = HashMap::new();
        let p = std::env::var("VERIF_INPUTS").unwrap_or("/dev/null".into());
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            if let Some((a, b)) = l.rsplit_once('\t') {
                if let Ok(v) = b.parse::<u128>() {
                    vals.insert(a.to_string(), v);
                }
            }
        }
        std::panic::set_hook(Box::new(|i| {
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            result(&format!("PANIC {} {}", l, i.to_string().replace('\n', " ")));
            if let Ok(mut g) = LOC.lock() {
                *g = l;
            }
        }));
        *g = Some(St { vals, count: HashMap::new(), loc: String::new(), outfd: -1, errfd: -1, caught: 0 });
    }
    f(g.as_mut().unwrap())
}
static LOC: Mutex<String> = Mutex::new(String::new());

unsafe fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
}

/// Entry point of the replay driver: runs `f`, reports how it ended.
#[no_mangle]
pub extern "C" fn verif_replay(f: extern "C" fn()) {
    with_st(|_| ());
    // capture stdout in a file
    let p = std::env::var("VERIF_STDOUT").unwrap_or("/dev/null".into()) + "\0";
    unsafe {
        let fd = open(p.as_ptr(), 0o2 | 0o100 | 0o1000 | 0o2000, 0o600);
        dup2(fd, 1);
        with_st(|s| s.outfd = fd);
        let q = std::env::var("VERIF_STDOUT").map(|p| p + ".err").unwrap_or("/dev/null".into()) + "\0";
        let fd = open(q.as_ptr(), 0o2 | 0o100 | 0o1000 | 0o2000, 0o600);
        dup2(fd, 2);
        with_st(|s| s.errfd = fd);
    }
    let r = std::panic::catch_unwind(|| f());
    if r.is_err() {
        result("ENDED panic");
        unsafe { _exit(3) }
    }
    result("ENDED ok");
    unsafe { _exit(0) }
}

#[no_mangle]
pub unsafe extern "C" fn sym_input(p: *const u8, n: usize, bits: u64) -> u64 {
    let name = st(p, n);
    with_st(|s| {
        let k = s.count.entry(name.clone()).or_insert(0);
        let full = if *k == 0 { name.clone() } else { format!("{}#{}", name, k) };
        *k += 1;
        let v = s.vals.get(&full).copied().unwrap_or(0) as u64;
        if bits < 64 {
            v & ((1u64 << bits) - 1)
        } else {
            v
        }
    })
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        result("ENDED assumption");
        unsafe { _exit(4) }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        result(&format!("CHECK {}", st(p, n)));
        result("ENDED check");
        _exit(3)
    }
}
#[no_mangle]
pub extern "C" fn sym_conc(x: u64) -> u64 {
    x
}
#[no_mangle]
pub unsafe extern "C" fn sym_reach(p: *const u8, n: usize) {
    result(&format!("REACH {}", st(p, n)));
}
#[no_mangle]
pub unsafe extern "C" fn sym_note(p: *const u8, n: usize) {
    result(&format!("NOTE {}", st(p, n)));
}
#[no_mangle]
pub extern "C-unwind" fn sym_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
    unsafe {
        if INJ.0 == 1 {
            // the crash happens in a child process; if none does, the child goes on from here
            let pid = fork();
            if pid > 0 {
                let mut st = 0;
                waitpid(pid, &mut st, 0);
                let code = if st & 0x7f == 0 { st >> 8 & 0xff } else { 3 };
                if code == CRASHED {
                    INJ.3 = true;
                    return 2;
                }
                _exit(code)
            }
        }
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
#[no_mangle]
pub extern "C" fn sym_new_process() {}

// ---- faults: SQLite's system calls go through here while a fault is to be injected
const CRASHED: i32 = 77;
/// mode, index, seen so far, hit
static mut INJ: (u32, u64, u64, bool) = (0, 0, 0, false);
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, f: i32) -> i32;
    fn __errno_location() -> *mut i32;
    fn access(p: *const u8, m: i32) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn pwrite64(fd: i32, b: *const u8, n: usize, o: i64) -> isize;
    fn unlink(p: *const u8) -> i32;
    fn fsync(fd: i32) -> i32;
    fn fdatasync(fd: i32) -> i32;
}
/// A point at which the file system changes: true if the call fails.
unsafe fn fault() -> bool {
    let (mode, k, n, hit) = INJ;
    let e = if mode == 0 {
        return false;
    } else if hit && mode == 3 {
        28
    } else {
        INJ.2 += 1;
        if k != n {
            return false;
        }
        INJ.3 = true;
        match mode {
            1 => _exit(CRASHED),
            2 => 5,
            _ => 28,
        }
    };
    *__errno_location() = e;
    true
}
unsafe extern "C" fn f_open(p: *const u8, flags: i32, mode: i32) -> i32 {
    if flags & 0o100 != 0 && access(p, 0) != 0 && fault() {
        return -1;
    }
    open(p, flags, mode)
}
unsafe extern "C" fn f_write(fd: i32, b: *const u8, n: usize) -> isize {
    if fault() {
        return -1;
    }
    write(fd, b, n)
}
unsafe extern "C" fn f_pwrite(fd: i32, b: *const u8, n: usize, o: i64) -> isize {
    if fault() {
        return -1;
    }
    pwrite64(fd, b, n, o)
}
unsafe extern "C" fn f_ftruncate(fd: i32, n: i64) -> i32 {
    if fault() {
        return -1;
    }
    ftruncate(fd, n)
}
unsafe extern "C" fn f_unlink(p: *const u8) -> i32 {
    if access(p, 0) == 0 && fault() {
        return -1;
    }
    unlink(p)
}
/// SQLite's fsync and fdatasync (renamed when it is compiled).
#[no_mangle]
pub unsafe extern "C" fn verif_fsync(fd: i32) -> i32 {
    if INJ.0 > 1 && fault() {
        return -1;
    }
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn verif_fdatasync(fd: i32) -> i32 {
    if INJ.0 > 1 && fault() {
        return -1;
    }
    fdatasync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn sym_inject(k: u64, mode: u32) {
    use rusqlite::ffi;
    static mut DONE: bool = false;
    if !DONE {
        DONE = true;
        let vfs = ffi::sqlite3_vfs_find(std::ptr::null());
        let set = (*vfs).xSetSystemCall.unwrap();
        for (n, f) in [
            ("open\0", f_open as *const ()),
            ("write\0", f_write as *const ()),
            ("pwrite\0", f_pwrite as *const ()),
            ("pwrite64\0", f_pwrite as *const ()),
            ("ftruncate\0", f_ftruncate as *const ()),
            ("unlink\0", f_unlink as *const ()),
        ] {
            let f: ffi::sqlite3_syscall_ptr = std::mem::transmute(f);
            set(vfs, n.as_ptr() as *const _, f);
        }
    }
    INJ = (mode, k, 0, false);
}
#[no_mangle]
pub unsafe extern "C" fn sym_inject_off() -> u64 {
    let r = INJ.2 * 2 + INJ.3 as u64;
    INJ.0 = 0;
    r
}
#[no_mangle]
pub extern "C" fn sym_split(_degree: u64) {}
#[no_mangle]
pub unsafe extern "C" fn sym_out_take(p: *mut u8, cap: usize) -> usize {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    with_st(|s| {
        let n = pread(s.outfd, p, cap, 0);
        ftruncate(s.outfd, 0);
        lseek(s.outfd, 0, 0);
        n.max(0) as usize
    })
}
#[no_mangle]
pub unsafe extern "C" fn sym_err_take(p: *mut u8, cap: usize) -> usize {
    with_st(|s| {
        let n = pread(s.errfd, p, cap, 0);
        ftruncate(s.errfd, 0);
        lseek(s.errfd, 0, 0);
        n.max(0) as usize
    })
}
#[no_mangle]
pub unsafe extern "C" fn sym_out_break(on: u64) {
    use std::io::Write;
    let fd = if on & 1 == 1 {
        let _ = std::io::stdout().flush();
        open("/dev/full\0".as_ptr(), 1, 0)
    } else {
        with_st(|s| s.outfd)
    };
    dup2(fd, 1);
}
#[no_mangle]
pub unsafe extern "C" fn sym_ended() -> ! {
    result("ENDED ok");
    _exit(0)
}
#[no_mangle]
pub unsafe extern "C" fn sym_panic_loc(p: *mut u8, cap: usize) -> usize {
    let l = LOC.lock().map(|g| g.clone()).unwrap_or_default();
    let n = l.len().min(cap);
    std::ptr::copy_nonoverlapping(l.as_ptr(), p, n);
    n
}
#[no_mangle]
pub unsafe extern "C" fn sym_tmpdir(p: *mut u8, cap: usize) -> usize {
    let l = std::env::var("VERIF_SCRATCH").unwrap_or("/nonexistent".into());
    let n = l.len().min(cap);
    std::ptr::copy_nonoverlapping(l.as_ptr(), p, n);
    n
}
/// An assumption that loses nothing (fractions have a reduced form), so nothing to do here.
#[no_mangle]
pub extern "C" fn sym_coprime(_a: *const u8, _b: *const u8) {}

// ---- coroutines: a thread of which only one runs at any time
struct Baton {
    second: bool,
    alive: bool,
}
static BATON: Mutex<Baton> = Mutex::new(Baton { second: false, alive: false });
static PASSED: std::sync::Condvar = std::sync::Condvar::new();
fn wait_for(second: bool) {
    let mut g = BATON.lock().unwrap();
    while g.second != second {
        g = PASSED.wait(g).unwrap();
    }
}
fn pass(second: bool) {
    BATON.lock().unwrap().second = second;
    PASSED.notify_all();
}
thread_local!(static IN_SECOND: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
#[no_mangle]
pub extern "C" fn sym_co_start(f: extern "C" fn(*mut u8), d: *mut u8) {
    let d = d as usize;
    BATON.lock().unwrap().alive = true;
    std::thread::spawn(move || {
        IN_SECOND.with(|x| x.set(true));
        wait_for(true);
        if std::panic::catch_unwind(|| f(d as *mut u8)).is_err() {
            result("ENDED panic");
            unsafe { _exit(3) }
        }
        BATON.lock().unwrap().alive = false;
        pass(false);
    });
}
#[no_mangle]
pub extern "C" fn sym_co_switch() -> u64 {
    if !BATON.lock().unwrap().alive {
        return 0;
    }
    let second = IN_SECOND.with(|x| x.get());
    pass(!second);
    wait_for(second);
    1
}
