//! Running the whole program: its arguments, its exit.
use super::sym::*;

pub static mut ARGV: Vec<String> = vec![];
static mut AT_EXIT: Option<fn(i32)> = None;

#[no_mangle]
pub extern "C" fn verif_hook_arg(i: usize, out: *mut u8, cap: usize) -> isize {
    unsafe {
        match ARGV.get(i) {
            Some(a) => {
                let n = a.len().min(cap);
                std::ptr::copy_nonoverlapping(a.as_ptr(), out, n);
                n as isize
            }
            None => -1,
        }
    }
}
#[no_mangle]
pub extern "C" fn verif_hook_exit(code: i32) {
    unsafe {
        if let Some(f) = AT_EXIT {
            f(code);
            ended();
        }
    }
}
#[cfg(not(verif_sym))]
mod exit {
    extern "C" {
        fn on_exit(f: extern "C" fn(i32, *mut u8), d: *mut u8) -> i32;
    }
    extern "C" fn handler(code: i32, _: *mut u8) {
        super::verif_hook_exit(code);
    }
    pub fn watch() {
        unsafe {
            on_exit(handler, std::ptr::null_mut());
        }
    }
}
/// Runs the program with these arguments; `at_exit` is called if it calls exit.
pub fn run(argv: Vec<String>, at_exit: fn(i32)) -> Result<(), Box<dyn std::error::Error>> {
    unsafe {
        ARGV = argv;
        AT_EXIT = Some(at_exit);
    }
    #[cfg(not(verif_sym))]
    exit::watch();
    out_take();
    err_take();
    let r = crate::main();
    unsafe {
        AT_EXIT = None;
    }
    r
}
pub fn words(w: &[&str]) -> Vec<String> {
    w.iter().map(|s| s.to_string()).collect()
}
