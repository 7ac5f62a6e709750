#!/usr/bin/env python3
"""Copy crossterm from the cargo cache to DEST, replacing the five functions that talk to a real terminal by calls to
hooks the harness defines (events, size, position, raw mode)."""
import sys, os, re, shutil, glob
dest = sys.argv[1]
src = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/crossterm-0.28.1')))[0]
if os.path.isdir(dest):
    shutil.rmtree(dest)
shutil.copytree(src, dest)
def sub_fn(path, sig, body, extra=''):
    p = os.path.join(dest, path)
    s = open(p).read()
    i = s.index(sig)
    j = s.index('{', i)
    d = 0
    k = j
    while True:
        if s[k] == '{': d += 1
        if s[k] == '}':
            d -= 1
            if d == 0: break
        k += 1
    s = s[:i] + sig + ' {' + body + '}' + s[k+1:] + extra
    open(p, 'w').write(s)
sub_fn('src/event.rs', 'pub fn read() -> std::io::Result<Event>', '''
    extern "C" { fn verif_hook_event(out: *mut u8) -> i32; }
    let mut e = std::mem::MaybeUninit::<Event>::uninit();
    let r = unsafe { verif_hook_event(e.as_mut_ptr() as *mut u8) };
    if r != 0 { return Err(std::io::Error::from_raw_os_error(r)); }
    Ok(unsafe { e.assume_init() })
''')
sub_fn('src/event.rs', 'pub fn poll(timeout: Duration) -> std::io::Result<bool>', ' let _ = timeout; Ok(true) ')
sub_fn('src/terminal.rs', 'pub fn enable_raw_mode() -> io::Result<()>', '''
    extern "C" { fn verif_hook_raw(on: u32) -> i32; }
    match unsafe { verif_hook_raw(1) } {
        0 => Ok(()),
        e => Err(io::Error::from_raw_os_error(e)),
    }
''')
sub_fn('src/terminal.rs', 'pub fn disable_raw_mode() -> io::Result<()>', '''
    extern "C" { fn verif_hook_raw(on: u32) -> i32; }
    match unsafe { verif_hook_raw(0) } {
        0 => Ok(()),
        e => Err(io::Error::from_raw_os_error(e)),
    }
''')
sub_fn('src/terminal.rs', 'pub fn is_raw_mode_enabled() -> io::Result<bool>', ' Ok(true) ')
sub_fn('src/terminal.rs', 'pub fn size() -> io::Result<(u16, u16)>', '''
    extern "C" { fn verif_hook_size() -> u32; }
    let r = unsafe { verif_hook_size() };
    Ok((r as u16, (r >> 16) as u16))
''')
sub_fn('src/cursor/sys/unix.rs', 'pub fn position() -> io::Result<(u16, u16)>', '''
    extern "C" { fn verif_hook_position() -> u32; }
    let r = unsafe { verif_hook_position() };
    Ok((r as u16, (r >> 16) as u16))
''')
