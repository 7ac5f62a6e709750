#!/usr/bin/env python3
"""Copy clap from the cargo cache to DEST, taking the program's arguments from a hook the harness defines."""
import sys, os, re, shutil, glob
dest = sys.argv[1]
lock = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'Cargo.lock')
v = re.search(r'name = "clap"\nversion = "([^"]*)"', open(lock).read()).group(1)
src = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/clap-' + v)))[0]
if os.path.isdir(dest):
    shutil.rmtree(dest)
shutil.copytree(src, dest)
n = 0
for p in glob.glob(dest + '/src/builder/*.rs'):
    s = open(p).read()
    t = s.replace('&mut env::args_os()', 'verif_args()')
    if t != s:
        n += 1
        t += '''
/// The arguments of the program.
fn verif_args() -> Vec<std::ffi::OsString> {
    extern "C" { fn verif_hook_arg(i: usize, out: *mut u8, cap: usize) -> isize; }
    let mut v = vec![];
    loop {
        let mut b = vec![0u8; 256];
        let n = unsafe { verif_hook_arg(v.len(), b.as_mut_ptr(), 256) };
        if n < 0 { return v; }
        b.truncate(n as usize);
        v.push(std::os::unix::ffi::OsStringExt::from_vec(b));
    }
}
'''
        open(p, 'w').write(t)
assert n
