#!/usr/bin/env python3
"""Builds everything the checks need, from /repo's current working tree:
   engine   the symbolic execution engine (symex)
   ir       LLVM IR of bcalc + its dependencies + std + SQLite + the harnesses
   native   a cdylib of bcalc + the harnesses, for replaying counterexamples on the real code
Everything goes to /verif/build. Each step is skipped when its inputs are unchanged."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
HOME = os.path.expanduser('~')
NIGHTLY = HOME + '/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin/'
STABLE = HOME + '/.rustup/toolchains/stable-x86_64-unknown-linux-gnu'

class BuildError(Exception):
    pass

def run(cmd, cwd=None, env=None, log=None, timeout=800):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'RUSTC_BOOTSTRAP'):
            del e[k]
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError('%s failed\n%s' % (' '.join(cmd)[:300], p.stdout.decode(errors='replace')[-6000:]))
    return p.stdout.decode(errors='replace')

def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()

def files(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', '.git', '__pycache__')]
        out += [os.path.join(r, f) for f in fs]
    return out

def stamp_ok(name, dg, outs):
    p = os.path.join(B, name + '.stamp')
    try:
        return open(p).read() == dg and all(os.path.exists(o) for o in outs)
    except OSError:
        return False

def stamp(name, dg):
    with open(os.path.join(B, name + '.stamp'), 'w') as f:
        f.write(dg)

def unstamp(name):
    try:
        os.remove(os.path.join(B, name + '.stamp'))
    except OSError:
        pass

def engine():
    exe = B + '/engine/release/symex'
    dg = digest(files(VERIF + '/engine'))
    if not stamp_ok('engine', dg, [exe]):
        unstamp('engine')
        run(['cargo', 'build', '--release', '--offline'], cwd=VERIF + '/engine',
            env={'CARGO_TARGET_DIR': B + '/engine', 'RUSTUP_TOOLCHAIN': 'stable'})
        stamp('engine', dg)
    return exe

def rust_src():
    """A copy of the standard library source in which the hash used by HashMap/HashSet is the constant 0: lookups are
    then decided by key equality alone, so that symbolic keys do not have to go through SipHash."""
    d = B + '/rust-src'
    lib = d + '/library'
    if not os.path.exists(d + '/.ok') or open(d + '/.ok').read() != 'v2':
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        src = STABLE + '/lib/rustlib/src/rust/library'
        shutil.copytree(src, lib, symlinks=True)
        p = lib + '/std/src/hash/random.rs'
        s = open(p).read()
        i = s.index('impl Hasher for DefaultHasher')
        t = s[i:]
        t = t.replace('self.0.write(msg)', 'let _ = msg;', 1).replace('self.0.write_str(s);', 'let _ = s;', 1)
        assert 'self.0.finish()' in t
        t = t.replace('self.0.finish()', '0', 1)
        open(p, 'w').write(s[:i] + t)
        # harnesses that run main() learn about a call of exit
        p = lib + '/std/src/process.rs'
        s = open(p).read()
        t = '    crate::rt::cleanup();\n    crate::sys::exit::exit(code)'
        assert t in s
        s = s.replace(t, '    crate::rt::cleanup();\n    unsafe extern "C" {\n        fn verif_hook_exit(code: i32);\n    }\n'
                      '    unsafe { verif_hook_exit(code) };\n    crate::sys::exit::exit(code)')
        open(p, 'w').write(s)
        open(d + '/.ok', 'w').write('v2')
    return lib

def crossterm():
    d = B + '/crossterm'
    g = VERIF + '/ir/gen_crossterm.py'
    dg = digest([g])
    if not stamp_ok('crossterm', dg, [d + '/Cargo.toml']):
        run(['python3', g, d])
        stamp('crossterm', dg)
    return d

def clap():
    d = B + '/clap'
    g = VERIF + '/ir/gen_clap.py'
    dg = digest([g])
    if not stamp_ok('clap', dg, [d + '/Cargo.toml']):
        run(['python3', g, d])
        stamp('clap', dg)
    return d

def rational():
    d = B + '/num-rational'
    g = VERIF + '/ir/gen_rational.py'
    dg = digest([g])
    if not stamp_ok('rational', dg, [d + '/Cargo.toml']):
        run(['python3', g, d])
        stamp('rational', dg)
    return d

def put(path, text):
    """Write only when changed, so that cargo's mtime checks see real changes only."""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)

BASE = ('sym', 'util')
def all_mods():
    return sorted(f[:-3] for f in os.listdir(VERIF + '/harness') if f.endswith('.rs') and f[:-3] not in BASE + ('mod', 'native'))

def mod_rs(mods):
    t = open(VERIF + '/harness/mod.rs').read()
    for m in mods:
        t += '#[path = "%s.rs"]\npub mod %s;\n' % (m, m)
    return t

def crate(dst, native, mods):
    """Copy of the repository's crate with the harness modules added to the crate root."""
    src = REPO + '/src'
    want = set()
    for p in files(src):
        rel = os.path.relpath(p, src)
        want.add(rel)
        t = open(p, encoding='utf-8').read()
        if rel == 'main.rs':
            t += '\n#[path = "verif_harness/mod.rs"]\nmod verif_harness;\n'
        put(dst + '/src/' + rel, t)
    for p in files(VERIF + '/harness'):
        rel = 'verif_harness/' + os.path.relpath(p, VERIF + '/harness')
        name = os.path.basename(p)[:-3]
        if name not in BASE + ('mod', 'native') and name not in mods:
            continue
        want.add(rel)
        put(dst + '/src/' + rel, mod_rs(mods) if name == 'mod' else open(p).read())
    for p in files(dst + '/src'):
        if os.path.relpath(p, dst + '/src') not in want:
            os.remove(p)
    t = open(REPO + '/Cargo.toml').read()
    for extra in ('build.rs',):
        if os.path.exists(REPO + '/' + extra):
            shutil.copy(REPO + '/' + extra, dst + '/' + extra)
    if native:
        t += '\n[lib]\nname = "bcalc_native"\npath = "src/main.rs"\ncrate-type = ["cdylib"]\n'
        t = t.replace('[package]', '[package]\nautobins = false', 1)
    t += '\n[workspace]\n'
    t += '[profile.dev]\nopt-level = 2\noverflow-checks = true\ndebug-assertions = false\ndebug = false\npanic = "%s"\ncodegen-units = %d\nincremental = %s\n' % (
        ('unwind', 8, 'false') if native else ('abort', 1, 'false'))
    t += '\n[patch.crates-io]\ncrossterm = { path = "%s" }\nclap = { path = "%s" }\n' % (crossterm(), clap())
    if not native:
        t += 'num-rational = { path = "%s" }\nnum-bigint = { path = "%s" }\n' % (rational(), VERIF + '/ir/num-bigint')
    put(dst + '/Cargo.toml', t)
    if not os.path.exists(dst + '/Cargo.lock') or open(dst + '/Cargo.lock.src').read() != open(REPO + '/Cargo.lock').read():
        put(dst + '/Cargo.lock.src', open(REPO + '/Cargo.lock').read())
        shutil.copy(REPO + '/Cargo.lock', dst + '/Cargo.lock')

def src_digest(mods):
    fs = files(REPO + '/src') + [REPO + '/Cargo.toml', REPO + '/Cargo.lock'] + files(VERIF + '/ir') + [os.path.abspath(__file__)]
    fs += [VERIF + '/harness/%s.rs' % m for m in BASE + ('mod', 'native') + tuple(mods)]
    return digest(fs) + ' ' + ' '.join(mods)

def ir(mods):
    out = B + '/bcalc.ll'
    dg = src_digest(mods)
    if stamp_ok('ir', dg, [out]):
        return out
    unstamp('ir')
    d = B + '/ir'
    os.makedirs(d, exist_ok=True)
    crate(d, False, mods)
    fakecc = VERIF + '/ir/fakecc'
    env = {
        'RUSTUP_TOOLCHAIN': 'stable', 'RUSTC_BOOTSTRAP': '1',
        '__CARGO_TESTS_ONLY_SRC_ROOT': rust_src(),
        'RUSTFLAGS': '--emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp -Cembed-bitcode=yes --cfg verif_sym -Clink-arg=-Wl,--unresolved-symbols=ignore-all -Cdebuginfo=0 --cap-lints=allow',
        'LIBSQLITE3_FLAGS': '-USQLITE_ENABLE_FTS3 -USQLITE_ENABLE_FTS5 -USQLITE_ENABLE_RTREE -USQLITE_ENABLE_JSON1 -DSQLITE_OMIT_LOAD_EXTENSION -DLONGDOUBLE_TYPE=double',
        'CC_x86_64_sym': fakecc, 'CC_x86_64-sym': fakecc, 'CARGO_TARGET_DIR': d + '/target',
    }
    deps = d + '/target/x86_64-sym/debug/deps'
    # bitcode of dependencies built with other settings must not linger: it would be linked twice
    key = hashlib.sha256((json.dumps(env, sort_keys=True) + open(d + '/Cargo.toml').read() + open(d + '/Cargo.lock').read()
                          + digest(files(VERIF + '/ir'))).encode()).hexdigest()
    if not stamp_ok('irdeps', key, [deps]):
        shutil.rmtree(d + '/target', ignore_errors=True)
        stamp('irdeps', key)
    for p in glob.glob(deps + '/bcalc-*'):
        os.remove(p)
    # the final link of the (unused) executable is not wanted: emit only bitcode for the bcalc crate itself
    run(['cargo', 'rustc', '--offline', '-Zbuild-std=std,panic_abort', '-Zjson-target-spec', '--target', VERIF + '/ir/x86_64-sym.json',
         '--', '--emit=llvm-bc'], cwd=d, env=env)
    bcs = [p for p in glob.glob(deps + '/*.bc') if not re.match(r'(proc_macro|panic_unwind)-', os.path.basename(p))]
    sq = sorted(glob.glob(d + '/target/x86_64-sym/debug/build/libsqlite3-sys-*/out/libsqlite3.a'), key=os.path.getmtime)
    sqd = d + '/sq'
    os.makedirs(sqd, exist_ok=True)
    run(['ar', 'x', sq[-1]], cwd=sqd)
    objs = [p for p in glob.glob(sqd + '/*.o')]
    fns = []
    for p in files(d + '/src/verif_harness'):
        fns += re.findall(r'extern "C" fn (h_\w+)', open(p).read())
    all_bc = d + '/all.bc'
    run([NIGHTLY + 'llvm-link', '-o', all_bc] + bcs + objs)
    run([NIGHTLY + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(fns), all_bc, '-o', d + '/h0.bc'])
    run([NIGHTLY + 'llvm-dis', d + '/h0.bc', '-o', out + '.tmp'])
    os.remove(all_bc)
    os.remove(d + '/h0.bc')
    os.replace(out + '.tmp', out)
    stamp('ir', dg)
    return out

def native(mods):
    out = B + '/native.so'
    dg = src_digest(mods)
    if stamp_ok('native', dg, [out]):
        return out
    unstamp('native')
    d = B + '/native'
    os.makedirs(d, exist_ok=True)
    crate(d, True, mods)
    run(['cargo', 'build', '--offline', '--lib'], cwd=d, env={'RUSTUP_TOOLCHAIN': 'stable', 'CARGO_TARGET_DIR': d + '/target', 'RUSTFLAGS': '--cap-lints=allow',
        # failing syncs can be injected
        'LIBSQLITE3_FLAGS': '-Dfsync=verif_fsync -Dfdatasync=verif_fdatasync'})
    shutil.copy(d + '/target/debug/libbcalc_native.so', out)
    stamp('native', dg)
    return out

class Lock:
    def __init__(self, name):
        self.name = name
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(B + '/.lock.' + self.name, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def step(w, mods):
    """One build step; returns (output path, seconds)."""
    t = time.time()
    with Lock(w):
        r = engine() if w == 'engine' else globals()[w](mods)
    return r, round(time.time() - t, 2)

if __name__ == '__main__':
    try:
        mods = [a for a in sys.argv[1:] if a not in ('engine', 'ir', 'native')] or all_mods()
        crossterm()
        for w in [a for a in sys.argv[1:] if a in ('engine', 'ir', 'native')] or ('engine', 'ir', 'native'):
            print(w, *step(w, mods))
    except BuildError as e:
        print(e)
        sys.exit(2)
