mod exec;
mod ext;
mod ir;
mod solver;
mod state;
mod term;
mod vi;

use exec::*;
use ir::*;
use state::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};
use term::Terms;

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    fn getpid() -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
}

pub const MAXP: usize = 4096;
#[repr(C)]
pub struct Share {
    pub running: AtomicI64,
    pub limit: i64,
    pub stop: AtomicU64,
    /// milliseconds after the start at which the first violation was found
    pub found: AtomicU64,
    pub spawned: AtomicU64,
    pub pids: [AtomicI64; MAXP],
    pub done: [AtomicU64; MAXP],
    pub steps: AtomicU64,
}

static mut SLOT: usize = 0;
static mut OUTDIR: String = String::new();

fn alive(p: i32) -> bool {
    unsafe { kill(p, 0) == 0 }
}

pub fn maybe_share(ex: &mut Ex) {
    let sh = match ex.share {
        Some(s) => s,
        None => return,
    };
    if sh.stop.load(Ordering::Relaxed) != 0 {
        ex.stopping = true;
        ex.deadline = Instant::now();
        return;
    }
    if ex.work.len() < 2 {
        return;
    }
    let mut r = sh.running.load(Ordering::Relaxed);
    while r < sh.limit {
        match sh.running.compare_exchange(r, r + 1, Ordering::SeqCst, Ordering::SeqCst) {
            Ok(_) => {
                let slot = sh.spawned.fetch_add(1, Ordering::SeqCst) as usize;
                if slot >= MAXP {
                    sh.running.fetch_sub(1, Ordering::SeqCst);
                    return;
                }
                // the oldest states go to the child
                let half = ex.work.len() / 2;
                let n = half.max(1);
                sh.pids[slot].store(-1, Ordering::SeqCst);
                let pid = unsafe { fork() };
                if pid < 0 {
                    sh.running.fetch_sub(1, Ordering::SeqCst);
                    sh.done[slot].store(2, Ordering::SeqCst);
                    return;
                }
                if pid == 0 {
                    unsafe {
                        SLOT = slot;
                        sh.pids[slot].store(getpid() as i64, Ordering::SeqCst);
                    }
                    // take the older half; drop everything else
                    let rest = ex.work.split_off(n);
                    std::mem::forget(rest);
                    reset_stats(ex);
                    drain(ex);
                    finish_worker(ex);
                }
                ex.work.drain(..n);
                return;
            }
            Err(x) => r = x,
        }
    }
}

fn reset_stats(ex: &mut Ex) {
    ex.st = Stats::default();
    ex.violations.clear();
    ex.samples.clear();
    ex.sol.queries = 0;
    ex.sol.sat = 0;
    ex.sol.unsat = 0;
    ex.sol.unknown = 0;
    ex.sol.time = 0.0;
    ex.sol.max_time = 0.0;
    ex.is_root = false;
    ex.profile.clear();
    ex.fork_sites.clear();
    for c in ex.called.iter_mut() {
        *c = false;
    }
}

fn drain(ex: &mut Ex) {
    while let Some(mut s) = ex.work.pop() {
        if ex.stopping || ex.violations.len() >= ex.max_viol {
            ex.work.push(s);
            break;
        }
        let r = ex.run(&mut s);
        if s.steps > ex.st.max_steps {
            ex.st.max_steps = s.steps;
        }
        match r {
            Stop::End => {
                ex.st.paths += 1;
                if ex.samples.len() < 6 && (ex.st.paths & (ex.st.paths - 1)) == 0 {
                    let i = ex.model_inputs(&s, None);
                    ex.samples.push(i);
                }
            }
            Stop::Dead => ex.st.dead += 1,
            Stop::Bad(b) => {
                if ex.st.bad.len() < 20 {
                    if std::env::var("SYMEX_BADIN").is_ok() {
                        eprintln!("BAD {} inputs {:?}", b, ex.model_inputs(&s, None));
                    }
                    *ex.st.bad.entry(b).or_default() += 1;
                }
            }
            _ => {}
        }
        if let Some(sh) = ex.share {
            let now = ex.start.elapsed().as_millis() as u64 + 1;
            if !ex.violations.is_empty() && sh.found.load(Ordering::Relaxed) == 0 {
                sh.found.store(now, Ordering::SeqCst);
            }
            // a few more seconds for other violations, then all stop
            let found = sh.found.load(Ordering::Relaxed);
            if ex.violations.len() >= ex.max_viol || (found > 0 && now > found + 5000) {
                sh.stop.store(1, Ordering::SeqCst);
            }
            if sh.stop.load(Ordering::Relaxed) != 0 {
                ex.stopping = true;
            }
        }
        if Instant::now() > ex.deadline && !ex.stopping {
            ex.stopping = true;
            if !ex.work.is_empty() {
                *ex.st.bad.entry("time limit".into()).or_default() += 1;
            }
        }
        maybe_share(ex);
    }
    ex.st.unfinished = ex.work.len() as u64;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap<K: AsRef<str>>(m: impl Iterator<Item = (K, u64)>) -> String {
    let v: Vec<String> = m.map(|(k, v)| format!("{}:{}", esc(k.as_ref()), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn jpairs(v: &[(String, String)]) -> String {
    let x: Vec<String> = v.iter().map(|(k, v)| format!("[{},{}]", esc(k), esc(v))).collect();
    format!("[{}]", x.join(","))
}

fn result_json(ex: &Ex) -> String {
    let s = &ex.st;
    let viol: Vec<String> = ex.violations.iter().map(|v| format!("{{\"msg\":{},\"inputs\":{}}}", esc(&v.msg), jpairs(&v.inputs))).collect();
    let fns: Vec<String> = ex
        .called
        .iter()
        .enumerate()
        .filter(|(_, c)| **c)
        .map(|(i, _)| esc(&demangle(&ex.m.funcs[i].name)))
        .collect();
    let fns: Vec<String> = {
        let h: HashSet<String> = fns.into_iter().collect();
        let mut v: Vec<String> = h.into_iter().collect();
        v.sort();
        v
    };
    let samples: Vec<String> = ex.samples.iter().map(|x| jpairs(x)).collect();
    let mut prof: Vec<(String, u64)> = ex.profile.iter().map(|(k, v)| (demangle(&ex.m.funcs[*k as usize].name), *v)).collect();
    prof.sort_by_key(|x| std::cmp::Reverse(x.1));
    prof.truncate(25);
    let mut fs: Vec<(String, u64)> = ex.fork_sites.iter().map(|(k, v)| (k.clone(), *v)).collect();
    fs.sort_by_key(|x| std::cmp::Reverse(x.1));
    fs.truncate(25);
    format!(
        "{{\"paths\":{},\"dead\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_const\":{},\"asserts_proved\":{},\"table\":{},\"model_hits\":{},\"cache_hits\":{},\"panics_caught\":{},\"max_steps\":{},\"max_depth\":{},\"unfinished\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"reach\":{},\"bad\":{},\"violations\":[{}],\"functions\":[{}],\"samples\":[{}],\"profile\":{},\"fork_sites\":{},\"solver\":{}}}",
        s.paths,
        s.dead,
        s.forks,
        s.steps,
        s.asserts,
        s.asserts_const,
        s.asserts_proved,
        s.table_decisions,
        s.model_hits,
        s.cache_hits,
        s.panics_caught,
        s.max_steps,
        s.max_depth,
        s.unfinished,
        ex.sol.queries,
        ex.sol.sat,
        ex.sol.unsat,
        ex.sol.unknown,
        ex.sol.time,
        ex.sol.max_time,
        jmap(s.reach.iter().map(|(a, b)| (a, *b))),
        jmap(s.bad.iter().map(|(a, b)| (a, *b))),
        viol.join(","),
        fns.join(","),
        samples.join(","),
        jmap(prof.iter().map(|(a, b)| (a, *b))),
        jmap(fs.iter().map(|(a, b)| (a, *b))),
        esc(&ex.sol.version),
    )
}

#[allow(static_mut_refs)]
fn finish_worker(ex: &mut Ex) -> ! {
    let sh = ex.share.unwrap();
    unsafe {
        let p = format!("{}/{}.json", OUTDIR, SLOT);
        std::fs::write(p, result_json(ex)).ok();
        sh.steps.fetch_add(ex.st.steps, Ordering::SeqCst);
        sh.done[SLOT].store(1, Ordering::SeqCst);
        sh.running.fetch_sub(1, Ordering::SeqCst);
        _exit(0);
    }
}

#[allow(static_mut_refs)]
fn main() {
    // symex IR ENTRY --out DIR [--jobs N] [--timeout S] [--query-ms N] [--steps N] [--viol N] [--conc name=value]... [--trace] [--prof]
    let args: Vec<String> = std::env::args().collect();
    let irp = &args[1];
    let entry = &args[2];
    let opt = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let flag = |n: &str| args.iter().any(|a| a == n);
    let jobs: i64 = opt("--jobs").map_or(1, |x| x.parse().unwrap());
    let timeout: u64 = opt("--timeout").map_or(600, |x| x.parse().unwrap());
    let qms: u32 = opt("--query-ms").map_or(20000, |x| x.parse().unwrap());
    let cap: u64 = opt("--steps").map_or(2_000_000_000, |x| x.parse().unwrap());
    let max_viol: usize = opt("--viol").map_or(1, |x| x.parse().unwrap());
    let outdir = opt("--out").unwrap_or_else(|| format!("/tmp/symex.{}", std::process::id()));
    std::fs::create_dir_all(&outdir).unwrap();
    let mut conc: Option<HashMap<String, u64>> = None;
    for (i, a) in args.iter().enumerate() {
        if a == "--conc" {
            let (k, v) = args[i + 1].rsplit_once('=').unwrap();
            conc.get_or_insert_with(HashMap::new).insert(k.to_string(), v.parse().unwrap());
        }
    }
    if flag("--concrete") && conc.is_none() {
        conc = Some(HashMap::new());
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SYMEX_BT").is_ok() {
            eprintln!("{}\n{}", i, std::backtrace::Backtrace::force_capture());
        }
    }));
    let start = Instant::now();
    let m: &'static Module = Box::leak(Box::new(Module::load(irp)));
    let t_load = start.elapsed();
    let entry_idx = *m.fmap.get(entry.as_str()).unwrap_or_else(|| {
        eprintln!("no entry {}", entry);
        std::process::exit(70)
    });
    let mut tm = Terms::new();
    tm.c(0, 8);
    let mut ginit = vec![];
    for g in 0..m.globals.len() {
        let mut o = Obj::new(0);
        o.d = m.global_init(g as u32);
        o.ro = m.globals[g].constant;
        ginit.push(Rc::new(o));
    }
    let nf = m.funcs.len();
    let mut ex = Ex {
        switched: false,
        m,
        tm,
        slow: std::env::var("SYMEX_SLOW").is_ok(),
        sol: solver::Solver::new(qms),
        funcs: vec![None; nf],
        called: vec![false; nf],
        exts: vec![None; nf],
        work: vec![],
        st: Stats::default(),
        violations: vec![],
        max_viol,
        vars: HashMap::new(),
        qcache: HashMap::new(),
        ginit,
        entry: entry_idx,
        deadline: start + Duration::from_secs(timeout),
        start,
        step_cap: cap,
        samples: vec![],
        share: None,
        trace: flag("--trace"),
        conc_inputs: conc,
        path_fn_hits: None,
        stopping: false,
        is_root: true,
        prof: flag("--prof"),
        profile: HashMap::new(),
        fork_sites: HashMap::new(),
    };
    let mut mem = Mem::new((GBASE + m.globals.len() as u64 + nf as u64) as u32);
    for (g, o) in ex.ginit.iter().enumerate() {
        mem.put((GBASE + g as u64) as u32, o.clone());
    }
    let errno = mem.alloc(8);
    let f = match ex.func(entry_idx) {
        Ok(f) => f,
        Err(_) => {
            eprintln!("cannot parse entry");
            std::process::exit(70)
        }
    };
    let fr = Frame { f, pc: 0, regs: vec![V::I(0); f.nregs as usize], stk: 0, va: 0, extra: vec![], ret: 0, nret: 0, catch: false };
    let mut s0 = State {
        fr,
        stack: vec![],
        mem,
        pc: Rc::new(vec![]),
        dom: Rc::new(HashMap::new()),
        ent: Rc::new(HashSet::new()),
        known: Rc::new(HashMap::new()),
        ival: Default::default(),
        kval: Rc::new(HashMap::new()),
        model: Rc::new(HashMap::new()),
        inputs: Rc::new(vec![]),
        out: Rc::new(Obj::new(0)),
        err: Rc::new(Obj::new(0)),
        co: None,
        co_in: false,
        out_broken: false,
        fs: Rc::new(Fs::default()),
        steps: 0,
        depth: 0,
        nalloc: 0,
        panic_loc: Rc::new(String::new()),
        inj: None,
        inj_hit: false,
        env: Rc::new(BTreeMap::new()),
        env_addr: Rc::new(HashMap::new()),
        time: 0,
        errno,
        notes: Rc::new(vec![]),
        coprime: Default::default(),
        split: 1 << 30,
    };
    ext::mkdir(&mut s0, "/");
    ext::mkdir(&mut s0, "/data");
    if f.frame > 0 {
        s0.fr.stk = s0.mem.alloc_stack(f.frame as usize);
    }
    ex.work.push(s0);
    let sh: &'static Share = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Share>(), 3, 0x21, -1, 0);
        &mut *(p as *mut Share)
    };
    unsafe {
        (*(sh as *const Share as *mut Share)).limit = jobs;
        OUTDIR = outdir.clone();
        signal(17, 1);
        prctl(1, 9, 0, 0, 0);
    }
    sh.running.store(1, Ordering::SeqCst);
    sh.spawned.store(1, Ordering::SeqCst);
    ex.share = Some(sh);
    // slot 0 is a child too, so that the root only supervises
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe {
            SLOT = 0;
            sh.pids[0].store(getpid() as i64, Ordering::SeqCst);
        }
        drain(&mut ex);
        finish_worker(&mut ex);
    }
    sh.pids[0].store(pid as i64, Ordering::SeqCst);
    let mut lost: Vec<usize> = vec![];
    let hard = Duration::from_secs(timeout + 20);
    let mut killed = false;
    loop {
        std::thread::sleep(Duration::from_millis(5));
        let n = sh.spawned.load(Ordering::SeqCst) as usize;
        let mut open = 0;
        for i in 0..n.min(MAXP) {
            if sh.done[i].load(Ordering::SeqCst) == 0 && !lost.contains(&i) {
                let p = sh.pids[i].load(Ordering::SeqCst);
                if p > 0 && !alive(p as i32) && sh.done[i].load(Ordering::SeqCst) == 0 {
                    lost.push(i);
                    sh.running.fetch_sub(1, Ordering::SeqCst);
                } else {
                    open += 1;
                }
            }
        }
        if open == 0 && sh.spawned.load(Ordering::SeqCst) as usize == n {
            break;
        }
        if start.elapsed() > hard {
            killed = true;
            for i in 0..n.min(MAXP) {
                let p = sh.pids[i].load(Ordering::SeqCst);
                if p > 0 && sh.done[i].load(Ordering::SeqCst) == 0 {
                    unsafe { kill(p as i32, 9) };
                    lost.push(i);
                }
            }
            break;
        }
    }
    let n = (sh.spawned.load(Ordering::SeqCst) as usize).min(MAXP);
    let mut parts = vec![];
    for i in 0..n {
        if let Ok(s) = std::fs::read_to_string(format!("{}/{}.json", outdir, i)) {
            parts.push(s);
        }
    }
    let out = format!(
        "{{\"entry\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"lost_workers\":{},\"killed\":{},\"workers\":{},\"parts\":[{}]}}",
        esc(entry),
        start.elapsed().as_secs_f64(),
        t_load.as_secs_f64(),
        lost.len(),
        killed,
        n,
        parts.join(",\n")
    );
    let mut f = std::fs::File::create(format!("{}/result.json", outdir)).unwrap();
    f.write_all(out.as_bytes()).unwrap();
}
