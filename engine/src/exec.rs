//! The symbolic interpreter.
use crate::ext::{self, ExtFn};
use crate::ir::*;
use crate::solver::{Res, Solver};
use crate::state::*;
use crate::term::{bin_const, mask, sext128, Terms, VarInfo, B, MV, N, T};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub enum Stop {
    /// path ended normally
    End,
    /// path condition became infeasible
    Dead,
    Panic(String),
    /// simulated process death
    Crash,
    /// the engine cannot continue: the result is inconclusive
    Bad(String),
}
pub type R<X> = Result<X, Stop>;

pub struct Violation {
    pub msg: String,
    pub inputs: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub asserts_proved: u64,
    pub table_decisions: u64,
    pub model_hits: u64,
    pub cache_hits: u64,
    pub panics_caught: u64,
    pub reach: BTreeMap<String, u64>,
    pub bad: BTreeMap<String, u64>,
    pub max_steps: u64,
    pub max_depth: u32,
    pub unfinished: u64,
}

pub struct Ex {
    pub m: &'static Module,
    pub tm: Terms,
    pub slow: bool,
    /// the external just called went on with the other coroutine
    pub switched: bool,
    pub sol: Solver,
    pub funcs: Vec<Option<&'static Func>>,
    pub called: Vec<bool>,
    pub exts: Vec<Option<ExtFn>>,
    pub work: Vec<State>,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub max_viol: usize,
    pub vars: HashMap<(String, u32), u32>,
    pub qcache: HashMap<Vec<T>, Option<Rc<HashMap<u32, MV>>>>,
    pub ginit: Vec<Rc<Obj>>,
    pub entry: u32,
    pub deadline: Instant,
    pub start: Instant,
    pub step_cap: u64,
    pub samples: Vec<Vec<(String, String)>>,
    pub share: Option<&'static crate::Share>,
    pub trace: bool,
    pub conc_inputs: Option<HashMap<String, u64>>,
    pub path_fn_hits: Option<HashMap<u32, u64>>,
    pub stopping: bool,
    pub is_root: bool,
    pub prof: bool,
    pub profile: HashMap<u32, u64>,
    pub fork_sites: HashMap<String, u64>,
}

pub enum Dec {
    True,
    False,
    Both,
}

impl Ex {
    // ---------- values ----------
    pub fn t(&mut self, v: V, w: u16) -> T {
        match v {
            V::S(t) => {
                debug_assert_eq!(self.tm.w(t), w);
                t
            }
            _ => self.tm.c(v.conc().unwrap(), w),
        }
    }
    pub fn v(&self, t: T) -> V {
        match self.tm.cst(t) {
            Some(c) => V::from_u128(c, self.tm.w(t)),
            None => V::S(t),
        }
    }

    // ---------- path conditions ----------
    pub fn dom_of(&self, st: &State, v: u32) -> [u64; 4] {
        if let Some(d) = st.dom.get(&v) {
            return *d;
        }
        match self.tm.vars[v as usize].w {
            8 => [!0; 4],
            w => {
                let n = 1u64 << w;
                [if n == 64 { !0 } else { (1u64 << n) - 1 }, 0, 0, 0]
            }
        }
    }
    pub fn small_var(&mut self, c: T) -> Option<u32> {
        let s = self.tm.roots(c);
        if s.len() == 1 {
            let w = self.tm.vars[s[0] as usize].w;
            if w == 8 || (w > 0 && w < 6) {
                return Some(s[0]);
            }
        }
        None
    }
    fn table(&mut self, c: T, v: u32, d: &[u64; 4]) -> Rc<[u64; 4]> {
        if self.tm.has_int(c) {
            self.tm.itable(c, v, d)
        } else {
            self.tm.table(c, v)
        }
    }
    pub fn eval_model(&self, st: &State, c: T) -> MV {
        let m = &st.model;
        let tm = &self.tm;
        self.tm.eval_roots(
            c,
            &|i| {
                m.get(&i).cloned().unwrap_or_else(|| {
                    let v = &tm.vars[i as usize];
                    if v.w == 0 {
                        MV::N(v.lo.clone().or(v.hi.clone()).unwrap_or_default())
                    } else {
                        MV::B(0)
                    }
                })
            },
        )
    }
    fn slice(&mut self, st: &State, q: T) -> Vec<T> {
        let mut vars: HashSet<u32> = self.tm.support(q).iter().cloned().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.tm.support(c);
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(c);
                    for v in s.iter() {
                        if vars.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// nonlinear integer conditions over very few narrow variables: all values of their domains
    fn finite(&mut self, st: &State, cs: &[T]) -> Option<Option<Rc<HashMap<u32, MV>>>> {
        if !cs.iter().any(|&c| self.tm.has_int(c)) {
            return None;
        }
        let limit = if cs.iter().any(|&c| self.tm.nonlinear(c)) { 2048 } else { 256 };
        let mut vs: Vec<u32> = vec![];
        for &c in cs {
            vs.extend_from_slice(&self.tm.roots(c));
        }
        vs.sort();
        vs.dedup();
        let mut vals: Vec<Vec<u128>> = vec![];
        let mut total = 1usize;
        for &v in &vs {
            let w = self.tm.vars[v as usize].w;
            if w != 8 && !(w > 0 && w < 6) {
                return None;
            }
            let d = self.dom_of(st, v);
            let l: Vec<u128> = (0..256u128).filter(|&i| d[i as usize / 64] >> (i % 64) & 1 == 1).collect();
            total = total.saturating_mul(l.len());
            vals.push(l);
        }
        if total > limit || total == 0 {
            return None;
        }
        let multi: Vec<T> = cs.iter().cloned().filter(|&c| self.tm.cst(c).is_none()).collect();
        for k in 0..total {
            let mut r = k;
            let mut m: HashMap<u32, u128> = HashMap::new();
            for (i, v) in vs.iter().enumerate() {
                m.insert(*v, vals[i][r % vals[i].len()]);
                r /= vals[i].len();
            }
            if multi.iter().all(|&c| self.tm.eval_roots(c, &|i| MV::B(m[&i])) == MV::B(1)) {
                return Some(Some(Rc::new(m.into_iter().map(|(k, v)| (k, MV::B(v))).collect())));
            }
        }
        Some(None)
    }
    /// satisfiability of path condition and q; Some(model part)
    pub fn query(&mut self, st: &State, q: T) -> R<Option<Rc<HashMap<u32, MV>>>> {
        if let Some(b) = self.tm.is_bool_known(q) {
            return Ok(if b { Some(Rc::new(HashMap::new())) } else { None });
        }
        let mut cs = self.slice(st, q);
        cs.push(q);
        cs.sort();
        cs.dedup();
        if let Some(r) = self.qcache.get(&cs) {
            self.st.cache_hits += 1;
            return Ok(r.clone());
        }
        if let Some(r) = self.finite(st, &cs) {
            self.st.table_decisions += 1;
            self.qcache.insert(cs, r.clone());
            return Ok(r);
        }
        let t0 = std::time::Instant::now();
        let res = self.sol.check(&mut self.tm, &cs);
        if self.slow && t0.elapsed().as_secs_f64() > 0.3 {
            eprintln!("SLOW {:.2}", t0.elapsed().as_secs_f64());
            for c in &cs {
                eprintln!("   {}", self.tm.show(*c, 12));
            }
        }
        let r = match res {
            Res::Sat(m) => Some(Rc::new(m)),
            Res::Unsat => None,
            Res::Unknown => {
                if std::env::var("SYMEX_UNK").is_ok() {
                    for c in &cs {
                        eprintln!("UNK {}", self.tm.show(*c, 12));
                    }
                }
                return Err(Stop::Bad(format!("solver gave no answer within {} ms", self.sol.timeout_ms)));
            }
        };
        self.qcache.insert(cs, r.clone());
        Ok(r)
    }
    fn known(&self, st: &State, c: T) -> Option<bool> {
        if let Some(b) = self.tm.is_bool_known(c) {
            return Some(b);
        }
        st.known.get(&c).copied()
    }
    /// cheap decision without the solver
    fn quick(&mut self, st: &State, c: T) -> Option<bool> {
        if let Some(b) = self.known(st, c) {
            return Some(b);
        }
        if let Some(v) = self.small_var(c) {
            let d = self.dom_of(st, v);
            let tb = self.table(c, v, &d);
            let t = (0..4).any(|i| tb[i] & d[i] != 0);
            let f = (0..4).any(|i| !tb[i] & d[i] != 0);
            if !t {
                return Some(false);
            }
            if !f {
                return Some(true);
            }
        }
        None
    }
    /// which truth values can c take on this path? Second component: model for the value the current model does not take
    fn decide(&mut self, st: &mut State, c: T) -> R<(Dec, Option<Rc<HashMap<u32, MV>>>, bool)> {
        if let Some(b) = self.known(st, c) {
            return Ok((if b { Dec::True } else { Dec::False }, None, b));
        }
        if let Some(v) = self.small_var(c) {
            let d = self.dom_of(st, v);
            let tb = self.table(c, v, &d);
            let t: [u64; 4] = std::array::from_fn(|i| tb[i] & d[i]);
            let f: [u64; 4] = std::array::from_fn(|i| !tb[i] & d[i]);
            if t == [0; 4] {
                self.st.table_decisions += 1;
                return Ok((Dec::False, None, false));
            }
            if f == [0; 4] {
                self.st.table_decisions += 1;
                return Ok((Dec::True, None, true));
            }
            if !st.ent.contains(&v) {
                self.st.table_decisions += 1;
                let cur = match st.model.get(&v) {
                    Some(MV::B(x)) => *x as usize,
                    _ => 0,
                };
                let mv = tb[cur / 64] >> (cur % 64) & 1 == 1;
                let o = if mv { f } else { t };
                let k = (0..256).find(|&i| o[i / 64] >> (i % 64) & 1 == 1).unwrap();
                let mut m = HashMap::new();
                m.insert(v, MV::B(k as u128));
                return Ok((Dec::Both, Some(Rc::new(m)), mv));
            }
        }
        let mv = self.eval_model(st, c) == MV::B(1);
        self.st.model_hits += 1;
        let q = if mv { self.tm.not(c) } else { c };
        match self.query(st, q)? {
            None => Ok((if mv { Dec::True } else { Dec::False }, None, mv)),
            Some(m) => Ok((Dec::Both, Some(m), mv)),
        }
    }
    pub fn learn(&mut self, st: &mut State, c: T) {
        if self.tm.cst(c).is_some() {
            return;
        }
        match self.tm.n(c).clone() {
            N::Bin(B::And, a, b) => {
                self.learn(st, a);
                self.learn(st, b);
                Rc::make_mut(&mut st.known).insert(c, true);
                return;
            }
            N::Bin(B::Xor, a, o) if self.tm.cst(o) == Some(1) => {
                if let N::Bin(B::Or, x, y) = self.tm.n(a).clone() {
                    let (nx, ny) = (self.tm.not(x), self.tm.not(y));
                    self.learn(st, nx);
                    self.learn(st, ny);
                    let k = Rc::make_mut(&mut st.known);
                    k.insert(c, true);
                    k.insert(a, false);
                    return;
                }
            }
            N::Eq(a, b) => {
                if let Some(k) = self.tm.cst(b) {
                    Rc::make_mut(&mut st.kval).insert(a, k);
                }
            }
            _ => {}
        }
        if st.known.get(&c) == Some(&true) {
            return;
        }
        let nc = self.tm.not(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, true);
        k.insert(nc, false);
        Rc::make_mut(&mut st.pc).push(c);
        if let Some(v) = self.small_var(c) {
            let d = self.dom_of(st, v);
            let tb = self.table(c, v, &d);
            let n: [u64; 4] = std::array::from_fn(|i| tb[i] & d[i]);
            Rc::make_mut(&mut st.dom).insert(v, n);
        } else {
            let s = self.tm.roots(c);
            let e = Rc::make_mut(&mut st.ent);
            for v in s.iter() {
                e.insert(*v);
            }
        }
    }
    fn set_model(&mut self, st: &mut State, m: &Rc<HashMap<u32, MV>>) {
        let mm = Rc::make_mut(&mut st.model);
        for (k, v) in m.iter() {
            mm.insert(*k, v.clone());
        }
    }
    fn site(&self, st: &State) -> String {
        format!("{}:{}", st.fr.f.short, st.fr.pc)
    }
    fn spawn(&mut self, st: &State, c: T, m: Option<&Rc<HashMap<u32, MV>>>) {
        self.st.forks += 1;
        if self.prof {
            let s = self.site(st);
            *self.fork_sites.entry(s).or_default() += 1;
        }
        let mut n = st.clone();
        n.depth += 1;
        if n.depth > self.st.max_depth {
            self.st.max_depth = n.depth;
        }
        self.learn(&mut n, c);
        if let Some(m) = m {
            self.set_model(&mut n, m);
        }
        self.work.push(n);
    }
    /// decide a boolean; forks when both values are possible
    pub fn branch(&mut self, st: &mut State, c: T) -> R<bool> {
        let (d, m, mv) = self.decide(st, c)?;
        match d {
            Dec::True => {
                if self.known(st, c).is_none() {
                    Rc::make_mut(&mut st.known).insert(c, true);
                }
                Ok(true)
            }
            Dec::False => {
                if self.known(st, c).is_none() {
                    Rc::make_mut(&mut st.known).insert(c, false);
                }
                Ok(false)
            }
            Dec::Both => {
                let nc = self.tm.not(c);
                let (keep, other) = if mv { (c, nc) } else { (nc, c) };
                self.spawn(st, other, m.as_ref());
                self.learn(st, keep);
                Ok(mv)
            }
        }
    }
    pub fn branch_v(&mut self, st: &mut State, v: V) -> R<bool> {
        match v {
            V::I(x) => Ok(x & 1 != 0),
            V::S(t) => self.branch(st, t),
            _ => unreachable!(),
        }
    }
    /// add an assumption; kills the path when infeasible
    pub fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        if let Some(b) = self.quick(st, c) {
            if !b {
                return Err(Stop::Dead);
            }
            self.learn(st, c);
            return Ok(());
        }
        let (d, m, mv) = self.decide(st, c)?;
        match d {
            Dec::False => Err(Stop::Dead),
            Dec::True => {
                self.learn(st, c);
                Ok(())
            }
            Dec::Both => {
                self.learn(st, c);
                if !mv {
                    let m = m.unwrap();
                    self.set_model(st, &m);
                }
                Ok(())
            }
        }
    }
    /// concretise by forking over all feasible values
    pub fn conc(&mut self, st: &mut State, v: V) -> R<u64> {
        match v {
            V::I(x) => Ok(x),
            V::W(l, _) => Ok(l),
            V::S(t) => {
                if let Some(k) = st.kval.get(&t) {
                    return Ok(*k as u64);
                }
                let w = self.tm.w(t);
                if w == 1 {
                    return Ok(self.branch(st, t)? as u64);
                }
                let x = match self.eval_model(st, t) {
                    MV::B(x) => x,
                    _ => return Err(Stop::Bad("conc sort".into())),
                };
                let k = self.tm.c(x, w);
                let e = self.tm.eq(t, k);
                if self.branch(st, e)? {
                    Rc::make_mut(&mut st.kval).insert(t, x);
                    Ok(x as u64)
                } else {
                    // the model satisfies e, so branch keeps it
                    Err(Stop::Bad("conc".into()))
                }
            }
        }
    }
    pub fn model_inputs(&self, st: &State, extra: Option<&Rc<HashMap<u32, MV>>>) -> Vec<(String, String)> {
        let mut s2 = (*st.model).clone();
        if let Some(m) = extra {
            for (k, v) in m.iter() {
                s2.insert(*k, v.clone());
            }
        }
        let mut out = vec![];
        for (n, t) in st.inputs.iter() {
            let mut memo = HashMap::new();
            let tm = &self.tm;
            let v = self.tm.eval(
                *t,
                &|i| {
                    s2.get(&i).cloned().unwrap_or_else(|| {
                        let v = &tm.vars[i as usize];
                        if v.w == 0 {
                            MV::N(v.lo.clone().or(v.hi.clone()).unwrap_or_default())
                        } else {
                            MV::B(0)
                        }
                    })
                },
                &mut memo,
            );
            out.push((
                n.clone(),
                match v {
                    MV::B(x) => x.to_string(),
                    MV::N(x) => x.to_string(),
                },
            ));
        }
        out
    }
    pub fn report(&mut self, st: &State, msg: String, m: Option<&Rc<HashMap<u32, MV>>>) {
        if self.violations.iter().filter(|v| v.msg == msg).count() >= 2 {
            return;
        }
        let inputs = self.model_inputs(st, m);
        self.violations.push(Violation { msg, inputs });
    }
    /// assertion
    pub fn check(&mut self, st: &mut State, c: V, msg: &str) -> R<()> {
        self.st.asserts += 1;
        let t = match c {
            V::I(x) => {
                self.st.asserts_const += 1;
                if x & 1 == 0 {
                    self.report(st, msg.to_string(), None);
                    return Err(Stop::End);
                }
                return Ok(());
            }
            V::S(t) => t,
            _ => unreachable!(),
        };
        if self.known(st, t) == Some(true) {
            return Ok(());
        }
        let nt = self.tm.not(t);
        match self.query(st, nt)? {
            None => {
                self.st.asserts_proved += 1;
                Rc::make_mut(&mut st.known).insert(t, true);
                Ok(())
            }
            Some(m) => {
                self.report(st, msg.to_string(), Some(&m));
                self.assume(st, t)
            }
        }
    }
    pub fn new_var(&mut self, st: &mut State, name: &str, w: u16) -> R<T> {
        let k = st.inputs.iter().filter(|(n, _)| n == name || n.split('#').next() == Some(name)).count() as u32;
        let full = if k == 0 { name.to_string() } else { format!("{}#{}", name, k) };
        let t = if let Some(ci) = &self.conc_inputs {
            let v = *ci.get(&full).unwrap_or(&0);
            self.tm.c(v as u128, w)
        } else {
            let id = match self.vars.get(&(full.clone(), w as u32)) {
                Some(&i) => i,
                None => {
                    let i = self.tm.vars.len() as u32;
                    self.tm.vars.push(VarInfo { name: full.clone(), w, lo: None, hi: None });
                    self.vars.insert((full.clone(), w as u32), i);
                    i
                }
            };
            self.tm.var(id)
        };
        Rc::make_mut(&mut st.inputs).push((full, t));
        Ok(t)
    }

    // ---------- memory ----------
    fn oob(&self, st: &State, a: u64, n: usize, what: &str) -> Stop {
        let sz = st.mem.get((a >> 32) as u32).map(|o| o.d.len() as i64).unwrap_or(-1);
        let bt: Vec<String> = st.stack.iter().rev().take(8).map(|f| f.f.short.clone()).collect();
        Stop::Bad(format!("{} out of bounds: {:#x}+{} (object size {}) in {} <- {}", what, a, n, sz, self.site(st), bt.join(" <- ")))
    }
    pub fn load(&mut self, st: &State, a: u64, w: u16) -> R<V> {
        let n = (w as usize + 7) / 8;
        let id = (a >> 32) as u32;
        let off = a as u32 as usize;
        let o = match st.mem.get(id) {
            Some(o) if off + n <= o.d.len() => o,
            _ => return Err(self.oob(st, a, n, "load")),
        };
        if let Some(s) = &o.s {
            if s[off..off + n].iter().any(|&x| x != 0) {
                let o = o.clone();
                let s = o.s.as_ref().unwrap();
                let mut t: Option<T> = None;
                for i in (0..n).rev() {
                    let b = if s[off + i] != 0 { s[off + i] } else { self.tm.c(o.d[off + i] as u128, 8) };
                    t = Some(match t {
                        None => b,
                        Some(h) => self.tm.concat(h, b),
                    });
                }
                let mut t = t.unwrap();
                if (w as usize) < n * 8 {
                    t = self.tm.extract(t, 0, w);
                }
                return Ok(self.v(t));
            }
        }
        let d = &o.d[off..off + n];
        Ok(match n {
            1 => V::I(d[0] as u64 & mask(w) as u64),
            2 => V::I(u16::from_le_bytes([d[0], d[1]]) as u64),
            4 => V::I(u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64),
            8 => V::I(u64::from_le_bytes(d.try_into().unwrap())),
            _ => {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(d);
                V::from_u128(u128::from_le_bytes(b) & mask(w), w)
            }
        })
    }
    pub fn store(&mut self, st: &mut State, a: u64, w: u16, v: V) -> R<()> {
        let n = (w as usize + 7) / 8;
        let id = (a >> 32) as u32;
        let off = a as u32 as usize;
        // symbolic value: split into bytes first
        let mut bytes: [V; 16] = [V::I(0); 16];
        let sym = if let V::S(t) = v {
            let t = if (w as usize) < n * 8 { self.tm.zext(t, (n * 8) as u16) } else { t };
            for i in 0..n {
                let b = self.tm.extract(t, (i * 8) as u16, 8);
                bytes[i] = self.v(b);
            }
            true
        } else {
            false
        };
        let o = match st.mem.get_mut(id) {
            Some(o) if off + n <= o.d.len() && !o.ro => o,
            _ => return Err(self.oob(st, a, n, "store")),
        };
        if sym {
            for i in 0..n {
                o.set_byte(off + i, bytes[i]);
            }
        } else {
            if let Some(s) = &mut o.s {
                s[off..off + n].fill(0);
            }
            match v {
                V::I(x) if n <= 8 => o.d[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]),
                _ => o.d[off..off + n].copy_from_slice(&v.conc().unwrap().to_le_bytes()[..n]),
            }
        }
        Ok(())
    }
    pub fn set_in(&mut self, var: T, vals: &[u64]) -> T {
        // disjunction of ranges
        let w = self.tm.w(var);
        let mut r = self.tm.fls();
        let mut i = 0;
        while i < vals.len() {
            let mut j = i;
            while j + 1 < vals.len() && vals[j + 1] == vals[j] + 1 {
                j += 1;
            }
            let (lo, hi) = (self.tm.c(vals[i] as u128, w), self.tm.c(vals[j] as u128, w));
            let c = if i == j {
                self.tm.eq(var, lo)
            } else {
                let a = self.tm.ule(lo, var);
                let b = self.tm.ule(var, hi);
                self.tm.and(a, b)
            };
            r = self.tm.or(r, c);
            i = j + 1;
        }
        r
    }
    fn load_sym(&mut self, st: &mut State, at: T, off: u32, w: u16) -> R<V> {
        if let Some(k) = st.kval.get(&at) {
            let a = (*k as u64).wrapping_add(off as u64);
            return self.load(st, a, w);
        }
        if let Some(var) = self.small_var(at) {
            let d = self.dom_of(st, var);
            let mut groups: BTreeMap<T, Vec<u64>> = BTreeMap::new();
            let mut bad: Vec<u64> = vec![];
            for x in 0..256u64 {
                if d[(x / 64) as usize] >> (x % 64) & 1 == 0 {
                    continue;
                }
                let mut memo = HashMap::new();
                let a = match self.tm.eval(at, &|_| MV::B(x as u128), &mut memo) {
                    MV::B(a) => (a as u64).wrapping_add(off as u64),
                    _ => unreachable!(),
                };
                match self.load(st, a, w) {
                    Ok(v) => {
                        let t = self.t(v, w);
                        groups.entry(t).or_default().push(x);
                    }
                    Err(_) => bad.push(x),
                }
            }
            let vt = self.tm.var(var);
            if !bad.is_empty() {
                let c = self.set_in(vt, &bad);
                if self.query(st, c)?.is_some() {
                    return Err(Stop::Bad(format!("symbolic load may be out of bounds in {}", self.site(st))));
                }
            }
            if groups.is_empty() {
                return Err(Stop::Dead);
            }
            let mut g: Vec<(T, Vec<u64>)> = groups.into_iter().collect();
            g.sort_by_key(|x| x.1.len());
            let (mut r, _) = g.pop().unwrap();
            while let Some((t, vals)) = g.pop() {
                let c = self.set_in(vt, &vals);
                r = self.tm.ite(c, t, r);
            }
            return Ok(self.v(r));
        }
        let a = self.conc(st, V::S(at))?;
        self.load(st, a.wrapping_add(off as u64), w)
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, doff) = (s as u32 as usize, d as u32 as usize);
        let src = match st.mem.get((s >> 32) as u32) {
            Some(o) if so + n <= o.d.len() => o.clone(),
            _ => return Err(self.oob(st, s, n, "memcpy source")),
        };
        if s >> 32 == d >> 32 {
            // same object
            let tmp = {
                let mut t = Obj::new(n);
                t.copy_from(0, &src, so, n);
                t
            };
            drop(src);
            match st.mem.get_mut((d >> 32) as u32) {
                Some(o) if doff + n <= o.d.len() && !o.ro => o.copy_from(doff, &tmp, 0, n),
                _ => return Err(self.oob(st, d, n, "memcpy destination")),
            }
            return Ok(());
        }
        match st.mem.get_mut((d >> 32) as u32) {
            Some(o) if doff + n <= o.d.len() && !o.ro => o.copy_from(doff, &src, so, n),
            _ => return Err(self.oob(st, d, n, "memcpy destination")),
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &State, a: u64, n: usize) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = a as u32 as usize;
        match st.mem.get((a >> 32) as u32) {
            Some(o) if off + n <= o.d.len() => Ok((0..n).map(|i| o.byte(off + i)).collect()),
            _ => Err(self.oob(st, a, n, "read")),
        }
    }
    pub fn read_conc(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        let b = self.read_bytes(st, a, n)?;
        let mut o = vec![];
        for x in b {
            o.push(self.conc(st, x)? as u8);
        }
        Ok(o)
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<String> {
        let mut o = vec![];
        let mut p = a;
        loop {
            let v = self.load(st, p, 8)?;
            let c = self.conc(st, v)? as u8;
            if c == 0 {
                break;
            }
            o.push(c);
            p += 1;
        }
        Ok(String::from_utf8_lossy(&o).to_string())
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        for (i, x) in b.iter().enumerate() {
            self.store(st, a + i as u64, 8, V::I(*x as u64))?;
        }
        Ok(())
    }

    // ---------- functions ----------
    pub fn func(&mut self, i: u32) -> R<&'static Func> {
        if let Some(f) = self.funcs[i as usize] {
            return Ok(f);
        }
        let f = self.m.parse_fn(i).map_err(Stop::Bad)?;
        if let Ok(n) = std::env::var("SYMEX_IR") {
            if self.m.funcs[i as usize].name.contains(&n) {
                eprintln!("{:#?}", f.code.iter().enumerate().collect::<Vec<_>>());
            }
        }
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[i as usize] = Some(f);
        Ok(f)
    }
    pub fn make_frame(&mut self, st: &mut State, f: &'static Func, args: &[V]) -> Frame {
        let mut regs = Vec::with_capacity(f.nregs as usize);
        regs.extend_from_slice(&args[..(f.nparam_slots as usize).min(args.len())]);
        regs.resize(f.nregs as usize, V::I(0));
        let stk = if f.frame > 0 { st.mem.alloc_stack(f.frame as usize) } else { 0 };
        Frame { f, pc: 0, regs, stk, va: 0, extra: vec![], ret: 0, nret: 0, catch: false }
    }
    fn release(&mut self, st: &mut State) {
        if st.fr.stk != 0 {
            st.mem.free_stack(st.fr.stk);
        }
        if st.fr.va != 0 {
            st.mem.free_stack(st.fr.va);
        }
        let ex = std::mem::take(&mut st.fr.extra);
        for e in ex {
            st.mem.free_stack(e);
        }
    }
    fn pop(&mut self, st: &mut State) {
        self.release(st);
        let fr = st.stack.pop().unwrap();
        st.fr = match Rc::try_unwrap(fr) {
            Ok(f) => f,
            Err(r) => (*r).clone(),
        };
    }
    /// unwind to the innermost catch frame; the catching call returns `code`
    fn unwind(&mut self, st: &mut State, code: u64) -> bool {
        if !st.fr.catch && !st.stack.iter().any(|f| f.catch) {
            return false;
        }
        loop {
            let c = st.fr.catch;
            let ret = st.fr.ret;
            if st.stack.is_empty() {
                return false;
            }
            self.pop(st);
            if c {
                st.fr.regs[ret as usize] = V::I(code);
                return true;
            }
        }
    }

    /// run one path to its end
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.steps(st) {
                Err(Stop::Panic(loc)) => {
                    st.panic_loc = Rc::new(loc.clone());
                    if self.unwind(st, 1) {
                        self.st.panics_caught += 1;
                        continue;
                    }
                    self.report(st, format!("panic at {}", loc), None);
                    return Stop::End;
                }
                Err(Stop::Crash) => {
                    if self.unwind(st, 2) {
                        continue;
                    }
                    return Stop::End;
                }
                Err(Stop::Bad(b)) => return Stop::Bad(b),
                Err(x) => return x,
                Ok(()) => unreachable!(),
            }
        }
    }
    #[inline(always)]
    fn g(fr: &Frame, o: O) -> V {
        if o & KBIT != 0 {
            fr.f.consts[(o & !KBIT) as usize]
        } else {
            fr.regs[o as usize]
        }
    }
    fn edge(&mut self, fr: &mut Frame, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let (d, s) = e.moves[0];
                fr.regs[d as usize] = Self::g(fr, s);
            }
            2 => {
                let (d, s) = e.moves[0];
                let (d2, s2) = e.moves[1];
                let (x, y) = (Self::g(fr, s), Self::g(fr, s2));
                fr.regs[d as usize] = x;
                fr.regs[d2 as usize] = y;
            }
            _ => {
                let tmp: Vec<V> = e.moves.iter().map(|(_, s)| Self::g(fr, *s)).collect();
                for ((d, _), v) in e.moves.iter().zip(tmp) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.pc = e.pc;
    }
    pub fn icmp(&mut self, p: Pred, w: u16, a: V, b: V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let s = |v: u64| -> i64 {
                let k = 64 - w as u32;
                ((v << k) as i64) >> k
            };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return V::I(r as u64);
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let t = match p {
            Pred::Eq => self.tm.eq(x, y),
            Pred::Ne => {
                let e = self.tm.eq(x, y);
                self.tm.not(e)
            }
            Pred::Ugt => self.tm.ult(y, x),
            Pred::Uge => self.tm.ule(y, x),
            Pred::Ult => self.tm.ult(x, y),
            Pred::Ule => self.tm.ule(x, y),
            Pred::Sgt => self.tm.slt(y, x),
            Pred::Sge => self.tm.sle(y, x),
            Pred::Slt => self.tm.slt(x, y),
            Pred::Sle => self.tm.sle(x, y),
        };
        self.v(t)
    }
    pub fn binop(&mut self, st: &mut State, op: B, w: u16, a: V, b: V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let m = if w >= 64 { !0u64 } else { (1u64 << w) - 1 };
            let k = 64 - w as u32;
            let s = |v: u64| -> i64 { ((v << k) as i64) >> k };
            let r = match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                B::AShr => (s(x) >> y.min(w as u64 - 1)) as u64,
                B::UDiv | B::URem | B::SDiv | B::SRem if y == 0 => {
                    return Err(Stop::Bad(format!("machine division by zero in {}", self.site(st))));
                }
                B::UDiv => x / y,
                B::URem => x % y,
                B::SDiv => s(x).wrapping_div(s(y)) as u64,
                B::SRem => s(x).wrapping_rem(s(y)) as u64,
            };
            return Ok(V::I(r & m));
        }
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            return match bin_const(op, x, y, w) {
                Some(r) => Ok(V::from_u128(r, w)),
                None => Err(Stop::Bad("division by zero".into())),
            };
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let t = self.tm.bin(op, x, y);
        Ok(self.v(t))
    }
    fn cast(&mut self, k: CastK, from: u16, to: u16, a: V) -> R<V> {
        match k {
            CastK::ZExt => match a {
                V::S(t) => {
                    let r = self.tm.zext(t, to);
                    Ok(self.v(r))
                }
                _ => Ok(V::from_u128(a.conc().unwrap(), to)),
            },
            CastK::SExt => match a {
                V::S(t) => {
                    let r = self.tm.sext(t, to);
                    Ok(self.v(r))
                }
                _ => Ok(V::from_u128(sext128(a.conc().unwrap(), from) as u128 & mask(to), to)),
            },
            CastK::Trunc => match a {
                V::S(t) => {
                    let r = self.tm.extract(t, 0, to);
                    Ok(self.v(r))
                }
                _ => Ok(V::from_u128(a.conc().unwrap() & mask(to), to)),
            },
            CastK::Copy => Ok(a),
            _ => {
                let x = match a.conc() {
                    Some(x) => x,
                    None => return Err(Stop::Bad("floating-point operation on a symbolic value".into())),
                };
                let f = |w: u16, x: u128| -> f64 {
                    if w == 32 {
                        f32::from_bits(x as u32) as f64
                    } else {
                        f64::from_bits(x as u64)
                    }
                };
                let r: u128 = match k {
                    CastK::FpToSi => (f(from, x) as i128 as u128) & mask(to),
                    CastK::FpToUi => (f(from, x) as u128) & mask(to),
                    CastK::SiToFp | CastK::UiToFp => {
                        let v = if k == CastK::SiToFp { sext128(x, from) as f64 } else { x as f64 };
                        if to == 32 {
                            let v = if k == CastK::SiToFp { sext128(x, from) as f32 } else { x as f32 };
                            v.to_bits() as u128
                        } else {
                            v.to_bits() as u128
                        }
                    }
                    CastK::FpExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
                    CastK::FpTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
                    _ => unreachable!(),
                };
                Ok(V::from_u128(r, to))
            }
        }
    }
    pub fn addr_load(&mut self, st: &mut State, p: V, off: u32, w: u16) -> R<V> {
        match p {
            V::I(a) => self.load(st, a.wrapping_add(off as u64), w),
            V::S(t) => self.load_sym(st, t, off, w),
            _ => unreachable!(),
        }
    }

    fn steps(&mut self, st: &mut State) -> R<()> {
        loop {
            st.steps += 1;
            self.st.steps += 1;
            if self.st.steps & 0xfff == 0 {
                if self.prof {
                    *self.profile.entry(st.fr.f.idx).or_default() += 1;
                }
                if self.st.steps & 0xffff == 0 {
                    if Instant::now() > self.deadline {
                        return Err(Stop::Bad("time limit".into()));
                    }
                    if st.steps > self.step_cap {
                        return Err(Stop::Bad(format!("step bound {} exceeded in {}", self.step_cap, self.site(st))));
                    }
                    crate::maybe_share(self);
                }
            }
            let f: &'static Func = st.fr.f;
            let pc = st.fr.pc as usize;
            let ins = &f.code[pc];
            match ins {
                I::Bin { op, w, a, b, d } => {
                    let (x, y) = (Self::g(&st.fr, *a), Self::g(&st.fr, *b));
                    let r = self.binop(st, *op, *w, x, y)?;
                    st.fr.regs[*d as usize] = r;
                    st.fr.pc += 1;
                }
                I::ICmp { p, w, a, b, d } => {
                    let (x, y) = (Self::g(&st.fr, *a), Self::g(&st.fr, *b));
                    let r = self.icmp(*p, *w, x, y);
                    st.fr.regs[*d as usize] = r;
                    st.fr.pc += 1;
                }
                I::Load { w, p, off, d } => {
                    let pv = Self::g(&st.fr, *p);
                    let r = self.addr_load(st, pv, *off, *w)?;
                    st.fr.regs[*d as usize] = r;
                    st.fr.pc += 1;
                }
                I::Store { w, p, off, v } => {
                    let pv = Self::g(&st.fr, *p);
                    let a = self.conc(st, pv)?;
                    let vv = Self::g(&st.fr, *v);
                    self.store(st, a.wrapping_add(*off as u64), *w, vv)?;
                    st.fr.pc += 1;
                }
                I::Gep { base, off, idx, d } => {
                    let b = Self::g(&st.fr, *base);
                    let mut r = match b {
                        V::I(x) => V::I(x.wrapping_add(*off as u64)),
                        _ => self.binop(st, B::Add, 64, b, V::I(*off as u64))?,
                    };
                    for (o, w, s) in idx.iter() {
                        let i = Self::g(&st.fr, *o);
                        match (r, i) {
                            (V::I(x), V::I(y)) => {
                                let k = 64 - *w as u32;
                                let y = ((y << k) as i64) >> k;
                                r = V::I(x.wrapping_add((y.wrapping_mul(*s)) as u64));
                            }
                            _ => {
                                let e = self.cast(if *w < 64 { CastK::SExt } else { CastK::Copy }, *w, 64, i)?;
                                let p = self.binop(st, B::Mul, 64, e, V::I(*s as u64))?;
                                r = self.binop(st, B::Add, 64, r, p)?;
                            }
                        }
                    }
                    st.fr.regs[*d as usize] = r;
                    st.fr.pc += 1;
                }
                I::Select { c, a, b, d, w, ptr } => {
                    let cv = Self::g(&st.fr, *c);
                    let (x, y) = (Self::g(&st.fr, *a), Self::g(&st.fr, *b));
                    let r = match cv {
                        V::I(k) => {
                            if k & 1 != 0 {
                                x
                            } else {
                                y
                            }
                        }
                        V::S(t) => {
                            if x == y {
                                x
                            } else if let Some(k) = self.quick(st, t) {
                                if k {
                                    x
                                } else {
                                    y
                                }
                            } else if *ptr {
                                if self.branch(st, t)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let (p, q) = (self.t(x, *w), self.t(y, *w));
                                let r = self.tm.ite(t, p, q);
                                self.v(r)
                            }
                        }
                        _ => unreachable!(),
                    };
                    st.fr.regs[*d as usize] = r;
                    st.fr.pc += 1;
                }
                I::Cast { k, from, to, a, d } => {
                    let x = Self::g(&st.fr, *a);
                    let r = match (k, x) {
                        (CastK::ZExt, V::I(v)) if *to <= 64 => V::I(v),
                        (CastK::Trunc, V::I(v)) => V::I(v & ((1u64 << *to) - 1)),
                        _ => self.cast(*k, *from, *to, x)?,
                    };
                    st.fr.regs[*d as usize] = r;
                    st.fr.pc += 1;
                }
                I::Copy { a, d } => {
                    st.fr.regs[*d as usize] = Self::g(&st.fr, *a);
                    st.fr.pc += 1;
                }
                I::Br(e) => self.edge(&mut st.fr, e),
                I::CondBr { c, t, f } => {
                    let cv = Self::g(&st.fr, *c);
                    let b = match cv {
                        V::I(x) => x & 1 != 0,
                        V::S(t) => self.branch(st, t)?,
                        _ => unreachable!(),
                    };
                    self.edge(&mut st.fr, if b { t } else { f });
                }
                I::Switch { v, w, cases, targets } => {
                    let x = Self::g(&st.fr, *v);
                    let ti = match x {
                        V::I(k) => match cases.binary_search_by(|c| c.0.cmp(&k)) {
                            Ok(i) => cases[i].1,
                            Err(_) => 0,
                        },
                        V::S(t) => {
                            let mut chosen = 0;
                            let single = cases.len() > 1;
                            let _ = single;
                            for ti in 1..targets.len() as u32 {
                                let vals: Vec<u64> = cases.iter().filter(|c| c.1 == ti).map(|c| c.0).collect();
                                let mut cond = self.tm.fls();
                                for k in vals {
                                    let kc = self.tm.c(k as u128, *w);
                                    let e = self.tm.eq(t, kc);
                                    cond = self.tm.or(cond, e);
                                }
                                if self.branch(st, cond)? {
                                    chosen = ti;
                                    break;
                                }
                            }
                            chosen
                        }
                        V::W(..) => return Err(Stop::Bad("switch on wide integer".into())),
                    };
                    self.edge(&mut st.fr, &targets[ti as usize]);
                }
                I::Ret { v, n } => {
                    if st.stack.is_empty() && st.co_in {
                        self.release(st);
                        st.co_in = false;
                        ext::swap(st);
                        st.co = None;
                        continue;
                    }
                    if st.stack.is_empty() {
                        return Err(Stop::End);
                    }
                    let n = (*n).min(st.fr.nret.max(if st.fr.catch { 0 } else { st.fr.nret }));
                    let mut vals = [V::I(0); 8];
                    if n as usize > 8 {
                        return Err(Stop::Bad("large aggregate return".into()));
                    }
                    for i in 0..n as u32 {
                        vals[i as usize] = Self::g(&st.fr, v + i);
                    }
                    let (ret, catch) = (st.fr.ret, st.fr.catch);
                    self.pop(st);
                    if catch {
                        st.fr.regs[ret as usize] = V::I(0);
                    } else {
                        for i in 0..n as u32 {
                            st.fr.regs[(ret + i) as usize] = vals[i as usize];
                        }
                    }
                }
                I::Call { f: callee, args, d, nret, retw } => {
                    self.call(st, callee, args, *d, *nret, *retw)?;
                }
                I::AllocaStatic { off, d } => {
                    st.fr.regs[*d as usize] = V::I(((st.fr.stk as u64) << 32) + *off as u64);
                    st.fr.pc += 1;
                }
                I::Alloca { esz, n, nw, d } => {
                    let nv = Self::g(&st.fr, *n);
                    let _ = nw;
                    let k = self.conc(st, nv)?;
                    let id = st.mem.alloc_stack((k * esz) as usize);
                    st.fr.extra.push(id);
                    st.fr.regs[*d as usize] = V::I((id as u64) << 32);
                    st.fr.pc += 1;
                }
                I::Unreachable => {
                    return Err(Stop::Bad(format!("unreachable executed in {}", self.site(st))));
                }
                I::Rmw { op, w, p, v, d } => {
                    let pv = Self::g(&st.fr, *p);
                    let a = self.conc(st, pv)?;
                    let old = self.load(st, a, *w)?;
                    let x = Self::g(&st.fr, *v);
                    let new = match op {
                        RmwOp::Xchg => x,
                        RmwOp::Add => self.binop(st, B::Add, *w, old, x)?,
                        RmwOp::Sub => self.binop(st, B::Sub, *w, old, x)?,
                        RmwOp::And => self.binop(st, B::And, *w, old, x)?,
                        RmwOp::Or => self.binop(st, B::Or, *w, old, x)?,
                        RmwOp::Xor => self.binop(st, B::Xor, *w, old, x)?,
                        RmwOp::Nand => {
                            let a = self.binop(st, B::And, *w, old, x)?;
                            self.binop(st, B::Xor, *w, a, V::from_u128(mask(*w), *w))?
                        }
                        RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                            let p = match op {
                                RmwOp::Max => Pred::Sgt,
                                RmwOp::Min => Pred::Slt,
                                RmwOp::UMax => Pred::Ugt,
                                _ => Pred::Ult,
                            };
                            let c = self.icmp(p, *w, old, x);
                            if self.branch_v(st, c)? {
                                old
                            } else {
                                x
                            }
                        }
                    };
                    self.store(st, a, *w, new)?;
                    st.fr.regs[*d as usize] = old;
                    st.fr.pc += 1;
                }
                I::CmpXchg { w, p, c, n, d } => {
                    let pv = Self::g(&st.fr, *p);
                    let a = self.conc(st, pv)?;
                    let old = self.load(st, a, *w)?;
                    let cv = Self::g(&st.fr, *c);
                    let e = self.icmp(Pred::Eq, *w, old, cv);
                    let eq = self.branch_v(st, e)?;
                    if eq {
                        let nv = Self::g(&st.fr, *n);
                        self.store(st, a, *w, nv)?;
                    }
                    st.fr.regs[*d as usize] = old;
                    st.fr.regs[*d as usize + 1] = V::I(eq as u64);
                    st.fr.pc += 1;
                }
                I::FBin { op, w, a, b, d } => {
                    let (x, y) = (Self::g(&st.fr, *a).conc(), Self::g(&st.fr, *b).conc());
                    let (x, y) = match (x, y) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return Err(Stop::Bad(format!("floating-point operation on a symbolic value in {}", self.site(st)))),
                    };
                    let r = if *w == 32 {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            FOp::Add => x + y,
                            FOp::Sub => x - y,
                            FOp::Mul => x * y,
                            FOp::Div => x / y,
                            FOp::Rem => x % y,
                            FOp::Neg => -x,
                        })
                        .to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                        (match op {
                            FOp::Add => x + y,
                            FOp::Sub => x - y,
                            FOp::Mul => x * y,
                            FOp::Div => x / y,
                            FOp::Rem => x % y,
                            FOp::Neg => -x,
                        })
                        .to_bits()
                    };
                    st.fr.regs[*d as usize] = V::I(r);
                    st.fr.pc += 1;
                }
                I::FCmp { p, w, a, b, d } => {
                    let (x, y) = match (Self::g(&st.fr, *a).conc(), Self::g(&st.fr, *b).conc()) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return Err(Stop::Bad("floating-point comparison on a symbolic value".into())),
                    };
                    let (x, y) = if *w == 32 {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    } else {
                        (f64::from_bits(x as u64), f64::from_bits(y as u64))
                    };
                    let bit = match x.partial_cmp(&y) {
                        Some(std::cmp::Ordering::Less) => 1,
                        Some(std::cmp::Ordering::Equal) => 2,
                        Some(std::cmp::Ordering::Greater) => 4,
                        None => 8,
                    };
                    st.fr.regs[*d as usize] = V::I((p & bit != 0) as u64);
                    st.fr.pc += 1;
                }
            }
        }
    }

    fn call(&mut self, st: &mut State, callee: &Callee, args: &[Arg], d: u32, nret: u16, retw: u16) -> R<()> {
        let fi = match callee {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let v = Self::g(&st.fr, *o);
                let a = self.conc(st, v)?;
                match self.m.addr_func(a) {
                    Some(f) => f,
                    None => return Err(Stop::Bad(format!("call of a non-function address {:#x} in {}", a, self.site(st)))),
                }
            }
            Callee::Intr(i) => {
                let mut av = [V::I(0); 6];
                for (k, a) in args.iter().enumerate().take(6) {
                    av[k] = Self::g(&st.fr, a.o);
                }
                return ext::intrinsic(self, st, *i, &av, args, d, nret, retw);
            }
            Callee::Asm(s) => {
                let av: Vec<V> = args.iter().map(|a| Self::g(&st.fr, a.o)).collect();
                return ext::inline_asm(self, st, s, &av, d, nret);
            }
        };
        let mut av: Vec<V> = Vec::with_capacity(args.len() + 2);
        for a in args.iter() {
            if a.byval > 0 {
                let src = Self::g(&st.fr, a.o);
                let s = self.conc(st, src)?;
                let id = st.mem.alloc_stack(a.byval as usize);
                st.fr.extra.push(id);
                self.memcpy(st, (id as u64) << 32, s, a.byval as usize)?;
                av.push(V::I((id as u64) << 32));
                continue;
            }
            for k in 0..a.n as u32 {
                av.push(Self::g(&st.fr, a.o + k));
            }
        }
        if !self.called[fi as usize] {
            self.called[fi as usize] = true;
            self.exts[fi as usize] = ext::lookup(&self.m.funcs[fi as usize].name, self.m.funcs[fi as usize].body.is_some());
        }
        if let Some(h) = self.exts[fi as usize] {
            st.fr.pc += 1;
            // on a fork inside the handler the clone must re-execute the call
            st.fr.pc -= 1;
            let pushed = st.stack.len();
            let r = h(self, st, &av, (d, nret))?;
            if std::mem::take(&mut self.switched) {
                return Ok(());
            }
            if st.stack.len() == pushed {
                if nret > 0 {
                    st.fr.regs[d as usize] = match r {
                        V::I(x) if nret == 1 && retw < 64 && retw > 0 => V::I(x & ((1 << retw) - 1)),
                        r => r,
                    };
                }
                st.fr.pc += 1;
            }
            return Ok(());
        }
        if self.m.funcs[fi as usize].body.is_none() {
            return Err(Stop::Bad(format!("call of an unmodelled external function {} in {}", self.m.funcs[fi as usize].name, self.site(st))));
        }
        let f = self.func(fi)?;
        if self.trace {
            eprintln!("{}{} {:x?}", " ".repeat(st.stack.len()), f.short, &av);
        }
        if st.stack.len() > 4000 {
            return Err(Stop::Bad("call depth bound".into()));
        }
        let mut nf = self.make_frame(st, f, &av);
        nf.ret = d;
        nf.nret = nret;
        if f.variadic {
            let k = f.nparam_slots as usize;
            let rest = &av[k.min(av.len())..];
            let id = st.mem.alloc_stack(rest.len() * 8 + 8);
            for (i, v) in rest.iter().enumerate() {
                let w = match v {
                    V::S(t) => self.tm.w(*t),
                    _ => 64,
                };
                self.store(st, ((id as u64) << 32) + 8 * i as u64, w, *v)?;
            }
            nf.va = id;
        }
        st.fr.pc += 1;
        let old = std::mem::replace(&mut st.fr, nf);
        st.stack.push(Rc::new(old));
        Ok(())
    }
}
