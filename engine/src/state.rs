//! Memory, frames, file system and path state.
use crate::ir::{Func, V};
use crate::term::{MV, T};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub d: Vec<u8>,
    /// per-byte 8-bit terms, 0 = concrete
    pub s: Option<Box<Vec<T>>>,
    pub ro: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { d: vec![0; n], s: None, ro: false }
    }
    pub fn byte(&self, i: usize) -> V {
        if let Some(s) = &self.s {
            if s[i] != 0 {
                return V::S(s[i]);
            }
        }
        V::I(self.d[i] as u64)
    }
    pub fn set_byte(&mut self, i: usize, v: V) {
        match v {
            V::I(x) => {
                self.d[i] = x as u8;
                if let Some(s) = &mut self.s {
                    s[i] = 0;
                }
            }
            V::S(t) => {
                let n = self.d.len();
                self.s.get_or_insert_with(|| Box::new(vec![0; n]))[i] = t;
            }
            _ => unreachable!(),
        }
    }
    pub fn sym_in(&self, off: usize, n: usize) -> bool {
        match &self.s {
            None => false,
            Some(s) => s[off..off + n].iter().any(|&x| x != 0),
        }
    }
    pub fn resize(&mut self, n: usize) {
        self.d.resize(n, 0);
        if let Some(s) = &mut self.s {
            s.resize(n, 0);
        }
    }
    pub fn copy_from(&mut self, doff: usize, src: &Obj, soff: usize, n: usize) {
        if n == 0 {
            return;
        }
        self.d[doff..doff + n].copy_from_slice(&src.d[soff..soff + n]);
        match &src.s {
            Some(s) if s[soff..soff + n].iter().any(|&x| x != 0) => {
                let len = self.d.len();
                let t = self.s.get_or_insert_with(|| Box::new(vec![0; len]));
                t[doff..doff + n].copy_from_slice(&s[soff..soff + n]);
            }
            _ => {
                if let Some(t) = &mut self.s {
                    t[doff..doff + n].fill(0);
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Chunk([Option<Rc<Obj>>; 64]);

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    free: Vec<u32>,
    pub next: u32,
}
const NONE: Option<Rc<Obj>> = None;
impl Mem {
    pub fn new(next: u32) -> Mem {
        Mem { chunks: vec![], free: vec![], next }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        match self.chunks.get((id >> 6) as usize) {
            Some(Some(c)) => c.0[(id & 63) as usize].as_ref(),
            _ => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        match self.chunks.get_mut((id >> 6) as usize) {
            Some(Some(c)) => {
                let c = Rc::make_mut(c);
                match &mut c.0[(id & 63) as usize] {
                    Some(o) => Some(Rc::make_mut(o)),
                    None => None,
                }
            }
            _ => None,
        }
    }
    pub fn put(&mut self, id: u32, o: Rc<Obj>) {
        let k = (id >> 6) as usize;
        if k >= self.chunks.len() {
            self.chunks.resize(k + 1, None);
        }
        let c = self.chunks[k].get_or_insert_with(|| Rc::new(Chunk([NONE; 64])));
        Rc::make_mut(c).0[(id & 63) as usize] = Some(o);
    }
    pub fn del(&mut self, id: u32) {
        if let Some(Some(c)) = self.chunks.get_mut((id >> 6) as usize) {
            Rc::make_mut(c).0[(id & 63) as usize] = None;
        }
    }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Rc::new(Obj::new(n)));
        (id as u64) << 32
    }
    /// identifiers of stack objects are recycled
    pub fn alloc_stack(&mut self, n: usize) -> u32 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next - 1
            }
        };
        self.put(id, Rc::new(Obj::new(n)));
        id
    }
    pub fn free_stack(&mut self, id: u32) {
        self.del(id);
        self.free.push(id);
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub regs: Vec<V>,
    pub stk: u32,
    pub va: u32,
    pub extra: Vec<u32>,
    pub ret: u32,
    pub nret: u16,
    pub catch: bool,
}

#[derive(Clone)]
pub struct File {
    pub o: Rc<Obj>,
    pub ino: u64,
    pub dir: bool,
}
#[derive(Clone, Debug)]
pub struct Fd {
    pub ino: u64,
    pub pos: u64,
    pub path: String,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub names: BTreeMap<String, u64>,
    pub files: HashMap<u64, File>,
    pub fds: Vec<Option<Fd>>,
    pub next_ino: u64,
}

#[derive(Clone)]
pub struct State {
    pub fr: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Rc<Vec<T>>,
    pub dom: Rc<HashMap<u32, [u64; 4]>>,
    pub ent: Rc<HashSet<u32>>,
    pub known: Rc<HashMap<T, bool>>,
    pub kval: Rc<HashMap<T, u128>>,
    pub ival: Rc<HashMap<T, num_bigint::BigInt>>,
    pub model: Rc<HashMap<u32, MV>>,
    /// named symbolic inputs in creation order: (name, term)
    pub inputs: Rc<Vec<(String, T)>>,
    pub out: Rc<Obj>,
    pub err: Rc<Obj>,
    /// the other of two coroutines; whether this is the second one
    pub co: Option<Rc<(Frame, Vec<Rc<Frame>>)>>,
    pub co_in: bool,
    /// writes to stdout fail
    pub out_broken: bool,
    pub fs: Rc<Fs>,
    pub steps: u64,
    pub depth: u32,
    pub nalloc: u64,
    pub panic_loc: Rc<String>,
    /// fault injection: (symbolic index term, mode, count so far); mode 1 = crash, 2 = EIO/ENOSPC
    pub inj: Option<(T, u8, u64)>,
    pub inj_hit: bool,
    pub env: Rc<BTreeMap<String, String>>,
    pub env_addr: Rc<HashMap<String, u64>>,
    pub time: u64,
    pub errno: u64,
    pub notes: Rc<Vec<String>>,
    /// pairs of integers assumed to have no common divisor
    pub coprime: Rc<HashSet<(T, T)>>,
    /// polynomials in one byte of a higher degree than this are decided separately for each of its values
    pub split: usize,
}
