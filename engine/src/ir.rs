//! Parser for textual LLVM IR (the subset produced by rustc/clang without vector code).
use std::collections::HashMap;
use std::rc::Rc;

use crate::term::T;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    I(u64),
    W(u64, u64), // lo, hi  (65..128 bit)
    S(T),
}
impl V {
    pub fn from_u128(v: u128, w: u16) -> V {
        if w > 64 {
            V::W(v as u64, (v >> 64) as u64)
        } else {
            V::I(v as u64)
        }
    }
    pub fn conc(&self) -> Option<u128> {
        match self {
            V::I(x) => Some(*x as u128),
            V::W(l, h) => Some(*l as u128 | (*h as u128) << 64),
            V::S(_) => None,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<TyRef>>, bool), // packed?
    Arr(u64, TyRef),
    Other,
}
pub type TyRef = Rc<Ty>;

pub fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Void | Ty::Other => 1,
        Ty::Int(w) => match w {
            0..=8 => 1,
            9..=16 => 2,
            17..=32 => 4,
            33..=64 => 8,
            _ => 16,
        },
        Ty::Ptr | Ty::F64 => 8,
        Ty::F32 => 4,
        Ty::Struct(f, p) => {
            if *p {
                1
            } else {
                f.iter().map(|x| align_of(x)).max().unwrap_or(1)
            }
        }
        Ty::Arr(_, e) => align_of(e),
    }
}
pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Void | Ty::Other => 0,
        Ty::Int(w) => {
            let b = (*w as u64 + 7) / 8;
            let a = align_of(t);
            (b + a - 1) / a * a
        }
        Ty::Ptr | Ty::F64 => 8,
        Ty::F32 => 4,
        Ty::Struct(f, p) => {
            let mut o = 0;
            for x in f.iter() {
                if !*p {
                    let a = align_of(x);
                    o = (o + a - 1) / a * a;
                }
                o += size_of(x);
            }
            let a = align_of(t);
            (o + a - 1) / a * a
        }
        Ty::Arr(n, e) => n * size_of(e),
    }
}
pub fn field_off(f: &[TyRef], packed: bool, i: usize) -> u64 {
    let mut o = 0;
    for (k, x) in f.iter().enumerate() {
        if !packed {
            let a = align_of(x);
            o = (o + a - 1) / a * a;
        }
        if k == i {
            return o;
        }
        o += size_of(x);
    }
    panic!("field index")
}
/// scalar leaves: (offset, width in bits)
pub fn flat(t: &Ty, base: u64, out: &mut Vec<(u64, u16)>) {
    match t {
        Ty::Void => {}
        Ty::Other => out.push((base, 64)),
        Ty::Int(w) => out.push((base, *w)),
        Ty::Ptr | Ty::F64 => out.push((base, 64)),
        Ty::F32 => out.push((base, 32)),
        Ty::Struct(f, p) => {
            for i in 0..f.len() {
                flat(&f[i], base + field_off(f, *p, i), out)
            }
        }
        Ty::Arr(n, e) => {
            for i in 0..*n {
                flat(e, base + i * size_of(e), out)
            }
        }
    }
}
pub fn nflat(t: &Ty) -> usize {
    match t {
        Ty::Void => 0,
        Ty::Struct(f, _) => f.iter().map(|x| nflat(x)).sum(),
        Ty::Arr(n, e) => *n as usize * nflat(e),
        _ => 1,
    }
}
fn scalar_w(t: &Ty) -> u16 {
    match t {
        Ty::Int(w) => *w,
        Ty::F32 => 32,
        _ => 64,
    }
}

/// operand: register slot, or constant index with the top bit set
pub type O = u32;
pub const KBIT: u32 = 1 << 31;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Copy,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, O)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(O),
    Asm(Rc<str>),
    Intr(Intr),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Assume,
    UMin,
    UMax,
    SMin,
    SMax,
    Fshl,
    Fshr,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UCmp,
    SCmp,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Abs,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    ThreadLocal,
    LoadRelative,
    VaStart,
    VaEnd,
    Trap,
    AddCarry,
    SubBorrow,
    Fmuladd,
    Ceil,
    Floor,
    FTrunc,
    Sqrt,
    Log2,
    Pow,
    Fabs,
    FpToUiSat,
    FpToSiSat,
    Expect,
    IsConstant,
    ObjectSize,
    StackSave,
    FrameAddress,
    PtrMask,
    UShlSat,
    Copysign,
    Round,
    Unknown,
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub o: O,
    pub n: u8, // number of flat slots
    pub w: u16,
    pub byval: u32, // size if byval
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: crate::term::B, w: u16, a: O, b: O, d: u32 },
    ICmp { p: Pred, w: u16, a: O, b: O, d: u32 },
    FBin { op: FOp, w: u16, a: O, b: O, d: u32 },
    FCmp { p: u8, w: u16, a: O, b: O, d: u32 }, // bits: 1 lt,2 eq,4 gt,8 unordered
    Load { w: u16, p: O, off: u32, d: u32 },
    Store { w: u16, p: O, off: u32, v: O },
    Gep { base: O, off: i64, idx: Box<[(O, u16, i64)]>, d: u32 },
    Select { c: O, a: O, b: O, d: u32, w: u16, ptr: bool },
    Cast { k: CastK, from: u16, to: u16, a: O, d: u32 },
    Call { f: Callee, args: Box<[Arg]>, d: u32, nret: u16, retw: u16 },
    Copy { a: O, d: u32 },
    Alloca { esz: u64, n: O, nw: u16, d: u32 },
    AllocaStatic { off: u32, d: u32 },
    Br(Box<Edge>),
    CondBr { c: O, t: Box<Edge>, f: Box<Edge> },
    Switch { v: O, w: u16, cases: Box<[(u64, u32)]>, targets: Box<[Edge]> }, // targets[0] = default
    Ret { v: O, n: u16 },
    Unreachable,
    Rmw { op: RmwOp, w: u16, p: O, v: O, d: u32 },
    CmpXchg { w: u16, p: O, c: O, n: O, d: u32 },
}

pub struct Func {
    pub name: String,
    pub idx: u32,
    pub nregs: u32,
    pub params: Vec<(u16, u16)>, // (slot count, byval size>0)
    pub nparam_slots: u32,
    pub variadic: bool,
    pub frame: u32,
    pub code: Vec<I>,
    pub consts: Vec<V>,
    pub short: String,
}

pub struct FnDecl {
    pub name: String,
    pub body: Option<(usize, usize)>,
    pub line: (usize, usize),
    pub retw: u16,
}

pub struct Global {
    pub name: String,
    pub ty: TyRef,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
    pub tls: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub types: HashMap<String, TyRef>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub funcs: Vec<FnDecl>,
    pub fmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

pub const GBASE: u64 = 16;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    end: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.end && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.end {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(60);
        let b = (self.i + 120).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).to_string()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.end {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                self.i += 1
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    /// after % or @: identifier or quoted
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            unescape(&self.s[st..j])
        } else {
            self.word().to_string()
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.end {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn line_end(&mut self) {
        while self.i < self.end && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
}
fn unescape(b: &[u8]) -> String {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).to_string()
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ir");
        let mut m = Module {
            text,
            types: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            aliases: HashMap::new(),
        };
        m.scan();
        m
    }
    fn scan(&mut self) {
        let text = std::mem::take(&mut self.text);
        let n = text.len();
        let mut i = 0;
        let mut typedefs: Vec<(String, usize, usize)> = vec![];
        let mut globs: Vec<(usize, usize)> = vec![];
        while i < n {
            let e = memchr(&text, b'\n', i).unwrap_or(n);
            let l = &text[i..e];
            if l.starts_with(b"define ") || l.starts_with(b"declare ") {
                let def = l.starts_with(b"define ");
                let at = find_at(l).expect("fn name");
                let mut p = P { s: &text, i: i + at + 1, end: e };
                let name = p.name();
                let mut body = None;
                let mut next = e + 1;
                if def {
                    // body until line "}"
                    let mut j = e + 1;
                    loop {
                        let k = memchr(&text, b'\n', j).unwrap_or(n);
                        if k == j + 1 && text[j] == b'}' {
                            body = Some((e + 1, j));
                            next = k + 1;
                            break;
                        }
                        j = k + 1;
                        if j >= n {
                            panic!("no end of function")
                        }
                    }
                }
                let idx = self.funcs.len() as u32;
                self.fmap.insert(name.clone(), idx);
                self.funcs.push(FnDecl { name, body, line: (i, e), retw: 0 });
                i = next;
                continue;
            }
            if l.starts_with(b"%") {
                let mut p = P { s: &text, i: i + 1, end: e };
                let name = p.name();
                p.expect(b'=');
                let w = p.word();
                assert_eq!(w, "type");
                typedefs.push((name, p.i, e));
            } else if l.starts_with(b"@") {
                globs.push((i, e));
            }
            i = e + 1;
        }
        // types (resolve lazily by name)
        let defs: HashMap<String, (usize, usize)> = typedefs.iter().map(|(a, b, c)| (a.clone(), (*b, *c))).collect();
        for (name, _, _) in &typedefs {
            self.named(&text, name, &defs);
        }
        for (a, e) in globs {
            let mut p = P { s: &text, i: a + 1, end: e };
            let name = p.name();
            p.expect(b'=');
            let mut constant = false;
            let mut external = false;
            let mut tls = false;
            let mut alias = false;
            loop {
                let w = p.peek_word().to_string();
                match w.as_str() {
                    "constant" => {
                        constant = true;
                        p.word();
                        break;
                    }
                    "global" => {
                        p.word();
                        break;
                    }
                    "alias" => {
                        p.word();
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        p.word();
                    }
                    "" => panic!("global {}", p.ctx()),
                    _ => {
                        if w == "thread_local" {
                            tls = true;
                        }
                        p.word();
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                    }
                }
            }
            if alias {
                // ty, ptr @target
                let _ = self.ty(&mut p);
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                p.expect(b',');
                let _ = self.ty(&mut p);
                if p.peek() == b'@' {
                    p.i += 1;
                    let t = p.name();
                    self.aliases.insert(name, t);
                }
                continue;
            }
            let ty = self.ty(&mut p);
            let init = if external { None } else { Some((p.i, e)) };
            self.gmap.insert(name.clone(), self.globals.len() as u32);
            self.globals.push(Global { name, ty, init, constant, tls });
        }
        self.text = text;
    }
    fn named(&mut self, text: &[u8], name: &str, defs: &HashMap<String, (usize, usize)>) -> TyRef {
        if let Some(t) = self.types.get(name) {
            return t.clone();
        }
        let (a, e) = defs[name];
        // make sure that inner names are resolved first
        let mut p = P { s: text, i: a, end: e };
        while p.i < e {
            if p.s[p.i] == b'%' {
                p.i += 1;
                let n = p.name();
                self.named(text, &n, defs);
            } else {
                p.i += 1;
            }
        }
        let mut p = P { s: text, i: a, end: e };
        let t = if p.peek_word() == "opaque" { Rc::new(Ty::Other) } else { self.ty(&mut p) };
        self.types.insert(name.to_string(), t.clone());
        t
    }
    fn ty(&self, p: &mut P) -> TyRef {
        match p.peek() {
            b'{' => {
                p.i += 1;
                let f = self.ty_list(p, b'}');
                Rc::new(Ty::Struct(Rc::new(f), false))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let f = self.ty_list(p, b'}');
                    p.expect(b'>');
                    Rc::new(Ty::Struct(Rc::new(f), true))
                } else {
                    // vector
                    let n: u64 = p.word().parse().unwrap_or(0);
                    let _ = p.word();
                    let e = self.ty(p);
                    p.expect(b'>');
                    let _ = (n, e);
                    panic!("vector type");
                }
            }
            b'[' => {
                p.i += 1;
                let n: u64 = p.word().parse().expect("arr");
                p.word();
                let e = self.ty(p);
                p.expect(b']');
                Rc::new(Ty::Arr(n, e))
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                self.types.get(&n).cloned().unwrap_or_else(|| panic!("type {}", n))
            }
            _ => {
                let w = p.word();
                let t = match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" => Ty::Other,
                    "x86_fp80" => panic!("x86_fp80"),
                    _ => {
                        if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse::<u16>().ok()) {
                            Ty::Int(n)
                        } else {
                            panic!("type {:?} at {}", w, p.ctx())
                        }
                    }
                };
                Rc::new(t)
            }
        }
    }
    fn ty_list(&self, p: &mut P, close: u8) -> Vec<TyRef> {
        let mut v = vec![];
        if p.eat(close) {
            return v;
        }
        loop {
            v.push(self.ty(p));
            if p.eat(b',') {
                continue;
            }
            p.expect(close);
            return v;
        }
    }
    pub fn global_addr(&self, i: u32) -> u64 {
        (GBASE + i as u64) << 32
    }
    pub fn func_addr(&self, i: u32) -> u64 {
        (GBASE + self.globals.len() as u64 + i as u64) << 32
    }
    pub fn addr_func(&self, a: u64) -> Option<u32> {
        let id = a >> 32;
        let b = GBASE + self.globals.len() as u64;
        if a as u32 == 0 && id >= b && id < b + self.funcs.len() as u64 {
            Some((id - b) as u32)
        } else {
            None
        }
    }
    fn sym_addr(&self, n: &str) -> u64 {
        let mut name = n.to_string();
        while let Some(t) = self.aliases.get(&name) {
            name = t.clone();
        }
        if let Some(&g) = self.gmap.get(&name) {
            return self.global_addr(g);
        }
        if let Some(&f) = self.fmap.get(&name) {
            return self.func_addr(f);
        }
        panic!("unknown symbol @{}", n)
    }
    /// constant of the given type -> flat scalar values
    fn konst(&self, p: &mut P, ty: &Ty, out: &mut Vec<V>) {
        match p.peek() {
            b'@' => {
                p.i += 1;
                let n = p.name();
                out.push(V::I(self.sym_addr(&n)));
            }
            b'{' => {
                p.i += 1;
                self.klist(p, b'}', out);
            }
            b'<' => {
                p.i += 1;
                p.expect(b'{');
                self.klist(p, b'}', out);
                p.expect(b'>');
            }
            b'[' => {
                p.i += 1;
                self.klist(p, b']', out);
            }
            b'-' | b'0'..=b'9' => {
                let w = p.word().to_string();
                match ty {
                    Ty::F64 | Ty::F32 => {
                        // decimal, possibly with 'e+NN' ('+' ends a word)
                        let mut s = w;
                        if p.i < p.end && p.s[p.i] == b'+' {
                            p.i += 1;
                            s.push('+');
                            s.push_str(p.word());
                        }
                        let bits = if let Some(h) = s.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).unwrap()
                        } else {
                            s.parse::<f64>().unwrap().to_bits()
                        };
                        out.push(V::I(if *ty == Ty::F32 { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits }));
                    }
                    Ty::Int(wd) => {
                        let v: u128 = if let Some(x) = w.strip_prefix('-') {
                            x.parse::<u128>().unwrap().wrapping_neg()
                        } else {
                            w.parse::<u128>().unwrap_or_else(|_| panic!("int {}", w))
                        };
                        out.push(V::from_u128(v & crate::term::mask(*wd), *wd));
                    }
                    _ => panic!("number for type {:?}: {}", ty, p.ctx()),
                }
            }
            _ => {
                let w = p.word().to_string();
                match w.as_str() {
                    "c" => {
                        // c"..."
                        p.i += 1;
                        while p.s[p.i] != b'"' {
                            if p.s[p.i] == b'\\' {
                                if p.s[p.i + 1] == b'\\' {
                                    out.push(V::I(b'\\' as u64));
                                    p.i += 2;
                                    continue;
                                }
                                let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                                out.push(V::I(u8::from_str_radix(h, 16).unwrap() as u64));
                                p.i += 3;
                            } else {
                                out.push(V::I(p.s[p.i] as u64));
                                p.i += 1;
                            }
                        }
                        p.i += 1;
                    }
                    "true" => out.push(V::I(1)),
                    "false" | "null" | "none" => out.push(V::I(0)),
                    "undef" | "poison" | "zeroinitializer" => {
                        let mut f = vec![];
                        flat(ty, 0, &mut f);
                        for (_, w) in f {
                            out.push(V::from_u128(0, w));
                        }
                    }
                    "getelementptr" => {
                        while p.peek() != b'(' {
                            p.word();
                            if p.peek() == b'(' && p.s[p.i - 1] == b'e' && p.s[p.i.saturating_sub(7)..p.i].ends_with(b"inrange") {
                                p.skip_parens();
                            }
                        }
                        p.expect(b'(');
                        let t = self.ty(p);
                        p.expect(b',');
                        let bt = self.ty(p);
                        let mut b = vec![];
                        self.konst(p, &bt, &mut b);
                        let mut addr = b[0].conc().unwrap() as u64;
                        let mut cur = t.clone();
                        let mut first = true;
                        while p.eat(b',') {
                            let it = self.ty(p);
                            let mut iv = vec![];
                            self.konst(p, &it, &mut iv);
                            let iw = scalar_w(&it);
                            let k = crate::term::sext128(iv[0].conc().unwrap(), iw) as i64;
                            if first {
                                addr = addr.wrapping_add((k as u64).wrapping_mul(size_of(&cur)));
                                first = false;
                            } else {
                                let nx = match &*cur {
                                    Ty::Struct(f, pk) => {
                                        addr = addr.wrapping_add(field_off(f, *pk, k as usize));
                                        f[k as usize].clone()
                                    }
                                    Ty::Arr(_, e) => {
                                        addr = addr.wrapping_add((k as u64).wrapping_mul(size_of(e)));
                                        e.clone()
                                    }
                                    _ => panic!("gep"),
                                };
                                cur = nx;
                            }
                        }
                        p.expect(b')');
                        out.push(V::I(addr));
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        p.expect(b'(');
                        let t = self.ty(p);
                        let mut b = vec![];
                        self.konst(p, &t, &mut b);
                        assert!(p.eat_word("to"));
                        let t2 = self.ty(p);
                        p.expect(b')');
                        let wd = scalar_w(&t2);
                        let mut x = b[0].conc().unwrap();
                        if w == "trunc" && wd == 32 && x >> 32 != 0 {
                            // the distance of two objects in a table for llvm.load.relative: the difference of their
                            // numbers
                            assert!(x as u32 == 0, "relative table entry");
                            x >>= 32;
                        }
                        out.push(V::from_u128(x & crate::term::mask(wd), wd));
                    }
                    "sub" | "add" | "xor" => {
                        while p.peek() != b'(' {
                            p.word();
                        }
                        p.expect(b'(');
                        let t = self.ty(p);
                        let mut b = vec![];
                        self.konst(p, &t, &mut b);
                        p.expect(b',');
                        let t2 = self.ty(p);
                        self.konst(p, &t2, &mut b);
                        p.expect(b')');
                        let (x, y) = (b[0].conc().unwrap(), b[1].conc().unwrap());
                        let r = match w.as_str() {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            _ => x ^ y,
                        };
                        let wd = scalar_w(&t);
                        out.push(V::from_u128(r & crate::term::mask(wd), wd));
                    }
                    "f0x" => panic!("f0x"),
                    _ => {
                        if let Some(h) = w.strip_prefix("f0x") {
                            let b = u64::from_str_radix(h, 16).expect("fp");
                            out.push(V::I(b));
                        } else if w == "f" {
                            panic!("f const")
                        } else {
                            panic!("constant {:?} at {}", w, p.ctx())
                        }
                    }
                }
            }
        }
    }
    fn klist(&self, p: &mut P, close: u8, out: &mut Vec<V>) {
        if p.eat(close) {
            return;
        }
        loop {
            let t = self.ty(p);
            self.konst(p, &t, out);
            if p.eat(b',') {
                continue;
            }
            p.expect(close);
            return;
        }
    }
    pub fn global_init(&self, g: u32) -> Vec<u8> {
        let gl = &self.globals[g as usize];
        let n = size_of(&gl.ty) as usize;
        let mut data = vec![0u8; n];
        if let Some((a, e)) = gl.init {
            let mut p = P { s: &self.text, i: a, end: e };
            if p.peek_word() == "zeroinitializer" {
                return data;
            }
            let mut vals = vec![];
            self.konst(&mut p, &gl.ty, &mut vals);
            let mut fl = vec![];
            flat(&gl.ty, 0, &mut fl);
            assert_eq!(fl.len(), vals.len(), "init {}", gl.name);
            for ((off, w), v) in fl.iter().zip(vals) {
                let nb = (*w as usize + 7) / 8;
                let b = v.conc().unwrap().to_le_bytes();
                data[*off as usize..*off as usize + nb].copy_from_slice(&b[..nb]);
            }
        }
        data
    }
    pub fn parse_fn(&self, idx: u32) -> Result<Func, String> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FnParser::parse(self, idx)));
        r.map_err(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("cannot parse function {}: {}", self.funcs[idx as usize].name, m)
        })
    }
}

fn memchr(s: &[u8], c: u8, from: usize) -> Option<usize> {
    s[from..].iter().position(|&x| x == c).map(|x| x + from)
}
/// position of the function-name '@' in a define/declare line (skipping attribute strings)
fn find_at(l: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < l.len() {
        match l[i] {
            b'"' => {
                i += 1;
                while i < l.len() && l[i] != b'"' {
                    i += 1;
                }
            }
            b'@' => return Some(i),
            _ => {}
        }
        i += 1;
    }
    None
}

const OPERAND_WORDS: &[&str] = &[
    "null", "undef", "poison", "true", "false", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "none", "sub", "add", "xor",
    "trunc", "c", "asm", "ptrtoaddr",
];

struct FnParser<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    consts: Vec<V>,
    kmap: HashMap<(u64, u64, u8), u32>,
    code: Vec<I>,
    blocks: HashMap<String, u32>,
    frame: u64,
}

struct PhiInst {
    d: u32,
    n: usize,
    inc: Vec<(String, O)>,
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, name: &str, ty: &Ty) -> u32 {
        if let Some(&r) = self.regs.get(name) {
            return r;
        }
        let r = self.nregs;
        self.nregs += nflat(ty).max(1) as u32;
        self.regs.insert(name.to_string(), r);
        r
    }
    fn k(&mut self, vals: Vec<V>) -> O {
        if vals.len() == 1 {
            let key = match vals[0] {
                V::I(x) => (x, 0, 0),
                V::W(a, b) => (a, b, 1),
                _ => unreachable!(),
            };
            if let Some(&i) = self.kmap.get(&key) {
                return i | KBIT;
            }
            let i = self.consts.len() as u32;
            self.consts.push(vals[0]);
            self.kmap.insert(key, i);
            return i | KBIT;
        }
        let i = self.consts.len() as u32;
        self.consts.extend(vals);
        i | KBIT
    }
    fn opnd(&mut self, p: &mut P, ty: &Ty) -> O {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return self.reg(&n, ty);
        }
        let mut v = vec![];
        self.m.konst(p, ty, &mut v);
        self.k(v)
    }
    fn skip_attrs(&self, p: &mut P) -> u32 {
        let mut byval = 0;
        loop {
            let c = p.peek();
            if c == b'"' {
                p.i += 1;
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
                if p.peek() == b'=' {
                    p.i += 1;
                    p.expect(b'"');
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    p.i += 1;
                }
                continue;
            }
            if !(c.is_ascii_alphabetic()) {
                return byval;
            }
            let w = p.peek_word();
            if OPERAND_WORDS.contains(&w) {
                return byval;
            }
            p.word();
            if w == "align" {
                if p.peek() != b'(' {
                    p.word();
                    continue;
                }
            }
            if w == "byval" {
                p.expect(b'(');
                let t = self.m.ty(p);
                p.expect(b')');
                byval = size_of(&t) as u32;
                continue;
            }
            if p.peek() == b'(' {
                p.skip_parens();
            }
        }
    }
    fn skip_to_type(&self, p: &mut P) {
        loop {
            let c = p.peek();
            if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
                return;
            }
            let w = p.peek_word();
            if w == "void" || w == "ptr" || w == "float" || w == "double" || w == "x86_fp80" || w == "metadata" {
                return;
            }
            if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) {
                return;
            }
            if w.is_empty() {
                panic!("type expected at {}", p.ctx());
            }
            p.word();
            if w == "align" && p.peek() != b'(' {
                p.word();
                continue;
            }
            if p.peek() == b'(' {
                p.skip_parens();
            }
        }
    }
    fn label(&mut self, p: &mut P) -> String {
        assert!(p.eat_word("label"), "label at {}", p.ctx());
        p.expect(b'%');
        p.name()
    }

    fn parse(m: &'a Module, idx: u32) -> Func {
        let d = &m.funcs[idx as usize];
        let (bs, be) = d.body.expect("no body");
        let mut s = FnParser {
            m,
            regs: HashMap::new(),
            nregs: 0,
            consts: vec![],
            kmap: HashMap::new(),
            code: vec![],
            blocks: HashMap::new(),
            frame: 0,
        };
        // parameters
        let line = &m.text[d.line.0..d.line.1];
        let at = find_at(line).unwrap();
        let mut p = P { s: &m.text, i: d.line.0 + at + 1, end: d.line.1 };
        p.name();
        p.expect(b'(');
        let mut params = vec![];
        let mut variadic = false;
        let mut anon = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    p.i += 3;
                    variadic = true;
                    p.expect(b')');
                    break;
                }
                let t = m.ty(&mut p);
                let bv = s.skip_attrs(&mut p);
                let name = if p.eat(b'%') {
                    p.name()
                } else {
                    anon += 1;
                    (anon - 1).to_string()
                };
                s.reg(&name, &t);
                params.push((nflat(&t) as u16, bv as u16));
                if p.eat(b',') {
                    continue;
                }
                p.expect(b')');
                break;
            }
        }
        let nparam_slots = s.nregs;
        // blocks
        let mut p = P { s: &m.text, i: bs, end: be };
        let mut cur = String::from("\0entry");
        s.blocks.insert(cur.clone(), 0);
        let mut phis: HashMap<String, Vec<PhiInst>> = HashMap::new();
        // pending edges: (code index, edge slot, from block, to block)
        let mut edges: Vec<(usize, usize, String, String)> = vec![];
        let mut first_named = true;
        // name of the entry block if unlabelled: number after params
        let mut unnamed_entry: Option<String> = None;
        loop {
            p.ws();
            if p.i >= be {
                break;
            }
            let c = p.s[p.i];
            if c == b';' || c == b'#' {
                p.line_end();
                continue;
            }
            // label?
            let ls = if p.i == bs || p.s[p.i - 1] == b'\n' { true } else { false };
            if ls && c != b' ' {
                let name = if c == b'"' { p.name() } else { p.word().to_string() };
                if p.i < be && p.s[p.i] == b':' {
                    p.i += 1;
                    p.line_end();
                    if s.code.is_empty() && first_named {
                        s.blocks.insert(name.clone(), 0);
                    } else {
                        s.blocks.insert(name.clone(), s.code.len() as u32);
                    }
                    first_named = false;
                    cur = name;
                    continue;
                }
                panic!("label expected at {}", p.ctx());
            }
            if first_named {
                unnamed_entry = Some(params.len().to_string());
                first_named = false;
            }
            // limit the parser to this instruction (one line; a switch extends to its closing bracket)
            let mut e = memchr(p.s, b'\n', p.i).unwrap_or(be).min(be);
            if e > p.i && p.s[e - 1] == b'[' {
                while !(p.s[e..].starts_with(b"\n  ]")) {
                    e += 1;
                }
                e += 4;
            }
            p.end = e;
            s.inst(&mut p, &cur, &mut phis, &mut edges);
            p.i = e;
            p.end = be;
            p.line_end();
        }
        if let Some(n) = unnamed_entry {
            // the entry block has the next unnamed number; phis refer to it as such
            for (_, _, f, _) in edges.iter_mut() {
                if f == "\0entry" {
                    *f = n.clone();
                }
            }
        }
        // resolve edges
        for (ci, slot, from, to) in edges {
            let pc = *s.blocks.get(&to).unwrap_or_else(|| panic!("block {}", to));
            let mut mv = vec![];
            if let Some(ps) = phis.get(&to) {
                for ph in ps {
                    let o = ph.inc.iter().find(|(b, _)| *b == from).unwrap_or_else(|| panic!("phi {} from {}", to, from)).1;
                    for k in 0..ph.n as u32 {
                        if ph.d + k != o + k || o & KBIT != 0 {
                            mv.push((ph.d + k, o + k));
                        }
                    }
                }
            }
            let e = Edge { pc, moves: mv.into_boxed_slice() };
            match &mut s.code[ci] {
                I::Br(x) => **x = e,
                I::CondBr { t, f, .. } => {
                    if slot == 0 {
                        **t = e
                    } else {
                        **f = e
                    }
                }
                I::Switch { targets, .. } => targets[slot] = e,
                _ => unreachable!(),
            }
        }
        Func {
            name: d.name.clone(),
            idx,
            nregs: s.nregs,
            params,
            nparam_slots,
            variadic,
            frame: ((s.frame + 15) / 16 * 16) as u32,
            code: s.code,
            consts: s.consts,
            short: demangle(&d.name),
        }
    }

    fn inst(
        &mut self,
        p: &mut P,
        cur: &str,
        phis: &mut HashMap<String, Vec<PhiInst>>,
        edges: &mut Vec<(usize, usize, String, String)>,
    ) {
        use crate::term::B;
        let m = self.m;
        let mut dn: Option<String> = None;
        if p.peek() == b'%' {
            p.i += 1;
            dn = Some(p.name());
            p.expect(b'=');
        }
        let mut op = p.word();
        while op == "tail" || op == "musttail" || op == "notail" {
            op = p.word();
        }
        let dst = |s: &mut Self, t: &Ty| -> u32 {
            match &dn {
                Some(n) => s.reg(n, t),
                None => 0,
            }
        };
        let i1 = Ty::Int(1);
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                p.expect(b',');
                let b = self.opnd(p, &t);
                let d = dst(self, &t);
                let o = match op {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    _ => B::Xor,
                };
                self.code.push(I::Bin { op: o, w: scalar_w(&t), a, b, d });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                p.expect(b',');
                let b = self.opnd(p, &t);
                let d = dst(self, &t);
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                self.code.push(I::FBin { op: o, w: scalar_w(&t), a, b, d });
            }
            "fneg" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                let d = dst(self, &t);
                self.code.push(I::FBin { op: FOp::Neg, w: scalar_w(&t), a, b: a, d });
            }
            "icmp" => {
                let mut w = p.word();
                if w == "samesign" {
                    w = p.word();
                }
                let pr = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("icmp {}", w),
                };
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                p.expect(b',');
                let b = self.opnd(p, &t);
                let d = dst(self, &i1);
                self.code.push(I::ICmp { p: pr, w: scalar_w(&t), a, b, d });
            }
            "fcmp" => {
                let mut w = p.word();
                let pr = loop {
                    break match w {
                        "oeq" => 2,
                        "ogt" => 4,
                        "oge" => 6,
                        "olt" => 1,
                        "ole" => 3,
                        "one" => 5,
                        "ord" => 7,
                        "ueq" => 10,
                        "ugt" => 12,
                        "uge" => 14,
                        "ult" => 9,
                        "ule" => 11,
                        "une" => 13,
                        "uno" => 8,
                        "true" => 15,
                        "false" => 0,
                        _ => {
                            w = p.word();
                            continue;
                        }
                    };
                };
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                p.expect(b',');
                let b = self.opnd(p, &t);
                let d = dst(self, &i1);
                self.code.push(I::FCmp { p: pr, w: scalar_w(&t), a, b, d });
            }
            "load" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                p.expect(b',');
                let pt = m.ty(p);
                let a = self.opnd(p, &pt);
                let d = dst(self, &t);
                let mut fl = vec![];
                flat(&t, 0, &mut fl);
                for (k, (off, w)) in fl.iter().enumerate() {
                    self.code.push(I::Load { w: *w, p: a, off: *off as u32, d: d + k as u32 });
                }
            }
            "store" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                let v = self.opnd(p, &t);
                p.expect(b',');
                let pt = m.ty(p);
                let a = self.opnd(p, &pt);
                let mut fl = vec![];
                flat(&t, 0, &mut fl);
                for (k, (off, w)) in fl.iter().enumerate() {
                    self.code.push(I::Store { w: *w, p: a, off: *off as u32, v: v + k as u32 });
                }
            }
            "getelementptr" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                p.expect(b',');
                let bt = m.ty(p);
                let base = self.opnd(p, &bt);
                let mut cur = t;
                let mut first = true;
                let mut off: i64 = 0;
                let mut idx: Vec<(O, u16, i64)> = vec![];
                while p.eat(b',') {
                    let it = m.ty(p);
                    let o = self.opnd(p, &it);
                    let iw = scalar_w(&it);
                    let kc = if o & KBIT != 0 { self.consts[(o & !KBIT) as usize].conc() } else { None };
                    let (stride, next) = if first {
                        (size_of(&cur) as i64, cur.clone())
                    } else {
                        match &*cur {
                            Ty::Struct(f, pk) => {
                                let k = kc.unwrap() as usize;
                                off += field_off(f, *pk, k) as i64;
                                let nx = f[k].clone();
                                cur = nx;
                                continue;
                            }
                            Ty::Arr(_, e) => (size_of(e) as i64, e.clone()),
                            _ => panic!("gep"),
                        }
                    };
                    first = false;
                    match kc {
                        Some(c) => off = off.wrapping_add((crate::term::sext128(c, iw) as i64).wrapping_mul(stride)),
                        None => idx.push((o, iw, stride)),
                    }
                    cur = next;
                }
                let d = dst(self, &Ty::Ptr);
                self.code.push(I::Gep { base, off, idx: idx.into_boxed_slice(), d });
            }
            "phi" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                let d = dst(self, &t);
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let o = self.opnd(p, &t);
                    p.expect(b',');
                    p.expect(b'%');
                    let l = p.name();
                    p.expect(b']');
                    inc.push((l, o));
                    if !p.eat(b',') {
                        break;
                    }
                    if p.peek() != b'[' {
                        break;
                    }
                }
                phis.entry(cur.to_string()).or_default().push(PhiInst { d, n: nflat(&t), inc });
            }
            "select" => {
                self.skip_to_type(p);
                let ct = m.ty(p);
                let c = self.opnd(p, &ct);
                p.expect(b',');
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                p.expect(b',');
                let _ = m.ty(p);
                let b = self.opnd(p, &t);
                let d = dst(self, &t);
                let mut fl = vec![];
                flat(&t, 0, &mut fl);
                for (k, (_, w)) in fl.iter().enumerate() {
                    let k = k as u32;
                    self.code.push(I::Select { c, a: a + k, b: b + k, d: d + k, w: *w, ptr: *t == Ty::Ptr });
                }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "freeze" | "fptosi" | "fptoui" | "sitofp" | "uitofp"
            | "fpext" | "fptrunc" | "ptrtoaddr" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                let t2 = if op == "freeze" {
                    t.clone()
                } else {
                    assert!(p.eat_word("to"));
                    m.ty(p)
                };
                let d = dst(self, &t2);
                let (f, to) = (scalar_w(&t), scalar_w(&t2));
                let k = match op {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    "fptosi" => CastK::FpToSi,
                    "fptoui" => CastK::FpToUi,
                    "sitofp" => CastK::SiToFp,
                    "uitofp" => CastK::UiToFp,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if f < to {
                            CastK::ZExt
                        } else if f > to {
                            CastK::Trunc
                        } else {
                            CastK::Copy
                        }
                    }
                    _ => CastK::Copy,
                };
                if k == CastK::Copy {
                    for i in 0..nflat(&t2) as u32 {
                        self.code.push(I::Copy { a: a + i, d: d + i });
                    }
                } else {
                    self.code.push(I::Cast { k, from: f, to, a, d });
                }
            }
            "extractvalue" => {
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                let (o, et) = self.agg_index(p, &t);
                let d = dst(self, &et);
                for i in 0..nflat(&et) as u32 {
                    self.code.push(I::Copy { a: a + o + i, d: d + i });
                }
            }
            "insertvalue" => {
                let t = m.ty(p);
                let a = self.opnd(p, &t);
                p.expect(b',');
                let vt = m.ty(p);
                let v = self.opnd(p, &vt);
                let (o, et) = self.agg_index(p, &t);
                let d = dst(self, &t);
                let ne = nflat(&et) as u32;
                for i in 0..nflat(&t) as u32 {
                    if i >= o && i < o + ne {
                        self.code.push(I::Copy { a: v + (i - o), d: d + i });
                    } else {
                        self.code.push(I::Copy { a: a + i, d: d + i });
                    }
                }
            }
            "alloca" => {
                self.skip_to_type(p);
                let t = m.ty(p);
                let mut n: Option<(O, u16)> = None;
                while p.eat(b',') {
                    if p.peek_word() == "align" {
                        break;
                    }
                    let it = m.ty(p);
                    let o = self.opnd(p, &it);
                    n = Some((o, scalar_w(&it)));
                }
                let d = dst(self, &Ty::Ptr);
                let sz = size_of(&t).max(1);
                // static?
                let cnt = match n {
                    None => Some(1u64),
                    Some((o, _)) if o & KBIT != 0 => Some(self.consts[(o & !KBIT) as usize].conc().unwrap() as u64),
                    _ => None,
                };
                match cnt {
                    Some(c) if self.blocks.len() <= 1 || self.code.iter().all(|i| !matches!(i, I::Br(_) | I::CondBr { .. } | I::Switch { .. })) => {
                        let off = (self.frame + 15) / 16 * 16;
                        self.frame = off + sz * c;
                        self.code.push(I::AllocaStatic { off: off as u32, d });
                    }
                    Some(c) => {
                        let o = self.k(vec![V::I(c)]);
                        self.code.push(I::Alloca { esz: sz, n: o, nw: 64, d });
                    }
                    None => {
                        let (o, w) = n.unwrap();
                        self.code.push(I::Alloca { esz: sz, n: o, nw: w, d });
                    }
                }
            }
            "br" => {
                if p.peek_word() == "label" {
                    let l = self.label(p);
                    let ci = self.code.len();
                    self.code.push(I::Br(Box::new(Edge { pc: 0, moves: Box::new([]) })));
                    edges.push((ci, 0, cur.to_string(), l));
                } else {
                    let t = m.ty(p);
                    let c = self.opnd(p, &t);
                    p.expect(b',');
                    let l1 = self.label(p);
                    p.expect(b',');
                    let l2 = self.label(p);
                    let ci = self.code.len();
                    let e = || Box::new(Edge { pc: 0, moves: Box::new([]) });
                    self.code.push(I::CondBr { c, t: e(), f: e() });
                    edges.push((ci, 0, cur.to_string(), l1));
                    edges.push((ci, 1, cur.to_string(), l2));
                }
            }
            "switch" => {
                let t = m.ty(p);
                let v = self.opnd(p, &t);
                p.expect(b',');
                let def = self.label(p);
                p.expect(b'[');
                let mut cases = vec![];
                let mut tn: Vec<String> = vec![def];
                while !p.eat(b']') {
                    let ct = m.ty(p);
                    let mut kv = vec![];
                    m.konst(p, &ct, &mut kv);
                    p.expect(b',');
                    let l = self.label(p);
                    let ti = match tn.iter().position(|x| *x == l) {
                        Some(i) => i,
                        None => {
                            tn.push(l);
                            tn.len() - 1
                        }
                    };
                    cases.push((kv[0].conc().unwrap() as u64, ti as u32));
                }
                cases.sort();
                let ci = self.code.len();
                let targets: Vec<Edge> = tn.iter().map(|_| Edge { pc: 0, moves: Box::new([]) }).collect();
                self.code.push(I::Switch { v, w: scalar_w(&t), cases: cases.into_boxed_slice(), targets: targets.into_boxed_slice() });
                for (i, l) in tn.into_iter().enumerate() {
                    edges.push((ci, i, cur.to_string(), l));
                }
            }
            "ret" => {
                let t = m.ty(p);
                if *t == Ty::Void {
                    self.code.push(I::Ret { v: 0, n: 0 });
                } else {
                    let v = self.opnd(p, &t);
                    self.code.push(I::Ret { v, n: nflat(&t) as u16 });
                }
            }
            "unreachable" => self.code.push(I::Unreachable),
            "fence" => {}
            "atomicrmw" => {
                let mut w = p.word();
                if w == "volatile" {
                    w = p.word();
                }
                let o = match w {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "nand" => RmwOp::Nand,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    _ => panic!("rmw {}", w),
                };
                let pt = m.ty(p);
                let a = self.opnd(p, &pt);
                p.expect(b',');
                let t = m.ty(p);
                let v = self.opnd(p, &t);
                let d = match &dn {
                    Some(n) => self.reg(n, &t),
                    None => {
                        let n = format!("\0d{}", self.code.len());
                        self.reg(&n, &t)
                    }
                };
                self.code.push(I::Rmw { op: o, w: scalar_w(&t), p: a, v, d });
            }
            "cmpxchg" => {
                self.skip_to_type(p);
                let pt = m.ty(p);
                let a = self.opnd(p, &pt);
                p.expect(b',');
                let t = m.ty(p);
                let c = self.opnd(p, &t);
                p.expect(b',');
                let _ = m.ty(p);
                let n = self.opnd(p, &t);
                let rt = Ty::Struct(Rc::new(vec![t.clone(), Rc::new(Ty::Int(1))]), false);
                let d = match &dn {
                    Some(x) => self.reg(x, &rt),
                    None => {
                        let n = format!("\0d{}", self.code.len());
                        self.reg(&n, &rt)
                    }
                };
                self.code.push(I::CmpXchg { w: scalar_w(&t), p: a, c, n, d });
            }
            "call" => {
                self.skip_to_type(p);
                let rt = m.ty(p);
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                // callee
                let callee;
                if p.peek() == b'@' {
                    p.i += 1;
                    let n = p.name();
                    if n.starts_with("llvm.") {
                        callee = Callee::Intr(intrinsic(&n));
                    } else {
                        let mut nm = n.clone();
                        while let Some(t) = m.aliases.get(&nm) {
                            nm = t.clone();
                        }
                        callee = Callee::Direct(*m.fmap.get(&nm).unwrap_or_else(|| panic!("fn {}", nm)));
                    }
                } else if p.peek_word() == "asm" {
                    p.word();
                    while p.peek() != b'"' {
                        p.word();
                    }
                    p.i += 1;
                    let st = p.i;
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    let s = unescape(&p.s[st..p.i]);
                    p.i += 1;
                    p.expect(b',');
                    p.expect(b'"');
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    p.i += 1;
                    callee = Callee::Asm(Rc::from(s.as_str()));
                } else {
                    let o = self.opnd(p, &Ty::Ptr);
                    callee = Callee::Indirect(o);
                }
                p.expect(b'(');
                let mut args = vec![];
                let nop = matches!(callee, Callee::Intr(Intr::Nop | Intr::Assume));
                if nop {
                    return;
                }
                if !p.eat(b')') {
                    loop {
                        let t = m.ty(p);
                        if *t == Ty::Other {
                            // metadata operand
                            while p.peek() != b',' && p.peek() != b')' {
                                if p.peek() == b'(' {
                                    p.skip_parens()
                                } else {
                                    p.i += 1
                                }
                            }
                        } else {
                            let bv = self.skip_attrs(p);
                            let o = self.opnd(p, &t);
                            args.push(Arg { o, n: nflat(&t) as u8, w: scalar_w(&t), byval: bv });
                        }
                        if p.eat(b',') {
                            continue;
                        }
                        p.expect(b')');
                        break;
                    }
                }
                let nret = nflat(&rt) as u16;
                let d = if nret > 0 {
                    match &dn {
                        Some(n) => self.reg(n, &rt),
                        None => {
                            let n = format!("\0d{}", self.code.len());
                            self.reg(&n, &rt)
                        }
                    }
                } else {
                    0
                };
                let mut fl = vec![];
                flat(&rt, 0, &mut fl);
                let retw = fl.first().map_or(0, |x| x.1);
                self.code.push(I::Call { f: callee, args: args.into_boxed_slice(), d, nret, retw });
            }
            _ => panic!("instruction {:?} at {}", op, p.ctx()),
        }
    }
    fn agg_index(&mut self, p: &mut P, t: &TyRef) -> (u32, TyRef) {
        let mut cur = t.clone();
        let mut o = 0u32;
        while p.eat(b',') {
            if p.peek() == b'!' {
                break;
            }
            let k: usize = p.word().parse().unwrap();
            let nx = match &*cur {
                Ty::Struct(f, _) => {
                    for x in &f[..k] {
                        o += nflat(x) as u32;
                    }
                    f[k].clone()
                }
                Ty::Arr(_, e) => {
                    o += (k * nflat(e)) as u32;
                    e.clone()
                }
                _ => panic!("agg"),
            };
            cur = nx;
        }
        (o, cur)
    }
}

fn intrinsic(n: &str) -> Intr {
    let s = &n[5..];
    let pre = |x: &str| s.starts_with(x);
    if pre("lifetime") || pre("experimental.noalias") || pre("dbg") || pre("invariant") || pre("va_end") || pre("sideeffect") || pre("donothing") || pre("stackrestore") || pre("prefetch") || pre("fake.use") {
        return Intr::Nop;
    }
    for (k, v) in [
        ("memcpy", Intr::Memcpy),
        ("memmove", Intr::Memmove),
        ("memset", Intr::Memset),
        ("assume", Intr::Assume),
        ("umin.", Intr::UMin),
        ("umax.", Intr::UMax),
        ("smin.", Intr::SMin),
        ("smax.", Intr::SMax),
        ("fshl.", Intr::Fshl),
        ("fshr.", Intr::Fshr),
        ("uadd.with", Intr::UAddO),
        ("usub.with", Intr::USubO),
        ("umul.with", Intr::UMulO),
        ("sadd.with", Intr::SAddO),
        ("ssub.with", Intr::SSubO),
        ("smul.with", Intr::SMulO),
        ("ucmp", Intr::UCmp),
        ("scmp", Intr::SCmp),
        ("ctlz", Intr::Ctlz),
        ("cttz", Intr::Cttz),
        ("ctpop", Intr::Ctpop),
        ("bswap", Intr::Bswap),
        ("bitreverse", Intr::Bitreverse),
        ("abs.", Intr::Abs),
        ("uadd.sat", Intr::UAddSat),
        ("usub.sat", Intr::USubSat),
        ("sadd.sat", Intr::SAddSat),
        ("ssub.sat", Intr::SSubSat),
        ("threadlocal.address", Intr::ThreadLocal),
        ("load.relative", Intr::LoadRelative),
        ("va_start", Intr::VaStart),
        ("trap", Intr::Trap),
        ("ubsantrap", Intr::Trap),
        ("x86.addcarry", Intr::AddCarry),
        ("x86.subborrow", Intr::SubBorrow),
        ("fmuladd", Intr::Fmuladd),
        ("fma.", Intr::Fmuladd),
        ("ceil", Intr::Ceil),
        ("floor", Intr::Floor),
        ("trunc.", Intr::FTrunc),
        ("sqrt", Intr::Sqrt),
        ("log2", Intr::Log2),
        ("pow.", Intr::Pow),
        ("fabs", Intr::Fabs),
        ("fptoui.sat", Intr::FpToUiSat),
        ("fptosi.sat", Intr::FpToSiSat),
        ("expect", Intr::Expect),
        ("is.constant", Intr::IsConstant),
        ("objectsize", Intr::ObjectSize),
        ("stacksave", Intr::StackSave),
        ("frameaddress", Intr::FrameAddress),
        ("ptrmask", Intr::PtrMask),
        ("copysign", Intr::Copysign),
        ("round", Intr::Round),
    ] {
        if pre(k) {
            return v;
        }
    }
    Intr::Unknown
}

/// crude v0/legacy demangling: the path components only
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backreference: base-62 up to '_'
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if l == 0 || k + l > b.len() {
                i = j;
                continue;
            }
            out.push(n[k..k + l].to_string());
            i = k + l;
        } else {
            i += 1;
        }
    }
    if n.starts_with("_ZN") {
        out.pop();
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}
