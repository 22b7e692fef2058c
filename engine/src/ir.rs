//! Lazy reader for textual LLVM IR (the post-LTO module rustc emits for a harness crate).
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

use crate::expr::BuildFx;

pub const FN_BASE: u32 = 0x1000_0000;
pub const STACK_BASE: u32 = 0x2000_0000;
pub const HEAP_BASE: u32 = 0x4000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8),
            Ty::Struct(..) => {
                let (off, _) = self.layout();
                off
            }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn size(&self) -> u64 {
        self.store_size().next_multiple_of(self.align())
    }
    /// total size and field offsets
    pub fn layout(&self) -> (u64, Vec<u64>) {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut v = vec![];
                for t in f {
                    if !packed {
                        off = u64::next_multiple_of(off, t.align());
                    }
                    v.push(off);
                    off += t.size();
                }
                (u64::next_multiple_of(off, self.align()), v)
            }
            _ => panic!(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    E(u32),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    UMax,
    UMin,
    Max,
    Min,
}
#[derive(Clone, Debug)]
pub enum Callee {
    /// index into Module::funcs
    Fn(u32),
    Reg(Opd),
    Asm(String),
}

#[derive(Debug)]
pub enum Inst {
    Bin { d: u32, op: Bop, w: u16, a: Opd, b: Opd },
    Cmp { d: u32, p: Pred, w: u16, a: Opd, b: Opd },
    Trunc { d: u32, fw: u16, w: u16, a: Opd },
    ZExt { d: u32, fw: u16, w: u16, a: Opd },
    SExt { d: u32, fw: u16, w: u16, a: Opd },
    Mov { d: u32, a: Opd },
    BitCast { d: u32, from: Ty, to: Ty, a: Opd },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, p: Opd, off: u64, idx: Vec<(Opd, u16, u64)> },
    Alloca { d: u32, off: u64 },
    Select { d: u32, c: Opd, a: Opd, b: Opd, ty: Ty, vec: bool },
    Extract { d: u32, a: Opd, path: Vec<u32> },
    Insert { d: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtElem { d: u32, a: Opd, i: Opd },
    InsElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, n: u64, w: u16, m: Vec<i64> },
    Call { d: u32, rw: Ty, f: Callee, args: Vec<(Opd, Ty)>, then: Option<u32>, pad: Option<u32> },
    Landing { d: u32 },
    Resume { v: Opd },
    CmpXchg { d: u32, w: u16, p: Opd, old: Opd, new: Opd },
    AtomicRmw { d: u32, op: Rmw, w: u16, p: Opd, v: Opd },
    /// floating point, on concrete values only
    Float { d: u32, op: String, fw: u16, w: u16, a: Opd, b: Option<Opd> },
    Nop,
    Br { e: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u16, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opd> },
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Vec<(u32, Opd)>,
}
#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub hit: Cell<bool>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nargs: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub edges: Vec<Edge>,
    pub frame: u64,
    pub sub: u32,
}

pub struct FnEntry {
    pub name: String,
    pub body: Option<(usize, usize)>,
    pub parsed: Option<Rc<Func>>,
    pub intr: Cell<u32>,
}
pub struct GlobalEntry {
    pub name: String,
    pub text: (usize, usize),
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub text: &'static [u8],
    pub fnmap: HashMap<&'static [u8], u32, BuildFx>,
    pub funcs: Vec<FnEntry>,
    pub gmap: HashMap<&'static [u8], u32, BuildFx>,
    pub globals: Vec<GlobalEntry>,
    pub types: HashMap<&'static [u8], (usize, usize), BuildFx>,
    pub md: Vec<u32>,
}

fn line_end(t: &[u8], i: usize) -> usize {
    match t[i..].iter().position(|c| *c == b'\n') {
        Some(k) => i + k,
        None => t.len(),
    }
}

fn parse_name(t: &'static [u8], i: usize) -> (&'static [u8], usize) {
    // after the sigil
    if t[i] == b'"' {
        let mut j = i + 1;
        while t[j] != b'"' {
            j += 1;
        }
        (&t[i + 1..j], j + 1)
    } else {
        let mut j = i;
        while j < t.len() && matches!(t[j], b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'$' | b'-') {
            j += 1;
        }
        (&t[i..j], j)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static [u8] = Box::leak(std::fs::read(path).expect("read IR").into_boxed_slice());
        let mut m = Module {
            text,
            fnmap: Default::default(),
            funcs: vec![],
            gmap: Default::default(),
            globals: vec![],
            types: Default::default(),
            md: vec![],
        };
        let mut i = 0;
        while i < text.len() {
            let e = line_end(text, i);
            let l = &text[i..e];
            if l.is_empty() {
                i = e + 1;
                continue;
            }
            match l[0] {
                b'@' => {
                    let (n, j) = parse_name(text, i + 1);
                    let mut k = j + 3; // " = "
                    // skip linkage words up to "global" or "constant"
                    let mut constant = false;
                    let mut external = false;
                    loop {
                        let s = k;
                        while text[k] != b' ' {
                            k += 1;
                        }
                        let w = &text[s..k];
                        k += 1;
                        match w {
                            b"global" => break,
                            b"constant" => {
                                constant = true;
                                break;
                            }
                            b"external" | b"extern_weak" => external = true,
                            _ => {}
                        }
                        if k >= e {
                            break;
                        }
                    }
                    let id = m.globals.len() as u32 + 1;
                    m.gmap.insert(n, id);
                    m.globals.push(GlobalEntry {
                        name: String::from_utf8_lossy(n).into(),
                        text: (k, e),
                        constant,
                        external,
                    });
                }
                b'%' => {
                    let (n, j) = parse_name(text, i + 1);
                    m.types.insert(n, (j + 8, e)); // " = type "
                }
                b'd' if l.starts_with(b"define ") || l.starts_with(b"declare ") => {
                    let at = i + l.iter().position(|c| *c == b'@').unwrap();
                    let (n, _) = parse_name(text, at + 1);
                    let id = m.funcs.len() as u32;
                    m.fnmap.insert(n, id);
                    let mut body = None;
                    if l.starts_with(b"define ") {
                        let s = i;
                        let mut p = e + 1;
                        loop {
                            let q = line_end(text, p);
                            if text[p] == b'}' {
                                i = q;
                                break;
                            }
                            p = q + 1;
                        }
                        body = Some((s, i));
                    }
                    m.funcs.push(FnEntry {
                        name: String::from_utf8_lossy(n).into(),
                        body,
                        parsed: None,
                        intr: Cell::new(0),
                    });
                    i = line_end(text, i) + 1;
                    continue;
                }
                b'!' => {
                    let mut k = 1;
                    let mut v = 0usize;
                    let mut any = false;
                    while k < l.len() && l[k].is_ascii_digit() {
                        v = v * 10 + (l[k] - b'0') as usize;
                        k += 1;
                        any = true;
                    }
                    if any {
                        if m.md.len() <= v {
                            m.md.resize(v + 1, 0);
                        }
                        m.md[v] = i as u32;
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        m
    }

    pub fn md_line(&self, id: u32) -> &'static str {
        let o = match self.md.get(id as usize) {
            Some(&o) if o != 0 => o as usize,
            _ => return "",
        };
        let e = line_end(self.text, o);
        unsafe { std::str::from_utf8_unchecked(&self.text[o..e]) }
    }
    fn md_field(&self, line: &'static str, key: &str) -> Option<&'static str> {
        let k = format!("{key}: ");
        let p = line.find(&format!("({k}")).map(|x| x + 1).or_else(|| line.find(&format!(", {k}")).map(|x| x + 2))?;
        let s = &line[p + k.len()..];
        if let Some(q) = s.strip_prefix('"') {
            return Some(&q[..q.find('"')?]);
        }
        let e = s.find([',', ')']).unwrap_or(s.len());
        Some(&s[..e])
    }
    fn md_ref(&self, line: &'static str, key: &str) -> Option<u32> {
        self.md_field(line, key)?.strip_prefix('!')?.parse().ok()
    }
    fn file_of(&self, scope: u32) -> Option<String> {
        let l = self.md_line(scope);
        let f = self.md_line(self.md_ref(l, "file")?);
        let n = self.md_field(f, "filename")?;
        if n.starts_with('/') {
            Some(n.to_string())
        } else {
            Some(format!("{}/{}", self.md_field(f, "directory").unwrap_or(""), n))
        }
    }
    /// (file, line) of a DILocation
    pub fn loc(&self, dbg: u32) -> Option<(String, u32)> {
        let l = self.md_line(dbg);
        let line: u32 = self.md_field(l, "line")?.parse().ok()?;
        let scope = self.md_ref(l, "scope")?;
        Some((self.file_of(scope)?, line))
    }
    /// name, file and line of a DISubprogram
    pub fn sub(&self, id: u32) -> Option<(String, String, u32)> {
        let l = self.md_line(id);
        let name = self.md_field(l, "name")?;
        let line = self.md_field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let f = self.file_of(id)?;
        let mut scopes = String::new();
        let mut s = self.md_ref(l, "scope");
        let mut n = 0;
        while let Some(x) = s {
            let sl = self.md_line(x);
            if !sl.contains("DINamespace") && !sl.contains("DICompositeType") || n > 8 {
                break;
            }
            if let Some(nm) = self.md_field(sl, "name") {
                scopes = format!("{nm}::{scopes}");
            }
            s = self.md_ref(sl, "scope");
            n += 1;
        }
        Some((format!("{scopes}{name}"), f, line))
    }
    /// enclosing DISubprogram of a DILocation
    pub fn loc_sub(&self, dbg: u32) -> Option<u32> {
        let l = self.md_line(dbg);
        let mut s = self.md_ref(l, "scope")?;
        for _ in 0..32 {
            let sl = self.md_line(s);
            if sl.contains("DISubprogram") {
                return Some(s);
            }
            s = self.md_ref(sl, "scope")?;
        }
        None
    }
    pub fn inlined_at(&self, dbg: u32) -> Option<u32> {
        self.md_ref(self.md_line(dbg), "inlinedAt")
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return f.clone();
        }
        let (s, e) = self.funcs[id as usize].body.expect("no body");
        let f = Rc::new(parse_func(self, id, s, e));
        self.funcs[id as usize].parsed = Some(f.clone());
        f
    }
    pub fn fn_addr(id: u32) -> u64 {
        ((FN_BASE + id) as u64) << 32
    }

    /// initial bytes of a global
    pub fn global_init(&self, id: u32) -> Vec<u8> {
        let g = &self.globals[id as usize - 1];
        let mut p = Parser::new(self, g.text.0, g.text.1);
        let ty = p.ty();
        let mut out = vec![0u8; ty.size() as usize];
        if g.external {
            return vec![0; 16];
        }
        p.init(&ty, &mut out, 0);
        out
    }
}

pub struct Parser<'a> {
    m: &'a Module,
    t: &'static [u8],
    i: usize,
    e: usize,
}

impl<'a> Parser<'a> {
    fn new(m: &'a Module, i: usize, e: usize) -> Self {
        Parser { m, t: m.text, i, e }
    }
    fn over(m: &'a Module, t: &'static [u8]) -> Self {
        Parser { m, t, i: 0, e: t.len() }
    }
    fn ws(&mut self) {
        while self.i < self.e && matches!(self.t[self.i], b' ' | b'\t' | b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.e {
            self.t[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        self.ws();
        if self.t[self.i..self.e].starts_with(s.as_bytes()) {
            self.i += s.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, s: &str) {
        if !self.eat(s) {
            let e = (self.i + 120).min(self.e);
            panic!("expected {s:?} at {:?}", String::from_utf8_lossy(&self.t[self.i..e]));
        }
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let mut j = self.i;
        while j < self.e && matches!(self.t[j], b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.') {
            j += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.t[self.i..j]) }
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let neg = self.eat("-");
        let mut v: i128 = 0;
        while self.i < self.e && self.t[self.i].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.t[self.i] - b'0') as i128);
            self.i += 1;
        }
        if neg {
            v.wrapping_neg()
        } else {
            v
        }
    }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            match self.t[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.t[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_type(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => matches!(self.peek_word(), "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128"),
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let f = self.tylist("}");
                Ty::Struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.eat("{") {
                    let f = self.tylist("}");
                    self.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n = self.num() as u64;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                let (n, j) = parse_name(self.t, self.i + 1);
                self.i = j;
                let (s, e) = self.m.types[n];
                Parser::new(self.m, s, e).ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    // their bits
                    "float" => Ty::Int(32),
                    "double" => Ty::Int(64),
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        _ => Ty::Other,
                    },
                    _ => Ty::Other,
                }
            }
        }
    }
    fn tylist(&mut self, end: &str) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(",");
        }
    }
    /// parameter or return attributes
    fn attrs(&mut self) {
        loop {
            if self.is_type() {
                return;
            }
            match self.peek() {
                b'a'..=b'z' => {}
                b'"' => {
                    // "key"="value"
                    self.i += 1;
                    while self.t[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.eat("=") {
                        self.expect("\"");
                        while self.t[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                    continue;
                }
                _ => return,
            }
            let w = self.peek_word();
            if matches!(w, "undef" | "poison" | "null" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "asm" | "c" | "sub" | "add" | "trunc" | "splat" | "bitcast" | "none") {
                return;
            }
            self.word();
            if w == "align" && self.peek() != b'(' {
                self.num();
            } else if self.i < self.e && self.t[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            Ty::Int(_) | Ty::Ptr => Val::I(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = Self::zero(t);
                Val::A(Rc::new((0..*n).map(|_| z.clone()).collect()))
            }
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::I(0),
        }
    }
    /// the bits of a floating-point constant
    fn float(&mut self, ty: &Ty) -> Val {
        let at = self.i;
        while self.i < self.e && !matches!(self.t[self.i], b',' | b')' | b' ' | b']' | b'}' | b'>' | b'\n') {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.t[at..self.i]).unwrap_or("");
        let single = matches!(ty, Ty::Int(32));
        if let Some(h) = t.strip_prefix("f0x") {
            return Val::I(u64::from_str_radix(h, 16).unwrap_or(0));
        }
        let v = if let Some(h) = t.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
        } else if t.contains("nan") {
            f64::NAN
        } else {
            t.trim_start_matches('+').parse().unwrap_or(0.0)
        };
        Val::I(if single { (v as f32).to_bits() as u64 } else { v.to_bits() })
    }
    fn int(w: u16, v: i128) -> Val {
        let x = v as u128 & crate::expr::mask(w);
        if w > 64 {
            Val::W(Rc::new(x))
        } else {
            Val::I(x as u64)
        }
    }
    /// a constant of type `ty`
    pub fn konst(&mut self, ty: &Ty) -> Val {
        match self.peek() {
            b'+' => self.float(ty),
            b'f' if self.t.get(self.i + 1) == Some(&b'0') => self.float(ty),
            b'-' if self.t.get(self.i + 1) == Some(&b'i') || self.t.get(self.i + 1) == Some(&b'n') => self.float(ty),
            b'-' | b'0'..=b'9' => {
                let at = self.i;
                let v = self.num();
                if self.i < self.e && (self.t[self.i] == b'.' || self.t[self.i] == b'x') {
                    self.i = at;
                    return self.float(ty);
                }
                match ty {
                    Ty::Int(w) => Self::int(*w, v),
                    _ => Val::I(v as u64),
                }
            }
            b'@' => {
                let (n, j) = parse_name(self.t, self.i + 1);
                self.i = j;
                Val::I(self.m.sym_addr(n))
            }
            b'[' | b'{' | b'<' => {
                let c = self.t[self.i];
                self.i += 1;
                let mut packed = false;
                if c == b'<' && self.eat("{") {
                    packed = true;
                }
                let end = match (c, packed) {
                    (b'[', _) => "]",
                    (b'{', _) => "}",
                    (_, true) => "}",
                    _ => ">",
                };
                let mut v = vec![];
                if !self.eat(end) {
                    loop {
                        let t = self.ty();
                        v.push(self.konst(&t));
                        if self.eat(end) {
                            break;
                        }
                        self.expect(",");
                    }
                }
                if packed {
                    self.expect(">");
                }
                Val::A(Rc::new(v))
            }
            b'c' if self.t.get(self.i + 1) == Some(&b'"') => {
                let b = self.cstr();
                Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u64)).collect()))
            }
            b'!' => {
                // metadata operand
                self.i += 1;
                while self.i < self.e && !matches!(self.t[self.i], b',' | b')') {
                    self.i += 1;
                }
                Val::I(0)
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Val::I(1),
                    "false" | "null" | "none" => Val::I(0),
                    "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
                    "splat" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.konst(&t);
                        self.expect(")");
                        let n = match ty {
                            Ty::Vec(n, _) => *n,
                            _ => 1,
                        };
                        Val::A(Rc::new((0..n).map(|_| v.clone()).collect()))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.konst(&t);
                        self.expect("to");
                        let t2 = self.ty();
                        self.expect(")");
                        match (v, &t2) {
                            (Val::I(x), Ty::Int(w)) if *w < 64 => Val::I(x & crate::expr::mask(*w) as u64),
                            (v, _) => v,
                        }
                    }
                    "getelementptr" => {
                        while !self.eat("(") {
                            let w = self.word();
                            if w.is_empty() {
                                panic!("gep const");
                            }
                            if w == "inrange" {
                                self.skip_parens();
                            }
                        }
                        let t = self.ty();
                        self.expect(",");
                        self.ty();
                        let base = self.konst(&Ty::Ptr);
                        let mut off = match base {
                            Val::I(x) => x,
                            _ => panic!(),
                        };
                        let mut cur = t;
                        let mut first = true;
                        while self.eat(",") {
                            let it = self.ty();
                            let ix = match self.konst(&it) {
                                Val::I(x) => crate::expr::sx(x as u128, it.bits()) as i64,
                                _ => panic!(),
                            };
                            if first {
                                off = off.wrapping_add((cur.size() as i64).wrapping_mul(ix) as u64);
                                first = false;
                            } else {
                                let (o, t) = step(&cur, ix);
                                off = off.wrapping_add(o as u64);
                                cur = t;
                            }
                        }
                        self.expect(")");
                        Val::I(off)
                    }
                    "add" | "sub" | "xor" => {
                        while !self.eat("(") {
                            self.word();
                        }
                        let t = self.ty();
                        let a = self.konst(&t);
                        self.expect(",");
                        let t = self.ty();
                        let b = self.konst(&t);
                        self.expect(")");
                        match (a, b) {
                            (Val::I(a), Val::I(b)) => Val::I(
                                (match w {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    _ => a ^ b,
                                }) & crate::expr::mask(t.bits()) as u64,
                            ),
                            _ => panic!(),
                        }
                    }
                    _ => {
                        let e = (self.i + 80).min(self.e);
                        panic!("constant {w:?} {:?}", String::from_utf8_lossy(&self.t[self.i..e]))
                    }
                }
            }
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.expect("c\"");
        let mut v = vec![];
        loop {
            let c = self.t[self.i];
            self.i += 1;
            match c {
                b'"' => return v,
                b'\\' if self.t[self.i] == b'\\' => {
                    v.push(c);
                    self.i += 1;
                }
                b'\\' => {
                    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                    v.push(h(self.t[self.i]) << 4 | h(self.t[self.i + 1]));
                    self.i += 2;
                }
                _ => v.push(c),
            }
        }
    }
    fn init(&mut self, ty: &Ty, out: &mut [u8], off: usize) {
        match self.peek() {
            b'c' if self.t[self.i + 1] == b'"' => {
                let b = self.cstr();
                out[off..off + b.len()].copy_from_slice(&b);
            }
            b'[' | b'{' | b'<' => {
                let c = self.t[self.i];
                self.i += 1;
                let packed = c == b'<' && self.eat("{");
                let end = match (c, packed) {
                    (b'[', _) => "]",
                    (b'{', _) | (_, true) => "}",
                    _ => ">",
                };
                let offs: Option<Vec<u64>> = match ty {
                    Ty::Struct(..) => Some(ty.layout().1),
                    _ => None,
                };
                let mut k = 0;
                if !self.eat(end) {
                    loop {
                        let t = self.ty();
                        let o = match &offs {
                            Some(v) => v[k] as usize,
                            None => k * t.size() as usize,
                        };
                        self.init(&t, out, off + o);
                        k += 1;
                        if self.eat(end) {
                            break;
                        }
                        self.expect(",");
                    }
                }
                if packed {
                    self.expect(">");
                }
            }
            _ => match ty {
                Ty::Int(_) | Ty::Ptr => {
                    let n = ty.store_size() as usize;
                    let b = match self.konst(ty) {
                        Val::I(x) => (x as u128).to_le_bytes(),
                        Val::W(x) => x.to_le_bytes(),
                        v => panic!("{v:?}"),
                    };
                    out[off..off + n].copy_from_slice(&b[..n]);
                }
                _ => {
                    // zeroinitializer, undef
                    self.word();
                }
            },
        }
    }
}

fn step(cur: &Ty, ix: i64) -> (i64, Ty) {
    match cur {
        Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() as i64 * ix, (**t).clone()),
        Ty::Struct(f, _) => (cur.layout().1[ix as usize] as i64, f[ix as usize].clone()),
        _ => panic!("gep into {cur:?}"),
    }
}

impl Module {
    pub fn sym_addr(&self, n: &[u8]) -> u64 {
        if let Some(f) = self.fnmap.get(n) {
            return Self::fn_addr(*f);
        }
        if let Some(g) = self.gmap.get(n) {
            return (*g as u64) << 32;
        }
        panic!("unknown symbol {}", String::from_utf8_lossy(n));
    }
}

struct FnParser<'a> {
    p: Parser<'a>,
    regs: HashMap<&'static [u8], u32, BuildFx>,
    labels: HashMap<&'static [u8], u32, BuildFx>,
    edges: Vec<(u32, u32)>,
    edge_ix: HashMap<(u32, u32), u32, BuildFx>,
    cur: u32,
    frame: u64,
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &'static [u8]) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if self.p.peek() == b'%' {
            let (n, j) = parse_name(self.p.t, self.p.i + 1);
            self.p.i = j;
            Opd::R(self.reg(n))
        } else {
            Opd::K(self.p.konst(ty))
        }
    }
    fn tyopd(&mut self) -> (Ty, Opd) {
        let t = self.p.ty();
        let o = self.opd(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        self.p.expect("label");
        self.p.ws();
        assert!(self.p.t[self.p.i] == b'%');
        let (n, j) = parse_name(self.p.t, self.p.i + 1);
        self.p.i = j;
        *self.labels.get(n).unwrap_or(&0)
    }
    fn edge(&mut self, to: u32) -> u32 {
        let k = self.edges.len() as u32;
        let from = self.cur;
        let e = *self.edge_ix.entry((from, to)).or_insert(k);
        if e == k {
            self.edges.push((from, to));
        }
        e
    }
}

fn scalar_width(t: &Ty) -> u16 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr => 64,
        Ty::Vec(_, t) => t.bits(),
        _ => panic!("width of {t:?}"),
    }
}

fn parse_func(m: &Module, id: u32, s: usize, e: usize) -> Func {
    let text = m.text;
    // header
    let hend = line_end(text, s);
    let header: &'static [u8] = &text[s..hend];
    let at = header.iter().position(|c| *c == b'@').unwrap();
    let (_, j) = parse_name(text, s + at + 1);
    let mut f = FnParser {
        p: Parser::new(m, j, hend),
        regs: Default::default(),
        labels: Default::default(),
        edges: vec![],
        edge_ix: Default::default(),
        cur: 0,
        frame: 0,
    };
    f.p.expect("(");
    let mut nargs = 0;
    if !f.p.eat(")") {
        loop {
            if f.p.eat("...") {
                f.p.expect(")");
                break;
            }
            f.p.ty();
            f.p.attrs();
            if f.p.peek() == b'%' {
                let (n, j) = parse_name(text, f.p.i + 1);
                f.p.i = j;
                let r = f.reg(n);
                assert_eq!(r as usize, nargs);
            } else {
                // unnamed
                let n: &'static [u8] = Box::leak(format!("{nargs}").into_bytes().into_boxed_slice());
                f.reg(n);
            }
            nargs += 1;
            if f.p.eat(")") {
                break;
            }
            f.p.expect(",");
        }
    }
    let hs = std::str::from_utf8(header).unwrap_or("");
    let sub = hs.rfind("!dbg !").map(|p| {
        hs[p + 6..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32)
    });
    // logical lines
    let mut lines: Vec<(usize, usize)> = vec![];
    let mut i = hend + 1;
    while i < e {
        let q = line_end(text, i);
        let l = &text[i..q];
        if l.is_empty() || l[0] == b';' || l[0] == b'}' {
            i = q + 1;
            continue;
        }
        // debug records ("    #dbg_value")
        if l.starts_with(b"    #dbg") {
            i = q + 1;
            continue;
        }
        if l.starts_with(b"   ") || l.starts_with(b"  ]") {
            // continuation
            if let Some(last) = lines.last_mut() {
                last.1 = q;
            }
        } else {
            lines.push((i, q));
        }
        i = q + 1;
    }
    // labels
    let mut nb = 0u32;
    let mut first = true;
    for &(a, _) in &lines {
        if text[a] != b' ' {
            let (n, _) = if text[a] == b'"' { parse_name(text, a) } else { parse_name(text, a) };
            f.labels.insert(n, nb);
            nb += 1;
        } else if first {
            nb += 1; // implicit entry
        }
        first = false;
    }
    let mut blocks: Vec<Block> = vec![];
    let mut phis: Vec<Vec<(u32, Vec<(Opd, u32)>)>> = vec![];
    for &(a, b) in &lines {
        if text[a] != b' ' || blocks.is_empty() {
            blocks.push(Block { insts: vec![], dbg: vec![], hit: Cell::new(false) });
            phis.push(vec![]);
            f.cur = blocks.len() as u32 - 1;
            if text[a] != b' ' {
                continue;
            }
        }
        f.p.i = a;
        f.p.e = b;
        let raw = unsafe { std::str::from_utf8_unchecked(&text[a..b]) };
        let dbg = raw
            .rfind("!dbg !")
            .map(|p| raw[p + 6..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32))
            .unwrap_or(0);
        let inst = parse_inst(&mut f, phis.last_mut().unwrap());
        if let Some(inst) = inst {
            let blk = blocks.last_mut().unwrap();
            blk.insts.push(inst);
            blk.dbg.push(dbg);
        }
    }
    let edges = f
        .edges
        .iter()
        .map(|&(from, to)| Edge {
            to,
            moves: phis[to as usize]
                .iter()
                .map(|(d, inc)| {
                    let o = inc.iter().find(|x| x.1 == from).unwrap_or_else(|| panic!("phi edge {from}->{to}"));
                    (*d, o.0.clone())
                })
                .collect(),
        })
        .collect();
    Func {
        id,
        name: m.funcs[id as usize].name.clone(),
        nargs,
        nregs: f.regs.len(),
        blocks,
        edges,
        frame: f.frame,
        sub: sub.unwrap_or(0),
    }
}

fn parse_inst(f: &mut FnParser, phis: &mut Vec<(u32, Vec<(Opd, u32)>)>) -> Option<Inst> {
    let mut d = u32::MAX;
    if f.p.peek() == b'%' {
        let (n, j) = parse_name(f.p.t, f.p.i + 1);
        f.p.i = j;
        d = f.reg(n);
        f.p.expect("=");
    }
    let mut op = f.p.word();
    if matches!(op, "tail" | "musttail" | "notail") {
        op = f.p.word();
    }
    let flags = |f: &mut FnParser| loop {
        match f.p.peek_word() {
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" => {
                f.p.word();
            }
            _ => break,
        }
    };
    let bop = match op {
        "add" => Some(Bop::Add),
        "sub" => Some(Bop::Sub),
        "mul" => Some(Bop::Mul),
        "udiv" => Some(Bop::UDiv),
        "sdiv" => Some(Bop::SDiv),
        "urem" => Some(Bop::URem),
        "srem" => Some(Bop::SRem),
        "and" => Some(Bop::And),
        "or" => Some(Bop::Or),
        "xor" => Some(Bop::Xor),
        "shl" => Some(Bop::Shl),
        "lshr" => Some(Bop::LShr),
        "ashr" => Some(Bop::AShr),
        _ => None,
    };
    if let Some(op) = bop {
        flags(f);
        let (t, a) = f.tyopd();
        f.p.expect(",");
        let b = f.opd(&t);
        if scalar_width(&t) > 128 {
            return Some(Inst::Unsupported("wide integer".into()));
        }
        return Some(Inst::Bin { d, op, w: scalar_width(&t), a, b });
    }
    if matches!(op, "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp") {
        flags(f);
        let op = if op == "fcmp" { format!("fcmp.{}", f.p.word()) } else { op.to_string() };
        let (t, a) = f.tyopd();
        let w = scalar_width(&t);
        let b = if op == "fneg" {
            None
        } else {
            f.p.expect(",");
            Some(f.opd(&t))
        };
        return Some(Inst::Float { d, op, fw: w, w, a, b });
    }
    if matches!(op, "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext") {
        flags(f);
        let (t, a) = f.tyopd();
        f.p.expect("to");
        let t2 = f.p.ty();
        return Some(Inst::Float { d, op: op.into(), fw: scalar_width(&t), w: scalar_width(&t2), a, b: None });
    }
    Some(match op {
        "phi" => {
            let t = f.p.ty();
            let mut inc = vec![];
            loop {
                f.p.expect("[");
                let o = f.opd(&t);
                f.p.expect(",");
                f.p.ws();
                let (n, j) = parse_name(f.p.t, f.p.i + 1);
                f.p.i = j;
                let l = *f.labels.get(n).unwrap_or(&0);
                f.p.expect("]");
                inc.push((o, l));
                if !f.p.eat(", [") {
                    break;
                }
                f.p.i -= 1;
            }
            phis.push((d, inc));
            return None;
        }
        "icmp" => {
            flags(f);
            let p = match f.p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                x => panic!("icmp {x}"),
            };
            let (t, a) = f.tyopd();
            f.p.expect(",");
            let b = f.opd(&t);
            Inst::Cmp { d, p, w: scalar_width(&t), a, b }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" => {
            flags(f);
            let (t, a) = f.tyopd();
            f.p.expect("to");
            let t2 = f.p.ty();
            match op {
                "bitcast" => Inst::BitCast { d, from: t, to: t2, a },
                _ => {
                    let (fw, w) = (scalar_width(&t), scalar_width(&t2));
                    if fw > 128 || w > 128 {
                        return Some(Inst::Unsupported("wide integer".into()));
                    }
                    match op {
                        "trunc" => Inst::Trunc { d, fw, w, a },
                        "zext" => Inst::ZExt { d, fw, w, a },
                        "sext" => Inst::SExt { d, fw, w, a },
                        _ => {
                            if fw == w {
                                Inst::Mov { d, a }
                            } else if w < fw {
                                Inst::Trunc { d, fw, w, a }
                            } else {
                                Inst::ZExt { d, fw, w, a }
                            }
                        }
                    }
                }
            }
        }
        "freeze" => {
            let (_, a) = f.tyopd();
            Inst::Mov { d, a }
        }
        "load" => {
            flags(f);
            let ty = f.p.ty();
            f.p.expect(",");
            let (_, p) = f.tyopd();
            Inst::Load { d, ty, p }
        }
        "store" => {
            flags(f);
            let (ty, v) = f.tyopd();
            f.p.expect(",");
            let (_, p) = f.tyopd();
            Inst::Store { ty, v, p }
        }
        "getelementptr" => {
            flags(f);
            let t = f.p.ty();
            f.p.expect(",");
            let (_, p) = f.tyopd();
            let mut off = 0u64;
            let mut idx = vec![];
            let mut cur = t;
            let mut first = true;
            while f.p.eat(",") {
                if f.p.peek() == b'!' {
                    break;
                }
                let (it, o) = f.tyopd();
                let iw = it.bits();
                if first {
                    first = false;
                    match o {
                        Opd::K(Val::I(x)) => {
                            off = off.wrapping_add((cur.size() as i64).wrapping_mul(crate::expr::sx(x as u128, iw) as i64) as u64)
                        }
                        o => idx.push((o, iw, cur.size())),
                    }
                } else {
                    match o {
                        Opd::K(Val::I(x)) => {
                            let (a, t) = step(&cur, crate::expr::sx(x as u128, iw) as i64);
                            off = off.wrapping_add(a as u64);
                            cur = t;
                        }
                        o => {
                            let t = match &cur {
                                Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                                _ => panic!("gep"),
                            };
                            idx.push((o, iw, t.size()));
                            cur = t;
                        }
                    }
                }
            }
            Inst::Gep { d, p, off, idx }
        }
        "alloca" => {
            let t = f.p.ty();
            let mut al = t.align();
            let mut n = 1;
            while f.p.eat(",") {
                if f.p.eat("align") {
                    al = f.p.num() as u64;
                } else if f.p.is_type() {
                    let (_, o) = f.tyopd();
                    n = match o {
                        Opd::K(Val::I(x)) => x,
                        _ => panic!("dynamic alloca"),
                    };
                } else {
                    break;
                }
            }
            let off = f.frame.next_multiple_of(al.max(8));
            // 8 spare bytes between slots, so that a small overrun is an error, not a silent hit
            f.frame = off + t.size() * n;
            Inst::Alloca { d, off }
        }
        "select" => {
            let (ct, c) = f.tyopd();
            f.p.expect(",");
            let (ty, a) = f.tyopd();
            f.p.expect(",");
            let (_, b) = f.tyopd();
            Inst::Select { d, c, a, b, ty, vec: matches!(ct, Ty::Vec(..)) }
        }
        "extractvalue" => {
            let (_, a) = f.tyopd();
            let mut path = vec![];
            while f.p.eat(",") {
                if f.p.peek() == b'!' {
                    break;
                }
                path.push(f.p.num() as u32);
            }
            Inst::Extract { d, a, path }
        }
        "insertvalue" => {
            let (_, a) = f.tyopd();
            f.p.expect(",");
            let (_, v) = f.tyopd();
            let mut path = vec![];
            while f.p.eat(",") {
                if f.p.peek() == b'!' {
                    break;
                }
                path.push(f.p.num() as u32);
            }
            Inst::Insert { d, a, v, path }
        }
        "extractelement" => {
            let (_, a) = f.tyopd();
            f.p.expect(",");
            let (_, i) = f.tyopd();
            Inst::ExtElem { d, a, i }
        }
        "insertelement" => {
            let (_, a) = f.tyopd();
            f.p.expect(",");
            let (_, v) = f.tyopd();
            f.p.expect(",");
            let (_, i) = f.tyopd();
            Inst::InsElem { d, a, v, i }
        }
        "shufflevector" => {
            let (t, a) = f.tyopd();
            f.p.expect(",");
            let (_, b) = f.tyopd();
            f.p.expect(",");
            let mt = f.p.ty();
            let m = match f.p.konst(&mt) {
                Val::A(v) => v.iter().map(|x| if let Val::I(x) = x { *x as i64 } else { 0 }).collect(),
                _ => panic!(),
            };
            let n = match &t {
                Ty::Vec(n, _) => *n,
                _ => panic!(),
            };
            Inst::Shuffle { d, a, b, n, w: scalar_width(&t), m }
        }
        "call" | "invoke" => {
            // calling convention and return attributes
            loop {
                match f.p.peek_word() {
                    "fastcc" | "ccc" | "coldcc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "nnan" | "fast" => {
                        f.p.word();
                    }
                    _ => break,
                }
            }
            f.p.attrs();
            let rw = f.p.ty();
            if f.p.peek() == b'(' {
                f.p.skip_parens();
            }
            let callee = match f.p.peek() {
                b'@' => {
                    let (n, j) = parse_name(f.p.t, f.p.i + 1);
                    f.p.i = j;
                    Callee::Fn(*f.p.m.fnmap.get(n).unwrap_or_else(|| panic!("callee {}", String::from_utf8_lossy(n))))
                }
                _ => {
                    if f.p.peek_word() == "asm" {
                        f.p.word();
                        while f.p.peek() != b'"' {
                            f.p.word();
                        }
                        let s = f.p.i + 1;
                        f.p.i += 1;
                        while f.p.t[f.p.i] != b'"' {
                            f.p.i += 1;
                        }
                        let a = String::from_utf8_lossy(&f.p.t[s..f.p.i]).to_string();
                        f.p.i += 1;
                        f.p.expect(",");
                        f.p.expect("\"");
                        while f.p.t[f.p.i] != b'"' {
                            f.p.i += 1;
                        }
                        f.p.i += 1;
                        Callee::Asm(a)
                    } else {
                        Callee::Reg(f.opd(&Ty::Ptr))
                    }
                }
            };
            f.p.expect("(");
            let mut args = vec![];
            if !f.p.eat(")") {
                loop {
                    let t = f.p.ty();
                    if t == Ty::Other {
                        // metadata
                        let mut dep = 0;
                        while !(dep == 0 && matches!(f.p.t[f.p.i], b',' | b')')) {
                            match f.p.t[f.p.i] {
                                b'(' => dep += 1,
                                b')' => dep -= 1,
                                _ => {}
                            }
                            f.p.i += 1;
                        }
                        args.push((Opd::K(Val::I(0)), t));
                    } else {
                        f.p.attrs();
                        let o = f.opd(&t);
                        args.push((o, t));
                    }
                    if f.p.eat(")") {
                        break;
                    }
                    f.p.expect(",");
                }
            }
            let (mut then, mut pad) = (None, None);
            if op == "invoke" {
                while !f.p.eat("to label") {
                    f.p.i += 1;
                }
                f.p.i -= 5;
                let l = f.label();
                then = Some(f.edge(l));
                while !f.p.eat("unwind label") {
                    f.p.i += 1;
                }
                f.p.i -= 5;
                let l = f.label();
                pad = Some(f.edge(l));
            }
            // cheap no-ops
            if let Callee::Fn(id) = callee {
                let n = &f.p.m.funcs[id as usize].name;
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" || n.starts_with("llvm.dbg") || n == "llvm.donothing" {
                    return None;
                }
            }
            Inst::Call { d, rw, f: callee, args, then, pad }
        }
        "cmpxchg" => {
            flags(f);
            let (_, p) = f.tyopd();
            f.p.expect(",");
            let (t, old) = f.tyopd();
            f.p.expect(",");
            let (_, new) = f.tyopd();
            Inst::CmpXchg { d, w: scalar_width(&t), p, old, new }
        }
        "atomicrmw" => {
            flags(f);
            let op = match f.p.word() {
                "xchg" => Rmw::Xchg,
                "add" => Rmw::Add,
                "sub" => Rmw::Sub,
                "and" => Rmw::And,
                "or" => Rmw::Or,
                "xor" => Rmw::Xor,
                "nand" => Rmw::Nand,
                "umax" => Rmw::UMax,
                "umin" => Rmw::UMin,
                "max" => Rmw::Max,
                "min" => Rmw::Min,
                x => panic!("rmw {x}"),
            };
            let (_, p) = f.tyopd();
            f.p.expect(",");
            let (t, v) = f.tyopd();
            Inst::AtomicRmw { d, op, w: scalar_width(&t), p, v }
        }
        "fence" => return None,
        "br" => {
            if f.p.peek_word() == "label" {
                let l = f.label();
                Inst::Br { e: f.edge(l) }
            } else {
                let (_, c) = f.tyopd();
                f.p.expect(",");
                let t = f.label();
                f.p.expect(",");
                let e = f.label();
                Inst::CondBr { c, t: f.edge(t), f: f.edge(e) }
            }
        }
        "switch" => {
            let (t, v) = f.tyopd();
            f.p.expect(",");
            let dl = f.label();
            let def = f.edge(dl);
            f.p.expect("[");
            let mut cases = vec![];
            while !f.p.eat("]") {
                let (_, k) = f.tyopd();
                f.p.expect(",");
                let l = f.label();
                let e = f.edge(l);
                match k {
                    Opd::K(Val::I(x)) => cases.push((x, e)),
                    _ => return Some(Inst::Unsupported("wide switch".into())),
                }
            }
            Inst::Switch { v, w: scalar_width(&t), def, cases }
        }
        "ret" => {
            if f.p.peek_word() == "void" {
                Inst::Ret { v: None }
            } else {
                let (_, v) = f.tyopd();
                Inst::Ret { v: Some(v) }
            }
        }
        "unreachable" => Inst::Unreachable,
        "landingpad" => Inst::Landing { d },
        "resume" => {
            let (_, v) = f.tyopd();
            Inst::Resume { v }
        }
        _ => Inst::Unsupported(op.into()),
    })
}
#[allow(dead_code)]
fn unused(m: &Module, t: &'static [u8]) {
    Parser::over(m, t);
}
