//! Copy-on-write memory of one symbolic path.
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub b: Vec<u8>,
    /// empty, or one entry per byte (0: concrete)
    pub s: Vec<E>,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { b: vec![0; n], s: vec![] }
    }
    pub fn sym(&mut self) {
        if self.s.is_empty() {
            self.s = vec![0; self.b.len()];
        }
    }
    pub fn is_sym(&self, o: usize, n: usize) -> bool {
        !self.s.is_empty() && self.s[o..o + n].iter().any(|x| *x != 0)
    }
    pub fn byte(&self, o: usize) -> E {
        if !self.s.is_empty() && self.s[o] != 0 {
            self.s[o]
        } else {
            cst(8, self.b[o] as u128)
        }
    }
    pub fn set_byte(&mut self, o: usize, e: E) {
        match is_const(e) {
            Some(v) => {
                self.b[o] = v as u8;
                if !self.s.is_empty() {
                    self.s[o] = 0;
                }
            }
            None => {
                self.sym();
                self.s[o] = e;
            }
        }
    }
    pub fn load(&self, o: usize, w: u16) -> Val {
        let n = (w as usize).div_ceil(8);
        if !self.is_sym(o, n) {
            if n <= 8 {
                let mut x = [0u8; 8];
                x[..n].copy_from_slice(&self.b[o..o + n]);
                let v = u64::from_le_bytes(x);
                return Val::I(if w < 64 { v & ((1u64 << w) - 1) } else { v });
            }
            let mut x = [0u8; 16];
            x[..n].copy_from_slice(&self.b[o..o + n]);
            let v = u128::from_le_bytes(x) & mask(w);
            return if w > 64 { Val::W(Rc::new(v)) } else { Val::I(v as u64) };
        }
        let mut e = self.byte(o);
        for k in 1..n {
            e = concat(self.byte(o + k), e);
        }
        val(trunc(e, w))
    }
    pub fn store(&mut self, o: usize, w: u16, v: &Val) {
        let n = (w as usize).div_ceil(8);
        match v {
            Val::I(x) => {
                self.b[o..o + n.min(8)].copy_from_slice(&x.to_le_bytes()[..n.min(8)]);
                for k in 8..n {
                    self.b[o + k] = 0;
                }
                if !self.s.is_empty() {
                    self.s[o..o + n].fill(0);
                }
            }
            Val::W(x) => {
                self.b[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !self.s.is_empty() {
                    self.s[o..o + n].fill(0);
                }
            }
            Val::E(e) => {
                let e = zext(*e, n as u16 * 8);
                for k in 0..n {
                    self.set_byte(o + k, extract(e, k as u16 * 8 + 7, k as u16 * 8));
                }
            }
            Val::A(_) => unreachable!(),
        }
    }
}

/// canonical value of an expression
pub fn val(e: E) -> Val {
    match is_const(e) {
        Some(v) => {
            if width(e) > 64 {
                Val::W(Rc::new(v))
            } else {
                Val::I(v as u64)
            }
        }
        None => Val::E(e),
    }
}
pub fn ex(v: &Val, w: u16) -> E {
    match v {
        Val::I(x) => cst(w, *x as u128),
        Val::W(x) => cst(w, **x),
        Val::E(e) => {
            debug_assert_eq!(width(*e), w);
            *e
        }
        Val::A(_) => panic!("aggregate as integer"),
    }
}

pub const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    pub globals: Rc<HashMap<u32, Rc<Obj>, BuildFx>>,
    pub stack: Vec<Option<Rc<Obj>>>,
    heap: Vec<Rc<Chunk>>,
    pub next: u32,
    pub live: u64,
}

pub struct MemErr(pub String);

pub struct Globals {
    pub base: Vec<Option<Rc<Obj>>>,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { globals: Default::default(), stack: vec![], heap: vec![], next: 0, live: 0 }
    }
    /// Of a very large object only the beginning is there; an access beyond is reported as invalid.
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.next;
        self.next += 1 + (n >> 32) as u32;
        let c = id as usize / CH;
        while c >= self.heap.len() {
            self.heap.push(Rc::new([const { None }; CH]));
        }
        let n = n.min(1 << 21);
        Rc::make_mut(&mut self.heap[c])[id as usize % CH] = Some(Rc::new(Obj::new(n)));
        self.live += n as u64;
        ((HEAP_BASE + id) as u64) << 32
    }
    pub fn free(&mut self, a: u64) -> Result<usize, MemErr> {
        let id = (a >> 32) as u32;
        if id < HEAP_BASE || a as u32 != 0 {
            return Err(MemErr(format!("free of invalid pointer {a:#x}")));
        }
        let id = (id - HEAP_BASE) as usize;
        match self.heap.get_mut(id / CH) {
            Some(c) if c[id % CH].is_some() => {
                let o = Rc::make_mut(c)[id % CH].take().unwrap();
                self.live -= o.b.len() as u64;
                Ok(o.b.len())
            }
            _ => Err(MemErr(format!("double free of {a:#x}"))),
        }
    }
    pub fn get<'a>(&'a self, m: &Module, g: &'a mut Globals, a: u64, n: usize) -> Result<(&'a Obj, usize), MemErr> {
        let id = (a >> 32) as u32;
        let off = a as u32 as usize;
        let o: &Rc<Obj> = if id >= HEAP_BASE {
            let k = (id - HEAP_BASE) as usize;
            match self.heap.get(k / CH).and_then(|c| c[k % CH].as_ref()) {
                Some(o) => o,
                None => return Err(MemErr(format!("access to freed or unallocated memory {a:#x}"))),
            }
        } else if id >= STACK_BASE {
            match self.stack.get((id - STACK_BASE) as usize) {
                Some(Some(o)) => o,
                _ => return Err(MemErr(format!("access to dead stack memory {a:#x}"))),
            }
        } else if id >= FN_BASE || id == 0 {
            return Err(MemErr(format!("access to invalid address {a:#x}")));
        } else if let Some(o) = self.globals.get(&id) {
            o
        } else {
            global(m, g, id)?
        };
        if off + n > o.b.len() {
            return Err(MemErr(format!("out-of-bounds access {a:#x}: offset {off}, {n} bytes, object has {}", o.b.len())));
        }
        Ok((o, off))
    }
    pub fn get_mut<'a>(&'a mut self, m: &Module, g: &mut Globals, a: u64, n: usize) -> Result<(&'a mut Obj, usize), MemErr> {
        let id = (a >> 32) as u32;
        let off = a as u32 as usize;
        let o: &mut Obj = if id >= HEAP_BASE {
            let k = (id - HEAP_BASE) as usize;
            match self.heap.get_mut(k / CH) {
                Some(c) if c[k % CH].is_some() => Rc::make_mut(Rc::make_mut(c)[k % CH].as_mut().unwrap()),
                _ => return Err(MemErr(format!("write to freed or unallocated memory {a:#x}"))),
            }
        } else if id >= STACK_BASE {
            match self.stack.get_mut((id - STACK_BASE) as usize) {
                Some(Some(o)) => Rc::make_mut(o),
                _ => return Err(MemErr(format!("write to dead stack memory {a:#x}"))),
            }
        } else if id >= FN_BASE || id == 0 {
            return Err(MemErr(format!("write to invalid address {a:#x}")));
        } else {
            if m.globals.get(id as usize - 1).is_none_or(|g| g.constant) {
                return Err(MemErr(format!("write to constant memory {a:#x}")));
            }
            if !self.globals.contains_key(&id) {
                let o = global(m, g, id)?.clone();
                Rc::make_mut(&mut self.globals).insert(id, o);
            }
            Rc::make_mut(Rc::make_mut(&mut self.globals).get_mut(&id).unwrap())
        };
        if off + n > o.b.len() {
            return Err(MemErr(format!("out-of-bounds write {a:#x}: offset {off}, {n} bytes, object has {}", o.b.len())));
        }
        Ok((o, off))
    }
}

fn global<'a>(m: &Module, g: &'a mut Globals, id: u32) -> Result<&'a Rc<Obj>, MemErr> {
    let k = id as usize - 1;
    if k >= m.globals.len() {
        return Err(MemErr(format!("bad global {id}")));
    }
    if g.base[k].is_none() {
        let b = m.global_init(id);
        g.base[k] = Some(Rc::new(Obj { b, s: vec![] }));
    }
    Ok(g.base[k].as_ref().unwrap())
}
