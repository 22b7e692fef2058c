//! Hash-consed bit-vector expressions (width 1..=128) over symbolic input bytes.
use std::collections::HashMap;

pub type E = u32;
pub const NVARS: usize = 512;
pub type VarSet = [u64; NVARS / 64];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    map: HashMap<Node, E, BuildFx>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    masks: HashMap<E, [u64; 4], BuildFx>,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, n: u8) {
        self.write_u64(n as u64)
    }
    fn write_u16(&mut self, n: u16) {
        self.write_u64(n as u64)
    }
    fn write_u32(&mut self, n: u32) {
        self.write_u64(n as u64)
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, n: usize) {
        self.write_u64(n as u64)
    }
    fn write_isize(&mut self, n: isize) {
        self.write_u64(n as u64)
    }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

static mut CTX: Option<Box<Ctx>> = None;
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            let mut c = Ctx {
                nodes: vec![],
                vars: vec![],
                map: Default::default(),
                stamp: vec![],
                val: vec![],
                masks: Default::default(),
            };
            // id 0 is reserved ("concrete" in memory)
            c.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, d: 0xffff_ffff });
            CTX = Some(Box::new(c));
        }
        CTX.as_mut().unwrap()
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Ctx {
    fn push(&mut self, n: Node) -> E {
        let id = self.nodes.len() as u32;
        let vs = match n.op {
            Op::Const => [0; NVARS / 64],
            Op::Var => {
                let mut v = [0u64; NVARS / 64];
                v[n.a as usize / 64] |= 1 << (n.a % 64);
                v
            }
            Op::Not | Op::SExt => self.vars[n.a as usize],
            Op::Extract => self.vars[n.a as usize],
            Op::Ite => {
                let mut v = self.vars[n.a as usize];
                for i in 0..NVARS / 64 {
                    v[i] |= self.vars[n.b as usize][i] | self.vars[n.c as usize][i];
                }
                v
            }
            _ => {
                let mut v = self.vars[n.a as usize];
                for i in 0..NVARS / 64 {
                    v[i] |= self.vars[n.b as usize][i];
                }
                v
            }
        };
        self.nodes.push(n);
        self.vars.push(vs);
        self.stamp.push(0);
        self.val.push(0);
        id
    }
    fn get(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32, d: u32) -> E {
        let n = Node { op, w, a, b, c, d };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.push(n);
        self.map.insert(n, id);
        id
    }
}

pub fn node(e: E) -> Node {
    ctx().nodes[e as usize]
}
pub fn width(e: E) -> u16 {
    ctx().nodes[e as usize].w
}
pub fn vars(e: E) -> &'static VarSet {
    &ctx().vars[e as usize]
}
pub fn cst(w: u16, v: u128) -> E {
    let v = v & mask(w);
    ctx().get(Op::Const, w, v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32)
}
pub fn var(i: u32) -> E {
    assert!((i as usize) < NVARS, "too many symbolic bytes");
    ctx().get(Op::Var, 8, i, 0, 0, 0)
}
pub fn tru() -> E {
    cst(1, 1)
}
pub fn fls() -> E {
    cst(1, 0)
}
pub fn is_const(e: E) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const {
        Some(n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96)
    } else {
        None
    }
}

pub fn not(a: E) -> E {
    let n = node(a);
    if let Some(v) = is_const(a) {
        return cst(n.w, !v);
    }
    if n.op == Op::Not {
        return n.a;
    }
    if n.w > 1 && n.op == Op::Concat {
        return concat(not(n.a), not(n.b));
    }
    ctx().get(Op::Not, n.w, a, 0, 0, 0)
}

pub fn extract(a: E, hi: u16, lo: u16) -> E {
    let n = node(a);
    let w = hi - lo + 1;
    debug_assert!(hi < n.w);
    if w == n.w {
        return a;
    }
    if let Some(v) = is_const(a) {
        return cst(w, v >> lo);
    }
    match n.op {
        Op::Extract => extract(n.a, hi + n.c as u16, lo + n.c as u16),
        Op::Concat => {
            let lw = width(n.b);
            if hi < lw {
                extract(n.b, hi, lo)
            } else if lo >= lw {
                extract(n.a, hi - lw, lo - lw)
            } else {
                concat(extract(n.a, hi - lw, 0), extract(n.b, lw - 1, lo))
            }
        }
        Op::SExt => {
            let iw = width(n.a);
            if hi < iw {
                extract(n.a, hi, lo)
            } else if lo < iw {
                sext(extract(n.a, iw - 1, lo), w)
            } else {
                let top = extract(n.a, iw - 1, iw - 1);
                sext(top, w)
            }
        }
        Op::Not => not(extract(n.a, hi, lo)),
        Op::And | Op::Or | Op::Xor => {
            let x = extract(n.a, hi, lo);
            let y = extract(n.b, hi, lo);
            match n.op {
                Op::And => and(x, y),
                Op::Or => or(x, y),
                _ => xor(x, y),
            }
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            let x = extract(n.a, hi, 0);
            let y = extract(n.b, hi, 0);
            match n.op {
                Op::Add => add(x, y),
                Op::Sub => sub(x, y),
                _ => mul(x, y),
            }
        }
        Op::Ite if is_const(n.b).is_some() || is_const(n.c).is_some() => {
            ite(n.a, extract(n.b, hi, lo), extract(n.c, hi, lo))
        }
        _ => ctx().get(Op::Extract, w, a, hi as u32, lo as u32, 0),
    }
}

pub fn concat(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w + nb.w;
    assert!(w <= 128, "concat too wide");
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return cst(w, x << nb.w | y);
    }
    // right-nested normal form
    if na.op == Op::Concat {
        return concat(na.a, concat(na.b, b));
    }
    // merge with head of b
    let (hb, tb) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
    let merged = {
        let (x, y) = (a, hb);
        let (nx, ny) = (node(x), node(y));
        if let (Some(p), Some(q)) = (is_const(x), is_const(y)) {
            Some(cst(nx.w + ny.w, p << ny.w | q))
        } else if nx.op == Op::Extract && ny.op == Op::Extract && nx.a == ny.a && nx.c == ny.b + 1 {
            Some(extract(nx.a, nx.b as u16, ny.c as u16))
        } else {
            None
        }
    };
    if let Some(m) = merged {
        return match tb {
            Some(t) => concat(m, t),
            None => m,
        };
    }
    ctx().get(Op::Concat, w, a, b, 0, 0)
}

pub fn zext(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w {
        a
    } else {
        concat(cst(w - aw, 0), a)
    }
}
pub fn sext(a: E, w: u16) -> E {
    let n = node(a);
    if n.w == w {
        return a;
    }
    if let Some(v) = is_const(a) {
        return cst(w, sx(v, n.w) as u128);
    }
    if n.op == Op::Concat {
        if let Some(v) = is_const(n.a) {
            let cw = width(n.a);
            if v >> (cw - 1) == 0 {
                return zext(a, w);
            }
        }
    }
    if n.op == Op::SExt {
        return sext(n.a, w);
    }
    ctx().get(Op::SExt, w, a, 0, 0, 0)
}
pub fn trunc(a: E, w: u16) -> E {
    if width(a) == w {
        a
    } else {
        extract(a, w - 1, 0)
    }
}

/// split points so that a bitwise op can be done per segment
fn bitwise_split(op: Op, a: E, b: E) -> Option<E> {
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    if w == 1 {
        return None;
    }
    let at = |n: Node, e: E| -> Option<u16> {
        if n.op == Op::Concat {
            return Some(width(n.b));
        }
        if let Some(v) = is_const(e) {
            // lowest run boundary
            let b0 = v & 1;
            let mut k = 1;
            while k < w && (v >> k) & 1 == b0 {
                k += 1;
            }
            if k < w {
                // limit the number of runs
                let x = v ^ (v >> 1);
                if (x & mask(w - 1)).count_ones() <= 6 {
                    return Some(k);
                }
            }
        }
        None
    };
    let k = match (at(na, a), at(nb, b)) {
        (Some(x), Some(y)) => x.min(y),
        (Some(x), None) => x,
        (None, Some(y)) => y,
        _ => return None,
    };
    let hi = (extract(a, w - 1, k), extract(b, w - 1, k));
    let lo = (extract(a, k - 1, 0), extract(b, k - 1, 0));
    let f = match op {
        Op::And => and,
        Op::Or => or,
        _ => xor,
    };
    Some(concat(f(hi.0, hi.1), f(lo.0, lo.1)))
}

pub fn and(a: E, b: E) -> E {
    let w = width(a);
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if y == 0 {
            return b;
        }
        if y == mask(w) {
            return a;
        }
        if let Some(x) = is_const(a) {
            return cst(w, x & y);
        }
    }
    if a == b {
        return a;
    }
    if w == 1 {
        let (na, nb) = (node(a), node(b));
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return fls();
        }
    }
    if let Some(r) = bitwise_split(Op::And, a, b) {
        return r;
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    ctx().get(Op::And, w, a, b, 0, 0)
}
pub fn or(a: E, b: E) -> E {
    let w = width(a);
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if y == 0 {
            return a;
        }
        if y == mask(w) {
            return b;
        }
        if let Some(x) = is_const(a) {
            return cst(w, x | y);
        }
    }
    if a == b {
        return a;
    }
    if w == 1 {
        let (na, nb) = (node(a), node(b));
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return tru();
        }
    }
    if let Some(r) = bitwise_split(Op::Or, a, b) {
        return r;
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    ctx().get(Op::Or, w, a, b, 0, 0)
}
pub fn xor(a: E, b: E) -> E {
    let w = width(a);
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if y == 0 {
            return a;
        }
        if y == mask(w) {
            return not(a);
        }
        if let Some(x) = is_const(a) {
            return cst(w, x ^ y);
        }
    }
    if a == b {
        return cst(w, 0);
    }
    if let Some(r) = bitwise_split(Op::Xor, a, b) {
        return r;
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    ctx().get(Op::Xor, w, a, b, 0, 0)
}

/// bits of e that may be non-zero
fn maybe_ones(e: E) -> u128 {
    let n = node(e);
    if let Some(v) = is_const(e) {
        return v;
    }
    match n.op {
        Op::Concat => maybe_ones(n.a) << width(n.b) | maybe_ones(n.b),
        Op::Ite => maybe_ones(n.b) | maybe_ones(n.c),
        Op::Or | Op::Xor => maybe_ones(n.a) | maybe_ones(n.b),
        Op::And => maybe_ones(n.a) & maybe_ones(n.b),
        _ => mask(n.w),
    }
}

pub fn add(a: E, b: E) -> E {
    let w = width(a);
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if w == 1 {
        return xor(a, b);
    }
    if let Some(y) = is_const(b) {
        if y == 0 {
            return a;
        }
        if let Some(x) = is_const(a) {
            return cst(w, x.wrapping_add(y));
        }
        let na = node(a);
        if na.op == Op::Add {
            if let Some(z) = is_const(na.b) {
                return add(na.a, cst(w, y.wrapping_add(z)));
            }
        }
        if na.op == Op::Ite {
            if let (Some(p), Some(q)) = (is_const(na.b), is_const(na.c)) {
                return ite(na.a, cst(w, p.wrapping_add(y)), cst(w, q.wrapping_add(y)));
            }
        }
    }
    if maybe_ones(a) & maybe_ones(b) == 0 {
        return or(a, b);
    }
    // (x + c) + y  ->  (x + y) + c
    let na = node(a);
    if na.op == Op::Add && is_const(b).is_none() {
        if is_const(na.b).is_some() {
            return add(add(na.a, b), na.b);
        }
    }
    let nb = node(b);
    if nb.op == Op::Add {
        if is_const(nb.b).is_some() {
            return add(add(a, nb.a), nb.b);
        }
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    ctx().get(Op::Add, w, a, b, 0, 0)
}
pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 {
        return xor(a, b);
    }
    if a == b {
        return cst(w, 0);
    }
    if let Some(y) = is_const(b) {
        return add(a, cst(w, y.wrapping_neg()));
    }
    // (x + c) - x
    let na = node(a);
    if na.op == Op::Add && is_const(na.b).is_some() {
        return add(sub(na.a, b), na.b);
    }
    ctx().get(Op::Sub, w, a, b, 0, 0)
}
pub fn mul(a: E, b: E) -> E {
    let w = width(a);
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(w, x.wrapping_mul(y));
        }
        if y == 0 {
            return b;
        }
        if y.is_power_of_two() {
            return shl(a, cst(w, y.trailing_zeros() as u128));
        }
    }
    ctx().get(Op::Mul, w, a, b, 0, 0)
}
pub fn udiv(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = is_const(b) {
        if y != 0 {
            if let Some(x) = is_const(a) {
                return cst(w, x / y);
            }
            if y.is_power_of_two() {
                return lshr(a, cst(w, y.trailing_zeros() as u128));
            }
        }
    }
    ctx().get(Op::UDiv, w, a, b, 0, 0)
}
pub fn urem(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = is_const(b) {
        if y != 0 {
            if let Some(x) = is_const(a) {
                return cst(w, x % y);
            }
            if y.is_power_of_two() {
                return and(a, cst(w, y - 1));
            }
        }
    }
    ctx().get(Op::URem, w, a, b, 0, 0)
}
pub fn sdiv(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        if y != 0 {
            return cst(w, sx(x, w).wrapping_div(sx(y, w)) as u128);
        }
    }
    ctx().get(Op::SDiv, w, a, b, 0, 0)
}
pub fn srem(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        if y != 0 {
            return cst(w, sx(x, w).wrapping_rem(sx(y, w)) as u128);
        }
    }
    ctx().get(Op::SRem, w, a, b, 0, 0)
}
pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return cst(w, 0);
        }
        let k = k as u16;
        return concat(extract(a, w - 1 - k, 0), cst(k, 0));
    }
    ctx().get(Op::Shl, w, a, b, 0, 0)
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return cst(w, 0);
        }
        let k = k as u16;
        return concat(cst(k, 0), extract(a, w - 1, k));
    }
    ctx().get(Op::LShr, w, a, b, 0, 0)
}
pub fn ashr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        let k = (k.min(w as u128 - 1)) as u16;
        return sext(extract(a, w - 1, k), w);
    }
    ctx().get(Op::AShr, w, a, b, 0, 0)
}

pub fn eq(a: E, b: E) -> E {
    if a == b {
        return tru();
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    let (na, nb) = (node(a), node(b));
    debug_assert_eq!(na.w, nb.w);
    if let Some(y) = is_const(b) {
        if is_const(a).is_some() {
            return fls();
        }
        if na.w == 1 {
            return if y == 1 { a } else { not(a) };
        }
        match na.op {
            Op::Concat => {
                let lw = width(na.b);
                return and(eq(na.a, cst(na.w - lw, y >> lw)), eq(na.b, cst(lw, y)));
            }
            Op::SExt => {
                let iw = width(na.a);
                return if sx(y & mask(iw), iw) as u128 & mask(na.w) == y {
                    eq(na.a, cst(iw, y))
                } else {
                    fls()
                };
            }
            Op::Not => return eq(na.a, cst(na.w, !y)),
            Op::Add => {
                if let Some(z) = is_const(na.b) {
                    return eq(na.a, cst(na.w, y.wrapping_sub(z)));
                }
            }
            Op::Sub if y == 0 => return eq(na.a, na.b),
            Op::Xor if y == 0 => return eq(na.a, na.b),
            Op::Or if y == 0 => return and(eq(na.a, b), eq(na.b, b)),
            Op::Ite => {
                let (p, q) = (is_const(na.b), is_const(na.c));
                if p.is_some() || q.is_some() {
                    return ite(na.a, eq(na.b, b), eq(na.c, b));
                }
            }
            _ => {}
        }
    } else if na.op == Op::Concat || nb.op == Op::Concat {
        // split along concat boundaries
        let k = if na.op == Op::Concat { width(na.b) } else { width(nb.b) };
        let k = if nb.op == Op::Concat { k.min(width(nb.b)) } else { k };
        let w = na.w;
        return and(
            eq(extract(a, w - 1, k), extract(b, w - 1, k)),
            eq(extract(a, k - 1, 0), extract(b, k - 1, 0)),
        );
    }
    if na.w == 1 {
        return not(xor(a, b));
    }
    let (a, b) = if is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    ctx().get(Op::Eq, 1, a, b, 0, 0)
}

pub fn ult(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return cst(1, (x < y) as u128);
    }
    if w == 1 {
        return and(not(a), b);
    }
    if let Some(y) = cb {
        if y == 0 {
            return fls();
        }
        if y == 1 {
            return eq(a, cst(w, 0));
        }
        if na.op == Op::Concat {
            if let Some(h) = is_const(na.a) {
                let lw = width(na.b);
                let yh = y >> lw;
                return if h < yh {
                    tru()
                } else if h > yh {
                    fls()
                } else {
                    ult(na.b, cst(lw, y))
                };
            }
            if is_const(na.b).is_some() {
                // concat(x, k) < y  <=>  x < yh or (x == yh and k < yl)
                let lw = width(na.b);
                let k = is_const(na.b).unwrap();
                let (yh, yl) = (y >> lw, y & mask(lw));
                let hw = w - lw;
                if k < yl {
                    return not(ult(cst(hw, yh), na.a));
                } else {
                    return ult(na.a, cst(hw, yh));
                }
            }
        }
        if na.op == Op::Ite && (is_const(na.b).is_some() || is_const(na.c).is_some()) {
            return ite(na.a, ult(na.b, b), ult(na.c, b));
        }
    }
    if let Some(x) = ca {
        if x == mask(w) {
            return fls();
        }
        if x == 0 {
            return not(eq(b, a));
        }
        if nb.op == Op::Concat {
            if let Some(h) = is_const(nb.a) {
                let lw = width(nb.b);
                let xh = x >> lw;
                return if xh < h {
                    tru()
                } else if xh > h {
                    fls()
                } else {
                    ult(cst(lw, x), nb.b)
                };
            }
        }
        if nb.op == Op::Ite && (is_const(nb.b).is_some() || is_const(nb.c).is_some()) {
            return ite(nb.a, ult(a, nb.b), ult(a, nb.c));
        }
    }
    if na.op == Op::Concat && nb.op == Op::Concat {
        if let (Some(x), Some(y)) = (is_const(na.a), is_const(nb.a)) {
            let (wx, wy) = (width(na.a), width(nb.a));
            if x == 0 && y == 0 {
                let m = wx.min(wy);
                return ult(extract(a, w - m - 1, 0), extract(b, w - m - 1, 0));
            }
        }
    }
    ctx().get(Op::Ult, 1, a, b, 0, 0)
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return fls();
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return cst(1, (sx(x, w) < sx(y, w)) as u128);
    }
    if w == 1 {
        return and(a, not(b));
    }
    let top = |e: E| extract(e, w - 1, w - 1);
    let (ta, tb) = (is_const(top(a)), is_const(top(b)));
    match (ta, tb) {
        (Some(x), Some(y)) if x == y => return ult(a, b),
        (Some(0), Some(1)) => return fls(),
        (Some(1), Some(0)) => return tru(),
        _ => {}
    }
    if is_const(b) == Some(0) {
        return top(a);
    }
    if is_const(a) == Some(mask(w)) {
        return not(top(b));
    }
    ctx().get(Op::Slt, 1, a, b, 0, 0)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = is_const(c) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let nc = node(c);
    if nc.op == Op::Not {
        return ite(nc.a, b, a);
    }
    let w = width(a);
    let (ca, cb) = (is_const(a), is_const(b));
    if w == 1 {
        match (ca, cb) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(0)) => return and(c, a),
            (_, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && na.a == c {
        return ite(c, na.b, b);
    }
    if nb.op == Op::Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    // share a common constant high part (zero extension)
    if na.op == Op::Concat || nb.op == Op::Concat {
        let hi_const = |e: E, n: Node| -> Option<u16> {
            if let Some(_) = is_const(e) {
                return Some(w);
            }
            if n.op == Op::Concat && is_const(n.a).is_some() {
                Some(width(n.a))
            } else {
                None
            }
        };
        if let (Some(x), Some(y)) = (hi_const(a, na), hi_const(b, nb)) {
            let k = x.min(y);
            if k < w {
                let (ha, hb) = (extract(a, w - 1, w - k), extract(b, w - 1, w - k));
                if ha == hb {
                    return concat(ha, ite(c, extract(a, w - k - 1, 0), extract(b, w - k - 1, 0)));
                }
            }
        }
    }
    ctx().get(Op::Ite, w, c, a, b, 0)
}

pub fn apply(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            if y == 0 {
                if sx(x, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx(x, w).wrapping_div(sx(y, w)) as u128 & m
            }
        }
        Op::SRem => {
            if y == 0 {
                x
            } else {
                sx(x, w).wrapping_rem(sx(y, w)) as u128 & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let k = y.min(w as u128 - 1) as u32;
            (sx(x, w) >> k) as u128 & m
        }
        _ => unreachable!(),
    }
}

pub struct Model {
    pub id: u32,
    pub v: Vec<u8>,
}
static mut NEXT_MODEL: u32 = 1;
impl Model {
    pub fn new(v: Vec<u8>) -> Model {
        unsafe {
            NEXT_MODEL += 1;
            Model { id: NEXT_MODEL, v }
        }
    }
    pub fn fresh_id() -> u32 {
        unsafe {
            NEXT_MODEL += 1;
            NEXT_MODEL
        }
    }
}

/// Value of `e` under the assignment `m` (missing bytes are 0); memoised per model id.
pub fn eval(e: E, id: u32, m: &[u8]) -> u128 {
    let c = ctx();
    let n = c.nodes[e as usize];
    match n.op {
        Op::Const => return is_const(e).unwrap(),
        Op::Var => return m.get(n.a as usize).copied().unwrap_or(0) as u128,
        _ => {}
    }
    if c.stamp[e as usize] == id {
        return c.val[e as usize];
    }
    let r = match n.op {
        Op::Not => !eval(n.a, id, m) & mask(n.w),
        Op::Eq => (eval(n.a, id, m) == eval(n.b, id, m)) as u128,
        Op::Ult => (eval(n.a, id, m) < eval(n.b, id, m)) as u128,
        Op::Slt => {
            let w = width(n.a);
            (sx(eval(n.a, id, m), w) < sx(eval(n.b, id, m), w)) as u128
        }
        Op::Ite => {
            if eval(n.a, id, m) == 1 {
                eval(n.b, id, m)
            } else {
                eval(n.c, id, m)
            }
        }
        Op::Concat => eval(n.a, id, m) << width(n.b) | eval(n.b, id, m),
        Op::Extract => (eval(n.a, id, m) >> n.c) & mask(n.w),
        Op::SExt => sx(eval(n.a, id, m), width(n.a)) as u128 & mask(n.w),
        _ => apply(n.op, n.w, eval(n.a, id, m), eval(n.b, id, m)),
    };
    let c = ctx();
    c.stamp[e as usize] = id;
    c.val[e as usize] = r;
    r
}

/// The only variable of `e`, if it has exactly one.
pub fn single_var(e: E) -> Option<u32> {
    let v = vars(e);
    let mut r = None;
    for (i, x) in v.iter().enumerate() {
        if *x != 0 {
            if r.is_some() || x.count_ones() > 1 {
                return None;
            }
            r = Some(i as u32 * 64 + x.trailing_zeros());
        }
    }
    r
}

/// For a boolean `e` over the single byte variable `v`: the set of byte values making it true.
pub fn truth_mask(e: E, v: u32) -> [u64; 4] {
    if let Some(m) = ctx().masks.get(&e) {
        return *m;
    }
    let mut r = [0u64; 4];
    let mut m = vec![0u8; v as usize + 1];
    for x in 0..256usize {
        m[v as usize] = x as u8;
        if eval(e, Model::fresh_id(), &m) == 1 {
            r[x / 64] |= 1 << (x % 64);
        }
    }
    ctx().masks.insert(e, r);
    r
}

pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    if let Some(v) = is_const(e) {
        return format!("{v:#x}:{}", n.w);
    }
    if n.op == Op::Var {
        return format!("v{}", n.a);
    }
    if depth == 0 {
        return "..".into();
    }
    let d = depth - 1;
    match n.op {
        Op::Extract => format!("{}[{}:{}]", show(n.a, d), n.b, n.c),
        Op::Not | Op::SExt => format!("({:?}{} {})", n.op, n.w, show(n.a, d)),
        Op::Ite => format!("(ite {} {} {})", show(n.a, d), show(n.b, d), show(n.c, d)),
        _ => format!("({:?} {} {})", n.op, show(n.a, d), show(n.b, d)),
    }
}
