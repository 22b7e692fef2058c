//! Symbolic interpreter: explores every feasible path of one harness entry point.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub idx: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub nsym: u32,
    pub obs: Vec<(Val, u16)>,
    pub obs_hash: u64,
    pub steps: u64,
    pub clock: u64,
    pub errno: u64,
    pub tls: Vec<u64>,
    /// the exception that is unwinding
    pub exc: u64,
    pub covers: u64,
    pub limit: u64,
    pub depth: u32,
    pub guard: u32,
}

#[derive(Clone, Debug)]
pub struct PathRec {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub hash: u64,
    pub steps: u64,
    pub covers: u64,
    pub trace: Vec<String>,
}

pub struct Limits {
    pub steps: u64,
    pub alloc: u64,
    pub deadline: std::time::Instant,
    pub max_viol: usize,
    pub enum_max: u32,
    pub keep: usize,
}

pub struct Exec {
    pub m: Module,
    pub g: Globals,
    pub sol: Solver,
    pub work: Vec<State>,
    pub lim: Limits,
    pub paths: Vec<PathRec>,
    pub viol: Vec<PathRec>,
    pub problems: BTreeMap<String, u64>,
    pub npaths: BTreeMap<String, u64>,
    pub covers: u64,
    pub steps: u64,
    pub forks: u64,
    pub labels: BTreeMap<String, u64>,
    pub sites: BTreeMap<String, u64>,
    pub verbose: bool,
    pub obs_mismatch: u64,
    pub stop: Box<dyn Fn() -> bool>,
    pub on_violation: Box<dyn Fn()>,
    pub ignore: Vec<String>,
    pub profile: bool,
    pub intercepted: BTreeSet<String>,
}

enum Ctl {
    Next,
    /// control was transferred; reload the frame
    Jump,
    Term(Term),
}
enum Term {
    Done,
    Infeasible,
    Viol(&'static str, String),
    Problem(String),
}
type R<T> = Result<T, Term>;

impl From<MemErr> for Term {
    fn from(e: MemErr) -> Term {
        Term::Viol("memory", e.0)
    }
}

const FNV: u64 = 0x100000001b3;
pub fn fnv(h: u64, v: u64) -> u64 {
    let mut h = h;
    for b in v.to_le_bytes() {
        h = (h ^ b as u64).wrapping_mul(FNV);
    }
    h
}

fn get<'a>(fr: &'a Frame, o: &'a Opd) -> &'a Val {
    match o {
        Opd::R(r) => &fr.regs[*r as usize],
        Opd::K(v) => v,
    }
}

fn bop(op: Bop, w: u16, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        if w <= 64 {
            let m = mask(w) as u64;
            let s = |v: u64| sx(v as u128, w) as i64;
            let (x, y) = (*x, *y);
            let r = match op {
                Bop::Add => x.wrapping_add(y),
                Bop::Sub => x.wrapping_sub(y),
                Bop::Mul => x.wrapping_mul(y),
                Bop::UDiv => x.checked_div(y).unwrap_or(0),
                Bop::URem => x.checked_rem(y).unwrap_or(0),
                Bop::SDiv => s(x).checked_div(s(y)).unwrap_or(0) as u64,
                Bop::SRem => s(x).checked_rem(s(y)).unwrap_or(0) as u64,
                Bop::And => x & y,
                Bop::Or => x | y,
                Bop::Xor => x ^ y,
                Bop::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bop::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bop::AShr => (s(x) >> y.min(63)) as u64,
            };
            return Val::I(r & m);
        }
    }
    if let (Val::A(x), Val::A(y)) = (a, b) {
        return Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| bop(op, w, p, q)).collect()));
    }
    let (x, y) = (ex(a, w), ex(b, w));
    val(match op {
        Bop::Add => add(x, y),
        Bop::Sub => sub(x, y),
        Bop::Mul => mul(x, y),
        Bop::UDiv => udiv(x, y),
        Bop::URem => urem(x, y),
        Bop::SDiv => sdiv(x, y),
        Bop::SRem => srem(x, y),
        Bop::And => and(x, y),
        Bop::Or => or(x, y),
        Bop::Xor => xor(x, y),
        Bop::Shl => shl(x, y),
        Bop::LShr => lshr(x, y),
        Bop::AShr => ashr(x, y),
    })
}
fn cmp(p: Pred, w: u16, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        let s = |v: u64| sx(v as u128, w) as i64;
        let (x, y) = (*x, *y);
        let r = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => s(x) < s(y),
            Pred::Sle => s(x) <= s(y),
            Pred::Sgt => s(x) > s(y),
            Pred::Sge => s(x) >= s(y),
        };
        return Val::I(r as u64);
    }
    if let (Val::A(x), Val::A(y)) = (a, b) {
        return Val::A(Rc::new(x.iter().zip(y.iter()).map(|(c, d)| cmp(p, w, c, d)).collect()));
    }
    let (x, y) = (ex(a, w), ex(b, w));
    val(match p {
        Pred::Eq => eq(x, y),
        Pred::Ne => not(eq(x, y)),
        Pred::Ult => ult(x, y),
        Pred::Ule => not(ult(y, x)),
        Pred::Ugt => ult(y, x),
        Pred::Uge => not(ult(x, y)),
        Pred::Slt => slt(x, y),
        Pred::Sle => not(slt(y, x)),
        Pred::Sgt => slt(y, x),
        Pred::Sge => not(slt(x, y)),
    })
}
fn map1(a: &Val, f: &dyn Fn(&Val) -> Val) -> Val {
    match a {
        Val::A(x) => Val::A(Rc::new(x.iter().map(|v| map1(v, f)).collect())),
        v => f(v),
    }
}
fn select(c: E, a: &Val, b: &Val, ty: &Ty) -> Val {
    match (a, b) {
        (Val::A(x), Val::A(y)) => Val::A(Rc::new(
            x.iter()
                .zip(y.iter())
                .enumerate()
                .map(|(i, (p, q))| {
                    let t = match ty {
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        Ty::Struct(f, _) => f[i].clone(),
                        _ => unreachable!(),
                    };
                    select(c, p, q, &t)
                })
                .collect(),
        )),
        _ => {
            let w = ty.bits();
            val(ite(c, ex(a, w), ex(b, w)))
        }
    }
}
fn extract_path(v: &Val, path: &[u32]) -> Val {
    let mut c = v.clone();
    for p in path {
        c = match c {
            Val::A(x) => x[*p as usize].clone(),
            _ => panic!("extractvalue"),
        };
    }
    c
}
fn insert_path(v: &Val, path: &[u32], n: &Val) -> Val {
    match v {
        Val::A(x) => {
            let mut y: Vec<Val> = (**x).clone();
            y[path[0] as usize] = if path.len() == 1 { n.clone() } else { insert_path(&y[path[0] as usize], &path[1..], n) };
            Val::A(Rc::new(y))
        }
        _ => panic!("insertvalue"),
    }
}

impl Exec {
    pub fn initial(&mut self, entry: &str) -> Option<State> {
        let id = *self.m.fnmap.get(entry.as_bytes())?;
        let mut st = State {
            frames: vec![],
            mem: Mem::new(),
            pc: vec![],
            model: Rc::new(Model::new(vec![])),
            nsym: 0,
            obs: vec![],
            obs_hash: 0xcbf29ce484222325,
            steps: 0,
            clock: 1_000_000_000_000,
            errno: 0,
            tls: vec![],
            exc: 0,
            covers: 0,
            limit: self.lim.alloc,
            depth: 0,
            guard: 0,
        };
        st.errno = st.mem.alloc(8);
        self.push_frame(&mut st, id, vec![]);
        Some(st)
    }

    fn push_frame(&mut self, st: &mut State, id: u32, args: Vec<Val>) {
        let f = self.m.func(id);
        let mut regs = args;
        regs.truncate(f.nargs);
        regs.resize(f.nregs, Val::I(0));
        st.mem.stack.push(if f.frame > 0 { Some(Rc::new(Obj::new(f.frame as usize))) } else { None });
        st.frames.push(Rc::new(Frame { f, regs, blk: 0, idx: 0 }));
    }

    pub fn run_all(&mut self, split: &mut dyn FnMut(&mut Exec)) {
        while let Some(st) = self.work.pop() {
            if (self.stop)() {
                self.work.clear();
                return;
            }
            if std::time::Instant::now() > self.lim.deadline {
                self.problem("deadline reached before the exploration finished");
                self.work.clear();
                return;
            }
            self.run(st);
            split(self);
        }
    }
    fn problem(&mut self, s: &str) {
        *self.problems.entry(s.to_string()).or_insert(0) += 1;
    }

    fn input(&self, st: &State) -> Vec<u8> {
        (0..st.nsym as usize).map(|i| st.model.v.get(i).copied().unwrap_or(0)).collect()
    }

    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for fr in st.frames.iter().rev().take(24) {
            let d = fr.f.blocks[fr.blk as usize].dbg.get(fr.idx as usize).copied().unwrap_or(0);
            let name = self.m.sub(fr.f.sub).map(|x| x.0).unwrap_or_else(|| fr.f.name.clone());
            let mut d2 = d;
            let mut locs = vec![];
            while let Some((f, l)) = self.m.loc(d2) {
                locs.push(format!("{f}:{l}"));
                match self.m.inlined_at(d2) {
                    Some(x) => d2 = x,
                    None => break,
                }
            }
            v.push(format!("{name} [{}]", locs.join(" < ")));
        }
        v
    }

    fn finish(&mut self, st: State, t: Term) {
        let (kind, msg) = match t {
            Term::Done => ("ok", String::new()),
            Term::Infeasible => ("assume", String::new()),
            Term::Viol(k, m) => (k, m),
            Term::Problem(m) => ("problem", m),
        };
        *self.npaths.entry(kind.to_string()).or_insert(0) += 1;
 
        if kind == "assume" {
            return;
        }
        let mut h = st.obs_hash;
        for (v, w) in &st.obs {
            let x = match v {
                Val::I(x) => *x,
                Val::E(e) => eval(*e, st.model.id, &st.model.v) as u64,
                _ => 0,
            };
            let _ = w;
            h = fnv(h, x);
        }
        let trace = if kind == "ok" { vec![] } else { self.trace(&st) };
        let rec = PathRec { kind: kind.into(), msg: msg.clone(), input: self.input(&st), hash: h, steps: st.steps, covers: st.covers, trace };
        match kind {
            "ok" => {
                self.covers |= st.covers;
                if self.paths.len() < self.lim.keep {
                    self.paths.push(rec);
                }
            }
            "problem" => {
                let t = rec.trace.iter().take(14).cloned().collect::<Vec<_>>().join(" <- ");
                self.problem(&format!("{msg} at {t}"));
            }
            _ => {
                self.covers |= st.covers;
                self.viol.push(rec);
                let l = format!("{kind}:{msg}");
                if !self.ignore.iter().any(|i| l.contains(i.as_str())) {
                    (self.on_violation)();
                }
            }
        }
    }

    fn assign(&self, st: &mut State, vals: &[(u32, u8)]) {
        let mut v = st.model.v.clone();
        if v.len() < st.nsym as usize {
            v.resize(st.nsym as usize, 0);
        }
        for (i, x) in vals {
            v[*i as usize] = *x;
        }
        st.model = Rc::new(Model::new(v));
    }
    fn evalm(&self, st: &State, e: E) -> u128 {
        eval(e, st.model.id, &st.model.v)
    }

    /// Is `pc ∧ c` satisfiable? Some(assignment) if so.
    fn sat(&mut self, st: &State, c: E, assert: bool) -> R<Option<Vec<(u32, u8)>>> {
        if !assert && self.profile {
            let site = self.trace(st).first().cloned().unwrap_or_default();
            *self.sites.entry(site).or_insert(0) += 1;
        }
        let n = self.sol.st.z3;
        let r = self.sol.check(&st.pc, c, assert);
        if self.sol.st.z3 != n && std::time::Instant::now() > self.lim.deadline {
            return Err(Term::Problem("deadline reached before the exploration finished".into()));
        }
        match r {
            Res::Sat(v) => Ok(Some(v)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Term::Problem("solver gave no answer".into())),
        }
    }

    /// Pick the value of `v` under the current model; other feasible values are explored by a fork
    /// that re-executes the current instruction.
    fn conc(&mut self, st: &mut State, v: &Val, w: u16) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::E(e) => {
                let x = self.evalm(st, *e);
                let is = eq(*e, cst(w, x));
                let other = not(is);
                if let Some(m) = self.sat(st, other, false)? {
                    let mut n = st.clone();
                    n.pc.push(other);
                    n.guard += 1;
                    if n.guard > self.lim.enum_max {
                        return Err(Term::Problem(format!("more than {} values of a concretised expression", self.lim.enum_max)));
                    }
                    self.assign(&mut n, &m);
                    self.forks += 1;
                    self.work.push(n);
                    st.pc.push(is);
                }
                st.guard = 0;
                Ok(x as u64)
            }
            _ => Err(Term::Problem("wide or aggregate address".into())),
        }
    }

    /// fork on a boolean; returns the value taken by the current state
    fn decide(&mut self, st: &mut State, c: E, alt: &mut dyn FnMut(&mut Exec, State)) -> R<bool> {
        let v = self.evalm(st, c) == 1;
        let other = if v { not(c) } else { c };
        if let Some(m) = self.sat(st, other, false)? {
            let mut n = st.clone();
            n.pc.push(other);
            n.depth += 1;
            self.assign(&mut n, &m);
            self.forks += 1;
            alt(self, n);
            st.pc.push(not(other));
            st.depth += 1;
        }
        Ok(v)
    }

    fn edge(&self, st: &mut State, e: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let ed = &f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => {
                let v = get(fr, &ed.moves[0].1).clone();
                fr.regs[ed.moves[0].0 as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = ed.moves.iter().map(|(_, o)| get(fr, o).clone()).collect();
                for (k, v) in vals.into_iter().enumerate() {
                    fr.regs[ed.moves[k].0 as usize] = v;
                }
            }
        }
        fr.blk = ed.to;
        fr.idx = 0;
    }

    pub fn run(&mut self, mut st: State) {
        let s0 = st.steps;
        let t = loop {
            // what the executor itself cannot represent is a path without an answer
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.block(&mut st))).unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                Err(Term::Problem(format!("the executor failed: {}", m.unwrap_or_default())))
            });
            match r {
                Ok(Ctl::Term(t)) => break t,
                Err(t) => break t,
                Ok(_) => {}
            }
            if st.steps > self.lim.steps {
                break Term::Viol("hang", format!("more than {} instructions on one path", self.lim.steps));
            }
            if st.steps & 0xfffff < 64 && std::time::Instant::now() > self.lim.deadline {
                break Term::Problem("deadline reached before the exploration finished".into());
            }
        };
        self.steps += st.steps - s0;
        self.finish(st, t);
    }

    /// execute instructions of the top frame until control leaves the straight line
    fn block(&mut self, st: &mut State) -> R<Ctl> {
        let f = st.frames.last().unwrap().f.clone();
        let (blk, mut idx) = {
            let fr = st.frames.last().unwrap();
            (fr.blk, fr.idx)
        };
        let b = &f.blocks[blk as usize];
        b.hit.set(true);
        loop {
            st.steps += 1;
            let inst = &b.insts[idx as usize];
            // remember where we are, for forks, calls and traces
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.idx = idx;
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    Rc::make_mut(st.frames.last_mut().unwrap()).regs[*$d as usize] = v;
                }};
            }
            match inst {
                Inst::Bin { d, op, w, a, b } => {
                    let v = bop(*op, *w, get(fr, a), get(fr, b));
                    fr.regs[*d as usize] = v;
                }
                Inst::Cmp { d, p, w, a, b } => {
                    let v = cmp(*p, *w, get(fr, a), get(fr, b));
                    fr.regs[*d as usize] = v;
                }
                Inst::Float { d, op, fw, w, a, b } => {
                    let (x, y) = (get(fr, a).clone(), b.as_ref().map(|b| get(fr, b).clone()));
                    let x = self.conc(st, &x, *fw)?;
                    let y = match y {
                        Some(y) => self.conc(st, &y, *fw)?,
                        None => 0,
                    };
                    let v = match float(op, *fw, *w, x, y) {
                        Some(v) => Val::I(v),
                        None => return Err(Term::Problem(format!("unsupported instruction {op}"))),
                    };
                    set!(d, v);
                }
                Inst::Trunc { d, fw, w, a } => {
                    let v = match get(fr, a) {
                        Val::I(x) => Val::I(x & mask(*w) as u64),
                        a => map1(a, &|v| val(trunc(ex(v, *fw), *w))),
                    };
                    fr.regs[*d as usize] = v;
                }
                Inst::ZExt { d, fw, w, a } => {
                    let v = match get(fr, a) {
                        Val::I(x) if *w <= 64 => Val::I(*x),
                        a => map1(a, &|v| val(zext(ex(v, *fw), *w))),
                    };
                    fr.regs[*d as usize] = v;
                }
                Inst::SExt { d, fw, w, a } => {
                    let v = map1(get(fr, a), &|v| val(sext(ex(v, *fw), *w)));
                    fr.regs[*d as usize] = v;
                }
                Inst::Mov { d, a } => {
                    let v = get(fr, a).clone();
                    fr.regs[*d as usize] = v;
                }
                Inst::BitCast { d, from, to, a } => {
                    let v = get(fr, a).clone();
                    let v = bitcast(&v, from, to);
                    fr.regs[*d as usize] = v;
                }
                Inst::Gep { d, p, off, idx: ix } => {
                    let v = match (get(fr, p), ix.len()) {
                        (Val::I(b), 0) => Val::I(b.wrapping_add(*off)),
                        (pv, _) => {
                            let mut conc = true;
                            let mut acc = *off;
                            match pv {
                                Val::I(b) => acc = acc.wrapping_add(*b),
                                _ => conc = false,
                            }
                            if conc {
                                for (o, w, s) in ix {
                                    match get(fr, o) {
                                        Val::I(x) => acc = acc.wrapping_add((sx(*x as u128, *w) as u64).wrapping_mul(*s)),
                                        _ => {
                                            conc = false;
                                            break;
                                        }
                                    }
                                }
                            }
                            if conc {
                                Val::I(acc)
                            } else {
                                let mut e = add(ex(pv, 64), cst(64, *off as u128));
                                for (o, w, s) in ix {
                                    let x = sext(ex(get(fr, o), *w), 64);
                                    e = add(e, mul(x, cst(64, *s as u128)));
                                }
                                val(e)
                            }
                        }
                    };
                    fr.regs[*d as usize] = v;
                }
                Inst::Alloca { d, off } => {
                    let depth = st.mem.stack.len() as u64 - 1;
                    fr.regs[*d as usize] = Val::I((STACK_BASE as u64 + depth) << 32 | off);
                }
                Inst::Load { d, ty, p } => {
                    let v = match get(fr, p) {
                        Val::I(a) => {
                            let a = *a;
                            self.load(st, a, ty)?
                        }
                        Val::E(e) => {
                            let e = *e;
                            self.load_sym(st, e, ty)?
                        }
                        _ => return Err(Term::Problem("load address".into())),
                    };
                    set!(d, v);
                }
                Inst::Store { ty, v, p } => {
                    let v = get(fr, v).clone();
                    let p = get(fr, p).clone();
                    let a = self.conc(st, &p, 64)?;
                    self.store(st, a, ty, &v)?;
                }
                Inst::Select { d, c, a, b, ty, vec } => {
                    let cv = get(fr, c);
                    let v = if *vec {
                        match (cv, get(fr, a), get(fr, b)) {
                            (Val::A(c), Val::A(x), Val::A(y)) => {
                                let t = match ty {
                                    Ty::Vec(_, t) => t,
                                    _ => unreachable!(),
                                };
                                Val::A(Rc::new((0..c.len()).map(|i| select(ex(&c[i], 1), &x[i], &y[i], t)).collect()))
                            }
                            _ => return Err(Term::Problem("vector select".into())),
                        }
                    } else {
                        match cv {
                            Val::I(1) => get(fr, a).clone(),
                            Val::I(_) => get(fr, b).clone(),
                            Val::E(e) => select(*e, get(fr, a), get(fr, b), ty),
                            _ => return Err(Term::Problem("select".into())),
                        }
                    };
                    fr.regs[*d as usize] = v;
                }
                Inst::Extract { d, a, path } => {
                    let v = extract_path(get(fr, a), path);
                    fr.regs[*d as usize] = v;
                }
                Inst::Insert { d, a, v, path } => {
                    let v = insert_path(get(fr, a), path, get(fr, v));
                    fr.regs[*d as usize] = v;
                }
                Inst::ExtElem { d, a, i } => {
                    let (a, i) = (get(fr, a).clone(), get(fr, i).clone());
                    let i = self.conc(st, &i, 64)?;
                    match a {
                        Val::A(x) => set!(d, x[i as usize].clone()),
                        _ => return Err(Term::Problem("extractelement".into())),
                    }
                }
                Inst::InsElem { d, a, v, i } => {
                    let (a, v, i) = (get(fr, a).clone(), get(fr, v).clone(), get(fr, i).clone());
                    let i = self.conc(st, &i, 64)?;
                    set!(d, insert_path(&a, &[i as u32], &v));
                }
                Inst::Shuffle { d, a, b, n, m, .. } => match (get(fr, a), get(fr, b)) {
                    (Val::A(x), Val::A(y)) => {
                        let v = m.iter().map(|&k| if (k as u64) < *n { x[k as usize].clone() } else { y[k as usize - *n as usize].clone() }).collect();
                        fr.regs[*d as usize] = Val::A(Rc::new(v));
                    }
                    _ => return Err(Term::Problem("shufflevector".into())),
                },
                Inst::CmpXchg { d, w, p, old, new } => {
                    let (p, old, new) = (get(fr, p).clone(), get(fr, old).clone(), get(fr, new).clone());
                    let a = self.conc(st, &p, 64)?;
                    let n = (*w as usize).div_ceil(8);
                    let cur = {
                        let (o, off) = st.mem.get(&self.m, &mut self.g, a, n)?;
                        o.load(off, *w)
                    };
                    let same = cmp(Pred::Eq, *w, &cur, &old);
                    let same = match same {
                        Val::I(x) => x,
                        v => self.conc(st, &v, 1)?,
                    };
                    if same == 1 {
                        let (o, off) = st.mem.get_mut(&self.m, &mut self.g, a, n)?;
                        o.store(off, *w, &new);
                    }
                    set!(d, Val::A(Rc::new(vec![cur, Val::I(same)])));
                }
                Inst::AtomicRmw { d, op, w, p, v } => {
                    let (p, v) = (get(fr, p).clone(), get(fr, v).clone());
                    let a = self.conc(st, &p, 64)?;
                    let n = (*w as usize).div_ceil(8);
                    let (o, off) = st.mem.get_mut(&self.m, &mut self.g, a, n)?;
                    let cur = o.load(off, *w);
                    let new = match op {
                        Rmw::Xchg => v,
                        Rmw::Add => bop(Bop::Add, *w, &cur, &v),
                        Rmw::Sub => bop(Bop::Sub, *w, &cur, &v),
                        Rmw::And => bop(Bop::And, *w, &cur, &v),
                        Rmw::Or => bop(Bop::Or, *w, &cur, &v),
                        Rmw::Xor => bop(Bop::Xor, *w, &cur, &v),
                        _ => {
                            let (x, y) = (ex(&cur, *w), ex(&v, *w));
                            val(match op {
                                Rmw::Nand => not(and(x, y)),
                                Rmw::UMax => ite(ult(x, y), y, x),
                                Rmw::UMin => ite(ult(x, y), x, y),
                                Rmw::Max => ite(slt(x, y), y, x),
                                _ => ite(slt(x, y), x, y),
                            })
                        }
                    };
                    o.store(off, *w, &new);
                    set!(d, cur);
                }
                Inst::Nop => {}
                Inst::Br { e } => {
                    self.edge(st, *e);
                    return Ok(Ctl::Jump);
                }
                Inst::CondBr { c, t, f: fe } => {
                    let e = match get(fr, c) {
                        Val::I(1) => *t,
                        Val::I(_) => *fe,
                        Val::E(c) => {
                            let c = *c;
                            let (t, fe) = (*t, *fe);
                            let v = self.evalm(st, c) == 1;
                            let alt = if v { fe } else { t };
                            let r = self.decide(st, c, &mut |x, mut n| {
                                x.edge(&mut n, alt);
                                x.work.push(n);
                            })?;
                            if r {
                                t
                            } else {
                                fe
                            }
                        }
                        _ => return Err(Term::Problem("branch".into())),
                    };
                    self.edge(st, e);
                    return Ok(Ctl::Jump);
                }
                Inst::Switch { v, w, def, cases } => {
                    let e = match get(fr, v) {
                        Val::I(x) => cases.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*def),
                        Val::E(e) => {
                            let e = *e;
                            let x = self.evalm(st, e) as u64;
                            let cur = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                            // condition per edge
                            let mut conds: Vec<(u32, E)> = vec![];
                            let mut none = tru();
                            for (k, ed) in cases {
                                let c = eq(e, cst(*w, *k as u128));
                                none = and(none, not(c));
                                match conds.iter_mut().find(|x| x.0 == *ed) {
                                    Some(p) => p.1 = or(p.1, c),
                                    None => conds.push((*ed, c)),
                                }
                            }
                            match conds.iter_mut().find(|x| x.0 == *def) {
                                Some(p) => p.1 = or(p.1, none),
                                None => conds.push((*def, none)),
                            }
                            let mut forked = false;
                            let mut mine = tru();
                            for (ed, c) in conds {
                                if ed == cur {
                                    mine = c;
                                    continue;
                                }
                                if let Some(m) = self.sat(st, c, false)? {
                                    let mut n = st.clone();
                                    n.pc.push(c);
                                    n.depth += 1;
                                    self.assign(&mut n, &m);
                                    self.edge(&mut n, ed);
                                    self.work.push(n);
                                    self.forks += 1;
                                    forked = true;
                                }
                            }
                            if forked {
                                st.pc.push(mine);
                                st.depth += 1;
                            }
                            cur
                        }
                        _ => return Err(Term::Problem("switch".into())),
                    };
                    self.edge(st, e);
                    return Ok(Ctl::Jump);
                }
                Inst::Ret { v } => {
                    let r = v.as_ref().map(|v| get(fr, v).clone());
                    st.frames.pop();
                    st.mem.stack.pop();
                    if st.frames.is_empty() {
                        return Ok(Ctl::Term(Term::Done));
                    }
                    self.ret(st, r);
                    return Ok(Ctl::Jump);
                }
                Inst::Unreachable => return Err(Term::Viol("ub", "reached an unreachable instruction".into())),
                Inst::Landing { d } => {
                    // which clause applies makes no difference to Rust's landing pads
                    let v = Val::A(Rc::new(vec![Val::I(st.exc), Val::I(1)]));
                    set!(d, v);
                }
                Inst::Resume { v } => {
                    let e = match get(fr, v) {
                        Val::A(v) => v[0].clone(),
                        v => v.clone(),
                    };
                    st.exc = self.conc(st, &e, 64)?;
                    st.frames.pop();
                    st.mem.stack.pop();
                    self.unwind(st)?;
                    return Ok(Ctl::Jump);
                }
                Inst::Unsupported(s) => return Err(Term::Problem(format!("unsupported instruction {s}"))),
                Inst::Call { f: callee, args, d, then, rw, .. } => {
                    match callee {
                        Callee::Asm(s) => {
                            if s.contains("cpuid") || s.contains("xgetbv") {
                                let z = match rw {
                                    Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|_| Val::I(0)).collect())),
                                    _ => Val::I(0),
                                };
                                fr.regs[*d as usize] = z;
                            } else if !s.trim().is_empty() && !s.contains("pause") {
                                return Err(Term::Problem(format!("inline asm {s}")));
                            } else if *d != u32::MAX {
                                return Err(Term::Problem(format!("inline asm {s}")));
                            }
                        }
                        _ => {
                            let id = match callee {
                                Callee::Fn(id) => *id,
                                Callee::Reg(o) => {
                                    let v = get(fr, o).clone();
                                    let a = self.conc(st, &v, 64)?;
                                    let k = (a >> 32) as u32;
                                    if !(FN_BASE..STACK_BASE).contains(&k) || a as u32 != 0 || (k - FN_BASE) as usize >= self.m.funcs.len() {
                                        return Err(Term::Viol("memory", format!("call of invalid function pointer {a:#x}")));
                                    }
                                    k - FN_BASE
                                }
                                _ => unreachable!(),
                            };
                            let fr = st.frames.last().unwrap();
                            let argv: Vec<Val> = args.iter().map(|a| get(fr, &a.0).clone()).collect();
                            match self.call(st, id, argv, args, rw)? {
                                None => return Ok(Ctl::Jump),
                                Some(r) => {
                                    if *d != u32::MAX {
                                        set!(d, r);
                                    }
                                    if let Some(e) = then {
                                        self.edge(st, *e);
                                        return Ok(Ctl::Jump);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            idx += 1;
        }
    }

    /// leave frames until one whose call has a landing pad, and go there
    fn unwind(&mut self, st: &mut State) -> R<()> {
        while let Some(fr) = st.frames.last() {
            if let Inst::Call { pad: Some(e), .. } = &fr.f.blocks[fr.blk as usize].insts[fr.idx as usize] {
                let e = *e;
                self.edge(st, e);
                return Ok(());
            }
            st.frames.pop();
            st.mem.stack.pop();
        }
        Err(Term::Viol("panic", "a panic left the entry".into()))
    }

    /// finish the call instruction of the (now top) frame
    fn ret(&mut self, st: &mut State, r: Option<Val>) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        match &f.blocks[fr.blk as usize].insts[fr.idx as usize] {
            Inst::Call { d, then, .. } => {
                if *d != u32::MAX {
                    fr.regs[*d as usize] = r.unwrap_or(Val::I(0));
                }
                match then {
                    Some(e) => self.edge(st, *e),
                    None => fr.idx += 1,
                }
            }
            _ => panic!("return to a non-call"),
        }
    }

    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                let (o, off) = st.mem.get(&self.m, &mut self.g, a, (*w as usize).div_ceil(8))?;
                Ok(o.load(off, *w))
            }
            Ty::Ptr => {
                let (o, off) = st.mem.get(&self.m, &mut self.g, a, 8)?;
                Ok(o.load(off, 64))
            }
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                // packed, as one integer
                let it = Ty::Int((*n * t.bits() as u64) as u16);
                let v = self.load(st, a, &it)?;
                Ok(bitcast(&v, &it, ty))
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let sz = t.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, a + i * sz, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let (_, offs) = ty.layout();
                let mut v = vec![];
                for (t, o) in f.iter().zip(offs) {
                    v.push(self.load(st, a + o, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Term::Problem("load type".into())),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Int(_), _) | (Ty::Ptr, _) => {
                let w = ty.bits();
                let (o, off) = st.mem.get_mut(&self.m, &mut self.g, a, (w as usize).div_ceil(8))?;
                o.store(off, w, v);
                Ok(())
            }
            (Ty::Vec(n, t), Val::A(_)) if t.bits() % 8 != 0 => {
                let it = Ty::Int((*n * t.bits() as u64) as u16);
                let v = bitcast(v, ty, &it);
                self.store(st, a, &it, &v)
            }
            (Ty::Arr(_, t), Val::A(x)) | (Ty::Vec(_, t), Val::A(x)) => {
                let sz = t.size();
                for (i, v) in x.iter().enumerate() {
                    self.store(st, a + i as u64 * sz, t, v)?;
                }
                Ok(())
            }
            (Ty::Struct(f, _), Val::A(x)) => {
                let (_, offs) = ty.layout();
                for (i, v) in x.iter().enumerate() {
                    self.store(st, a + offs[i], &f[i], v)?;
                }
                Ok(())
            }
            _ => Err(Term::Problem("store type".into())),
        }
    }

    /// load through a symbolic address: constant tables become if-then-else terms, everything else forks
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> R<Val> {
        let w = match ty {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        };
        let a0 = self.evalm(st, e) as u64;
        let id = (a0 >> 32) as u32;
        let is_const_obj = id >= 1 && id < FN_BASE && self.m.globals.get(id as usize - 1).is_some_and(|g| g.constant);
        if w != 0 && is_const_obj {
            let n = (w as usize).div_ceil(8);
            let size = match st.mem.get(&self.m, &mut self.g, a0, n) {
                Ok((o, _)) => o.b.len() as u64,
                Err(x) => return Err(x.into()),
            };
            let base = (id as u64) << 32;
            // everything in bounds?
            let rel = sub(e, cst(64, base as u128));
            let oob = not(ult(rel, cst(64, (size - n as u64 + 1) as u128)));
            let inside = self.sat(st, oob, false)?.is_none();
            if inside && size <= 4096 {
                let mut pts: Vec<(u64, u64)> = vec![]; // key, address
                let key;
                if let Some(v) = single_var(e) {
                    // all values of the one byte the address depends on
                    key = var(v);
                    let mut m = st.model.v.clone();
                    if m.len() <= v as usize {
                        m.resize(v as usize + 1, 0);
                    }
                    for x in 0..256u64 {
                        m[v as usize] = x as u8;
                        let a = eval(e, Model::fresh_id(), &m) as u64;
                        if a >= base && a + n as u64 <= base + size {
                            pts.push((x, a));
                        }
                    }
                } else {
                    key = e;
                    let mut blocked = tru();
                    let mut cur = Some(a0);
                    while let Some(a) = cur {
                        pts.push((a, a));
                        blocked = and(blocked, not(eq(e, cst(64, a as u128))));
                        if pts.len() > 300 {
                            break;
                        }
                        cur = match self.sat(st, blocked, false)? {
                            Some(m) => {
                                let mut n = st.clone();
                                self.assign(&mut n, &m);
                                Some(self.evalm(&n, e) as u64)
                            }
                            None => None,
                        };
                    }
                    pts.sort();
                }
                if pts.len() <= 300 {
                    let kw = width(key);
                    let mut runs: Vec<(u64, Val)> = vec![];
                    for (k, a) in pts {
                        let v = self.load(st, a, ty)?;
                        let same = match (runs.last(), &v) {
                            (Some((_, Val::I(p))), Val::I(q)) => p == q,
                            _ => false,
                        };
                        if !same {
                            runs.push((k, v));
                        }
                    }
                    let mut it = runs.into_iter().rev();
                    let (mut lo, v) = it.next().unwrap();
                    let mut r = ex(&v, w);
                    for (k, v) in it {
                        r = ite(ult(key, cst(kw, lo as u128)), ex(&v, w), r);
                        lo = k;
                    }
                    return Ok(val(r));
                }
            }
        }
        let a = self.conc(st, &Val::E(e), 64)?;
        self.load(st, a, ty)
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (b, s) = {
            let (o, off) = st.mem.get(&self.m, &mut self.g, src, n)?;
            (o.b[off..off + n].to_vec(), if o.is_sym(off, n) { o.s[off..off + n].to_vec() } else { vec![] })
        };
        let (o, off) = st.mem.get_mut(&self.m, &mut self.g, dst, n)?;
        o.b[off..off + n].copy_from_slice(&b);
        if !s.is_empty() {
            o.sym();
            o.s[off..off + n].copy_from_slice(&s);
        } else if !o.s.is_empty() {
            o.s[off..off + n].fill(0);
        }
        Ok(())
    }

    fn bytes(&mut self, st: &State, a: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = st.mem.get(&self.m, &mut self.g, a, n)?;
        Ok(o.b[off..off + n].to_vec())
    }
    fn cstring(&mut self, st: &State, a: u64, n: usize) -> String {
        match self.bytes(st, a, n) {
            Ok(b) => String::from_utf8_lossy(&b).into(),
            Err(_) => "?".into(),
        }
    }
    fn poke(&mut self, st: &mut State, a: u64, w: u16, v: u64) -> R<()> {
        let (o, off) = st.mem.get_mut(&self.m, &mut self.g, a, w as usize / 8)?;
        o.store(off, w, &Val::I(v));
        Ok(())
    }
    fn peek(&mut self, st: &mut State, a: u64, w: u16) -> R<u64> {
        let v = {
            let (o, off) = st.mem.get(&self.m, &mut self.g, a, w as usize / 8)?;
            o.load(off, w)
        };
        self.conc(st, &v, w)
    }

    fn malloc(&mut self, st: &mut State, n: &Val) -> R<u64> {
        if let Val::E(e) = n {
            let e = *e;
            let big = ult(cst(64, st.limit as u128), e);
            if let Some(m) = self.sat(st, big, true)? {
                let mut k = st.clone();
                k.pc.push(big);
                self.assign(&mut k, &m);
                self.forks += 1;
                let sz = self.evalm(&k, e);
                self.finish(k, Term::Viol("alloc", format!("allocation of {sz} bytes controlled by the input")));
                let small = not(big);
                match self.sat(st, small, false)? {
                    Some(m) => {
                        st.pc.push(small);
                        self.assign(st, &m);
                    }
                    None => return Err(Term::Infeasible),
                }
            }
        }
        let v = self.conc(st, n, 64)?;
        if v > st.limit {
            return Err(Term::Viol("alloc", format!("allocation of {v} bytes")));
        }
        Ok(st.mem.alloc(v as usize))
    }

    /// None: a frame was pushed; Some(v): the call is complete
    fn call(&mut self, st: &mut State, id: u32, a: Vec<Val>, args: &[(Opd, Ty)], rw: &Ty) -> R<Option<Val>> {
        let code = self.m.funcs[id as usize].intr.get();
        if code == 1 {
            if st.frames.len() > 3000 {
                return Err(Term::Viol("stack", "more than 3000 nested calls".into()));
            }
            self.push_frame(st, id, a);
            return Ok(None);
        }
        let name = self.m.funcs[id as usize].name.clone();
        let has_body = self.m.funcs[id as usize].body.is_some();
        if code >= 16 {
            self.push_frame(st, code - 16, a);
            return Ok(None);
        }
        if code == 0 {
            // the operating system as the harness models it
            let w = format!("__wrap_{name}");
            if let Some(k) = self.m.fnmap.get(w.as_bytes()).copied().filter(|_| !has_body) {
                self.m.funcs[id as usize].intr.set(16 + k);
                self.push_frame(st, k, a);
                return Ok(None);
            }
            let special = !has_body || intercepted(&name);
            self.m.funcs[id as usize].intr.set(if special { 2 } else { 1 });
            if !special {
                self.push_frame(st, id, a);
                return Ok(None);
            }
        }
        if name == "_Unwind_RaiseException" {
            st.exc = self.conc(st, &a[0], 64)?;
            self.unwind(st)?;
            return Ok(None);
        }
        if default_finish(&name) {
            // a hasher without keys (k0 and k1 zero) is no map's: its result is looked at
            if let Some(p) = a.first() {
                let p = self.conc(st, p, 64)?;
                if self.peek(st, p + 32, 64)? == 0 && self.peek(st, p + 40, 64)? == 0 {
                    self.push_frame(st, id, a);
                    return Ok(None);
                }
            }
        }
        if !name.starts_with("llvm.") && !name.starts_with("vp_") {
            self.intercepted.insert(name.clone());
        }
        self.intrinsic(st, name.strip_prefix("__real_").unwrap_or(&name), a, args, rw).map(Some)
    }

    fn panic_loc(&mut self, st: &mut State, loc: &Val) -> String {
        let a = match loc {
            Val::I(a) => *a,
            _ => return "?".into(),
        };
        let r: R<String> = (|| {
            let p = self.peek(st, a, 64)?;
            let n = self.peek(st, a + 8, 64)?;
            let line = self.peek(st, a + 16, 32)?;
            let f = self.cstring(st, p, (n as usize).saturating_sub(0).min(200));
            Ok(format!("{}:{line}", f.trim_end_matches('\0')))
        })();
        r.unwrap_or("?".into())
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: Vec<Val>, args: &[(Opd, Ty)], _rw: &Ty) -> R<Val> {
        let unit = Val::I(0);
        let wof = |i: usize| -> u16 {
            match &args[i].1 {
                Ty::Int(w) => *w,
                Ty::Ptr => 64,
                Ty::Vec(_, t) => t.bits(),
                _ => 64,
            }
        };
        if let Some(n) = name.strip_prefix("llvm.") {
            let key = n.split('.').next().unwrap_or("");
            match key {
                "memcpy" | "memmove" => {
                    let len = self.conc(st, &a[2], 64)?;
                    let d = self.conc(st, &a[0], 64)?;
                    let s = self.conc(st, &a[1], 64)?;
                    self.copy(st, d, s, len as usize)?;
                    return Ok(unit);
                }
                "memset" => {
                    let len = self.conc(st, &a[2], 64)? as usize;
                    let d = self.conc(st, &a[0], 64)?;
                    if len == 0 {
                        return Ok(unit);
                    }
                    let (o, off) = st.mem.get_mut(&self.m, &mut self.g, d, len)?;
                    match &a[1] {
                        Val::I(x) => {
                            o.b[off..off + len].fill(*x as u8);
                            if !o.s.is_empty() {
                                o.s[off..off + len].fill(0);
                            }
                        }
                        v => {
                            let e = ex(v, 8);
                            for k in 0..len {
                                o.set_byte(off + k, e);
                            }
                        }
                    }
                    return Ok(unit);
                }
                "umin" | "umax" | "smin" | "smax" | "scmp" | "ucmp" | "usub" | "uadd" | "sadd" | "ssub" | "umul" | "smul" | "fshl" | "fshr" | "cttz" | "ctlz" | "ctpop" | "bswap" | "bitreverse" | "abs" => {
                    if let Val::A(x) = &a[0] {
                        let y = match a.get(1) {
                            Some(Val::A(y)) => Some(y.clone()),
                            _ => None,
                        };
                        let w = wof(0);
                        let v = x
                            .iter()
                            .enumerate()
                            .map(|(i, p)| arith(n, w, p, y.as_ref().map(|y| &y[i]), None))
                            .collect::<Option<Vec<_>>>();
                        return match v {
                            Some(v) => Ok(Val::A(Rc::new(v))),
                            None => Err(Term::Problem(format!("intrinsic {name}"))),
                        };
                    }
                    return arith(n, wof(0), &a[0], a.get(1), a.get(2)).ok_or_else(|| Term::Problem(format!("intrinsic {name}")));
                }
                "fabs" | "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "sqrt" | "copysign" | "minnum" | "maxnum" => {
                    let w = wof(0);
                    let x = self.conc(st, &a[0], w)?;
                    let y = match a.get(1) {
                        Some(y) => self.conc(st, y, w)?,
                        None => 0,
                    };
                    return float(key, w, w, x, y).map(Val::I).ok_or_else(|| Term::Problem(format!("intrinsic {name}")));
                }
                "fptoui" | "fptosi" => {
                    let fw = wof(0);
                    let x = self.conc(st, &a[0], fw)?;
                    let w = n.split('.').nth(2).and_then(|t| t.strip_prefix('i')).and_then(|t| t.parse().ok()).unwrap_or(0);
                    return float(key, fw, w, x, 0).map(Val::I).ok_or_else(|| Term::Problem(format!("intrinsic {name}")));
                }
                "is" => return Ok(Val::I(0)),
                "threadlocal" => return Ok(a[0].clone()),
                "expect" => return Ok(a[0].clone()),
                "trap" => return Err(Term::Viol("panic", "trap".into())),
                "x86" if n.contains("pause") => return Ok(unit),
                "x86" if n.contains("xgetbv") => return Ok(Val::I(0)),
                "vector" if n.contains("reduce.or") || n.contains("reduce.and") || n.contains("reduce.add") || n.contains("reduce.umax") => {
                    if let Val::A(x) = &a[0] {
                        let w = wof(0);
                        let mut r = x[0].clone();
                        for v in &x[1..] {
                            r = if n.contains("reduce.or") {
                                bop(Bop::Or, w, &r, v)
                            } else if n.contains("reduce.and") {
                                bop(Bop::And, w, &r, v)
                            } else if n.contains("reduce.add") {
                                bop(Bop::Add, w, &r, v)
                            } else {
                                arith("umax", w, &r, Some(v), None).unwrap()
                            };
                        }
                        return Ok(r);
                    }
                    return Err(Term::Problem(format!("intrinsic {name}")));
                }
                _ => return Err(Term::Problem(format!("intrinsic {name}"))),
            }
        }
        match name {
            "vp_sym" => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)? as usize;
                if n == 0 {
                    return Ok(unit);
                }
                if st.nsym as usize + n > NVARS {
                    return Err(Term::Problem("too many symbolic bytes".into()));
                }
                let first = st.nsym;
                st.nsym += n as u32;
                let (o, off) = st.mem.get_mut(&self.m, &mut self.g, p, n)?;
                for k in 0..n {
                    o.set_byte(off + k, var(first + k as u32));
                }
                // deterministic initial values
                let mut v = st.model.v.clone();
                if v.len() < st.nsym as usize {
                    v.resize(st.nsym as usize, 0);
                    st.model = Rc::new(Model::new(v));
                }
                return Ok(unit);
            }
            "vp_assume" => {
                let c = match &a[0] {
                    Val::I(x) => {
                        return if *x == 1 { Ok(unit) } else { Err(Term::Infeasible) };
                    }
                    v => ex(v, 1),
                };
                if self.evalm(st, c) != 1 {
                    match self.sat(st, c, false)? {
                        Some(m) => self.assign(st, &m),
                        None => return Err(Term::Infeasible),
                    }
                }
                st.pc.push(c);
                return Ok(unit);
            }
            "vp_assert" => {
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let label = self.cstring(st, p, n as usize);
                *self.labels.entry(label.clone()).or_insert(0) += 1;
                match &a[0] {
                    Val::I(1) => {
                        self.sol.st.asserts += 1;
                        return Ok(unit);
                    }
                    Val::I(_) => return Err(Term::Viol("assert", label)),
                    v => {
                        let c = ex(v, 1);
                        let bad = not(c);
                        if let Some(m) = self.sat(st, bad, true)? {
                            let mut k = st.clone();
                            k.pc.push(bad);
                            self.assign(&mut k, &m);
                            self.finish(k, Term::Viol("assert", label));
                            if self.evalm(st, c) != 1 {
                                match self.sat(st, c, false)? {
                                    Some(m) => self.assign(st, &m),
                                    None => return Err(Term::Infeasible),
                                }
                            }
                            st.pc.push(c);
                        }
                        return Ok(unit);
                    }
                }
            }
            "vp_observe" => {
                st.obs.push((a[0].clone(), 64));
                if st.obs.iter().all(|o| matches!(o.0, Val::I(_))) {
                    for (v, _) in st.obs.drain(..) {
                        if let Val::I(x) = v {
                            st.obs_hash = fnv(st.obs_hash, x);
                        }
                    }
                }
                return Ok(unit);
            }
            "vp_cover" => {
                let k = self.conc(st, &a[0], 32)?;
                st.covers |= 1 << (k & 63);
                return Ok(unit);
            }
            "vp_concretize" => {
                let v = self.conc(st, &a[0], 64)?;
                return Ok(Val::I(v));
            }
            "vp_limit" => {
                let v = self.conc(st, &a[0], 64)?;
                st.limit = v.min(self.lim.alloc);
                return Ok(unit);
            }
            "vp_symbolic" => return Ok(Val::I(1)),
            "malloc" => return Ok(Val::I(self.malloc(st, &a[0])?)),
            "calloc" => {
                let n = bop(Bop::Mul, 64, &a[0], &a[1]);
                return Ok(Val::I(self.malloc(st, &n)?));
            }
            "realloc" => {
                let p = self.conc(st, &a[0], 64)?;
                let old = {
                    if p == 0 {
                        0
                    } else {
                        let (o, _) = st.mem.get(&self.m, &mut self.g, p, 0)?;
                        o.b.len()
                    }
                };
                let q = self.malloc(st, &a[1])?;
                let n = {
                    let (o, _) = st.mem.get(&self.m, &mut self.g, q, 0)?;
                    o.b.len()
                };
                self.copy(st, q, p, old.min(n))?;
                if p != 0 {
                    st.mem.free(p)?;
                }
                return Ok(Val::I(q));
            }
            "posix_memalign" => {
                let pp = self.conc(st, &a[0], 64)?;
                let q = self.malloc(st, &a[2])?;
                self.poke(st, pp, 64, q)?;
                return Ok(Val::I(0));
            }
            "aligned_alloc" => return Ok(Val::I(self.malloc(st, &a[1])?)),
            "free" => {
                let p = self.conc(st, &a[0], 64)?;
                if p != 0 {
                    st.mem.free(p)?;
                }
                return Ok(unit);
            }
            "bcmp" | "memcmp" => {
                let n = self.conc(st, &a[2], 64)? as usize;
                if n == 0 {
                    return Ok(Val::I(0));
                }
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                let get = |x: &mut Exec, st: &State, p: u64| -> R<(Vec<u8>, Vec<E>)> {
                    let (o, off) = st.mem.get(&x.m, &mut x.g, p, n)?;
                    let s = if o.is_sym(off, n) { (0..n).map(|k| o.byte(off + k)).collect() } else { vec![] };
                    Ok((o.b[off..off + n].to_vec(), s))
                };
                let (pb, ps) = get(self, st, p)?;
                let (qb, qs) = get(self, st, q)?;
                if ps.is_empty() && qs.is_empty() {
                    let r = pb.cmp(&qb) as i32;
                    return Ok(Val::I(r as u32 as u64));
                }
                let pe: Vec<E> = if ps.is_empty() { pb.iter().map(|x| cst(8, *x as u128)).collect() } else { ps };
                let qe: Vec<E> = if qs.is_empty() { qb.iter().map(|x| cst(8, *x as u128)).collect() } else { qs };
                if name == "bcmp" {
                    let mut c = tru();
                    for k in 0..n {
                        c = and(c, eq(pe[k], qe[k]));
                        if is_const(c) == Some(0) {
                            break;
                        }
                    }
                    return Ok(val(ite(c, cst(32, 0), cst(32, 1))));
                }
                let mut r = cst(32, 0);
                for k in (0..n).rev() {
                    r = ite(eq(pe[k], qe[k]), r, ite(ult(pe[k], qe[k]), cst(32, u32::MAX as u128), cst(32, 1)));
                }
                return Ok(val(r));
            }
            "memchr" | "memrchr" => {
                let p = self.conc(st, &a[0], 64)?;
                let c = self.conc(st, &a[1], 32)? as u8;
                let n = self.conc(st, &a[2], 64)?;
                for k in 0..n {
                    let at = p + if name == "memchr" { k } else { n - 1 - k };
                    let b = {
                        let (o, off) = st.mem.get(&self.m, &mut self.g, at, 1)?;
                        o.load(off, 8)
                    };
                    let same = cmp(Pred::Eq, 8, &b, &Val::I(c as u64));
                    if self.conc(st, &same, 1)? == 1 {
                        return Ok(Val::I(at));
                    }
                }
                return Ok(Val::I(0));
            }
            "strlen" => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                while self.peek(st, p + n, 8)? != 0 {
                    n += 1;
                }
                return Ok(Val::I(n));
            }
            "__errno_location" => return Ok(Val::I(st.errno)),
            // the text of an error number is nobody's business
            "__xpg_strerror_r" | "strerror_r" => {
                let p = self.conc(st, &a[1], 64)?;
                self.poke(st, p, 8, b'e' as u64)?;
                self.poke(st, p + 1, 8, 0)?;
                return Ok(Val::I(0));
            }
            "getenv" => return Ok(Val::I(0)),
            "abort" => return Err(Term::Viol("panic", "abort".into())),
            // no file exists
            "open64" | "open" => {
                let at = st.errno;
                self.poke(st, at, 32, 2)?;
                return Ok(Val::I(u32::MAX as u64));
            }
            "gettid" | "getpid" | "pthread_self" => return Ok(Val::I(1)),
            "write" => return Ok(a[2].clone()),
            "writev" => return Ok(Val::I(1)),
            "getrandom" => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                for k in 0..n {
                    self.poke(st, p + k, 8, 0x5a ^ k)?;
                }
                return Ok(Val::I(n));
            }
            "clock_gettime" => {
                let p = self.conc(st, &a[1], 64)?;
                st.clock += 1000;
                let c = st.clock;
                self.poke(st, p, 64, c / 1_000_000_000)?;
                self.poke(st, p + 8, 64, c % 1_000_000_000)?;
                return Ok(Val::I(0));
            }
            "sysconf" => {
                let k = self.conc(st, &a[0], 32)?;
                return Ok(Val::I(if k == 30 { 4096 } else { 1 }));
            }
            "sched_getaffinity" => return Ok(Val::I(u32::MAX as u64)),
            "sched_yield" => return Ok(Val::I(0)),
            "__cxa_thread_atexit_impl" => return Ok(Val::I(0)),
            "pthread_key_create" => {
                let p = self.conc(st, &a[0], 64)?;
                st.tls.push(0);
                let k = st.tls.len() as u64;
                self.poke(st, p, 32, k)?;
                return Ok(Val::I(0));
            }
            "pthread_key_delete" => return Ok(Val::I(0)),
            "pthread_setspecific" => {
                let k = self.conc(st, &a[0], 32)? as usize;
                let v = self.conc(st, &a[1], 64)?;
                if k >= 1 && k <= st.tls.len() {
                    st.tls[k - 1] = v;
                }
                return Ok(Val::I(0));
            }
            "pthread_getspecific" => {
                let k = self.conc(st, &a[0], 32)? as usize;
                return Ok(Val::I(if k >= 1 && k <= st.tls.len() { st.tls[k - 1] } else { 0 }));
            }
            "syscall" => {
                let nr = self.conc(st, &a[0], 64)?;
                match nr {
                    202 => {
                        let addr = self.conc(st, &a[1], 64)?;
                        let op = self.conc(st, &a[2], 32)? & 0x7f;
                        let vv = self.conc(st, &a[3], 32)?;
                        return match op {
                            1 | 10 => Ok(Val::I(0)),
                            0 | 9 => {
                                let cur = self.peek(st, addr, 32)?;
                                let tp = self.conc(st, &a[4], 64)?;
                                let e = st.errno;
                                if cur != vv & 0xffff_ffff {
                                    self.poke(st, e, 32, 11)?;
                                    return Ok(Val::I(u64::MAX));
                                }
                                if tp == 0 {
                                    return Err(Term::Viol("deadlock", "waits for ever: nothing left to run".into()));
                                }
                                let s = self.peek(st, tp, 64)?;
                                let ns = self.peek(st, tp + 8, 64)?;
                                let t = s.saturating_mul(1_000_000_000).saturating_add(ns);
                                if op == 9 {
                                    st.clock = st.clock.max(t);
                                } else {
                                    st.clock += t;
                                }
                                self.poke(st, e, 32, 110)?;
                                Ok(Val::I(u64::MAX))
                            }
                            _ => Err(Term::Problem(format!("futex op {op}"))),
                        };
                    }
                    186 => return Ok(Val::I(1)),
                    318 => {
                        let p = self.conc(st, &a[1], 64)?;
                        let n = self.conc(st, &a[2], 64)?;
                        for k in 0..n {
                            self.poke(st, p + k, 8, 0x5a ^ k)?;
                        }
                        return Ok(Val::I(n));
                    }
                    _ => return Err(Term::Problem(format!("syscall {nr}"))),
                }
            }
            _ => {}
        }
        if name.contains("4core9panicking") || name.contains("rust_begin_unwind") || name.contains("begin_panic") {
            let loc = self.panic_loc(st, a.last().unwrap_or(&Val::I(0)));
            return Err(Term::Viol("panic", loc));
        }
        if name.contains("handle_alloc_error") || name.contains("rust_oom") {
            return Err(Term::Viol("panic", "allocation failure".into()));
        }
        if default_finish(name) {
            return Ok(Val::I(0x2b7e));
        }
        Err(Term::Problem(format!("external function {name}")))
    }
}

/// functions with a body that are replaced by a model
fn intercepted(name: &str) -> bool {
    name.ends_with("4core9panicking9panic_fmt")
        || name.ends_with("panic_nounwind_fmt")
        || name.contains("rust_begin_unwind")
        || name.contains("handle_alloc_error")
        || name.contains("rust_oom")
        || default_finish(name)
}

/// The keyed hash of the standard library's maps. Any function of the key is as good as any other for the behaviour of a
/// map whose order is not looked at; a constant one keeps symbolic keys out of the hashing. (It is this function that is
/// replaced and not `hash_one`, since the copies of that one are inlined here and there.)
fn default_finish(name: &str) -> bool {
    name.contains("3std4hash6random") && name.contains("13DefaultHasher") && name.contains("6Hasher6finish")
}

fn bitcast(v: &Val, from: &Ty, to: &Ty) -> Val {
    // via little-endian bit concatenation
    let total: u16;
    let bits: E = match (from, v) {
        (Ty::Vec(n, t), Val::A(x)) => {
            let w = t.bits();
            total = w * *n as u16;
            if total > 128 {
                // lane-wise identity only
                if from == to {
                    return v.clone();
                }
                panic!("bitcast {from:?} {to:?}");
            }
            let mut e = ex(&x[0], w);
            for k in 1..*n as usize {
                e = concat(ex(&x[k], w), e);
            }
            e
        }
        _ => {
            total = from.bits();
            ex(v, total)
        }
    };
    match to {
        Ty::Vec(n, t) => {
            let w = t.bits();
            Val::A(Rc::new((0..*n as u16).map(|k| val(extract(bits, k * w + w - 1, k * w))).collect()))
        }
        _ => {
            debug_assert_eq!(to.bits(), total);
            val(bits)
        }
    }
}

/// floating point on concrete bits
fn float(op: &str, fw: u16, w: u16, x: u64, y: u64) -> Option<u64> {
    if !matches!((fw, w), (1..=64, 1..=64)) {
        return None;
    }
    let f = |b: u64| if fw == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
    let m = |v: u64| if w == 64 { v } else { v & ((1 << w) - 1) };
    let out = |v: f64| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    if let Some(p) = op.strip_prefix("fcmp.") {
        let (a, b) = (f(x), f(y));
        let un = a.is_nan() || b.is_nan();
        let r = match &p[1..] {
            "eq" => a == b,
            "ne" => a != b,
            "gt" => a > b,
            "ge" => a >= b,
            "lt" => a < b,
            "le" => a <= b,
            "rd" => !un,
            "no" => un,
            _ => return match p {
                "true" => Some(1),
                "false" => Some(0),
                _ => None,
            },
        };
        return Some(match p {
            "ord" | "uno" => r,
            _ if p.starts_with('o') => !un && r,
            _ => un || r,
        } as u64);
    }
    let sx = |v: u64| ((v << (64 - fw)) as i64) >> (64 - fw);
    // an operation on two `f32` rounds once
    let s = |v: f32| v.to_bits() as u64;
    let g = |b: u64| f32::from_bits(b as u32);
    Some(match (op, fw) {
        ("fadd", 32) => s(g(x) + g(y)),
        ("fsub", 32) => s(g(x) - g(y)),
        ("fmul", 32) => s(g(x) * g(y)),
        ("fdiv", 32) => s(g(x) / g(y)),
        ("frem", 32) => s(g(x) % g(y)),
        ("fadd", _) => out(f(x) + f(y)),
        ("fsub", _) => out(f(x) - f(y)),
        ("fmul", _) => out(f(x) * f(y)),
        ("fdiv", _) => out(f(x) / f(y)),
        ("frem", _) => out(f(x) % f(y)),
        ("fneg", _) => x ^ (1 << (w - 1)),
        ("fabs", _) => m(x & !(1 << (w - 1))),
        ("floor", _) => out(f(x).floor()),
        ("ceil", _) => out(f(x).ceil()),
        ("trunc", _) => out(f(x).trunc()),
        ("round", _) => out(f(x).round()),
        ("rint" | "nearbyint" | "roundeven", _) => out(f(x).round_ties_even()),
        ("sqrt", 64) => out(f(x).sqrt()),
        ("copysign", _) => m(x & !(1 << (w - 1)) | y & 1 << (w - 1)),
        ("minnum", _) => out(f(x).min(f(y))),
        ("maxnum", _) => out(f(x).max(f(y))),
        ("fptrunc" | "fpext", _) => out(f(x)),
        ("uitofp", _) if w == 32 => s(x as f32),
        ("uitofp", _) => (x as f64).to_bits(),
        ("sitofp", _) if w == 32 => s(sx(x) as f32),
        ("sitofp", _) => (sx(x) as f64).to_bits(),
        ("fptoui", _) => {
            let v = f(x);
            if w == 64 { v as u64 } else { (v as u64).min((1 << w) - 1) }
        }
        ("fptosi", _) => {
            let v = f(x) as i64;
            m(if w == 64 { v } else { v.clamp(-(1 << (w - 1)), (1 << (w - 1)) - 1) } as u64)
        }
        _ => return None,
    })
}

fn arith(n: &str, w: u16, a: &Val, b: Option<&Val>, c: Option<&Val>) -> Option<Val> {
    let key = n.split('.').next().unwrap();
    let x = ex(a, w);
    let bw = match b {
        Some(Val::E(e)) => width(*e),
        _ => w,
    };
    let y = match b {
        Some(Val::A(_)) | None => 0,
        Some(v) if bw == w => ex(v, w),
        _ => 0,
    };
    let ovf = n.contains("with.overflow");
    let sat = n.contains(".sat");
    let sign = |e: E| extract(e, w - 1, w - 1);
    Some(match key {
        "umin" => val(ite(ult(x, y), x, y)),
        "umax" => val(ite(ult(x, y), y, x)),
        "smin" => val(ite(slt(x, y), x, y)),
        "smax" => val(ite(slt(x, y), y, x)),
        "scmp" | "ucmp" => {
            let rw: u16 = n.split('.').nth(1)?.strip_prefix('i')?.parse().ok()?;
            let lt = if key == "scmp" { slt(x, y) } else { ult(x, y) };
            val(ite(lt, cst(rw, u128::MAX), ite(eq(x, y), cst(rw, 0), cst(rw, 1))))
        }
        "uadd" => {
            let s = add(x, y);
            let o = ult(s, x);
            if ovf {
                Val::A(Rc::new(vec![val(s), val(o)]))
            } else if sat {
                val(ite(o, cst(w, u128::MAX), s))
            } else {
                return None;
            }
        }
        "usub" => {
            let s = sub(x, y);
            let o = ult(x, y);
            if ovf {
                Val::A(Rc::new(vec![val(s), val(o)]))
            } else if sat {
                val(ite(o, cst(w, 0), s))
            } else {
                return None;
            }
        }
        "sadd" | "ssub" => {
            let s = if key == "sadd" { add(x, y) } else { sub(x, y) };
            let yy = if key == "sadd" { sign(y) } else { not(sign(y)) };
            let o = and(not(xor(sign(x), yy)), xor(sign(x), sign(s)));
            if ovf {
                Val::A(Rc::new(vec![val(s), val(o)]))
            } else if sat {
                let least = cst(w, 1 << (w - 1));
                let most = cst(w, mask(w) >> 1);
                val(ite(o, ite(eq(sign(x), tru()), least, most), s))
            } else {
                return None;
            }
        }
        "umul" | "smul" => {
            if !ovf || w > 64 {
                return None;
            }
            let s = mul(x, y);
            let (wx, wy) = if key == "umul" { (zext(x, 2 * w), zext(y, 2 * w)) } else { (sext(x, 2 * w), sext(y, 2 * w)) };
            let p = mul(wx, wy);
            let o = if key == "umul" { not(eq(extract(p, 2 * w - 1, w), cst(w, 0))) } else { not(eq(p, sext(s, 2 * w))) };
            Val::A(Rc::new(vec![val(s), val(o)]))
        }
        "fshl" | "fshr" => {
            let k = match c? {
                Val::I(k) => (*k % w as u64) as u16,
                _ => return None,
            };
            let k = if key == "fshl" { k } else { (w - k) % w };
            if k == 0 {
                return Some(if key == "fshl" { a.clone() } else { b?.clone() });
            }
            val(concat(extract(x, w - 1 - k, 0), extract(y, w - 1, w - k)))
        }
        "bswap" => {
            let n = w / 8;
            let mut e = extract(x, 7, 0);
            for k in 1..n {
                e = concat(e, extract(x, k * 8 + 7, k * 8));
            }
            val(e)
        }
        "bitreverse" => {
            let mut e = extract(x, 0, 0);
            for k in 1..w {
                e = concat(e, extract(x, k, k));
            }
            val(e)
        }
        "abs" => val(ite(sign(x), sub(cst(w, 0), x), x)),
        "cttz" => {
            if let Val::I(v) = a {
                return Some(Val::I(if *v == 0 { w as u64 } else { v.trailing_zeros() as u64 }));
            }
            let mut r = cst(w, w as u128);
            for k in (0..w).rev() {
                r = ite(extract(x, k, k), cst(w, k as u128), r);
            }
            val(r)
        }
        "ctlz" => {
            if let Val::I(v) = a {
                return Some(Val::I(v.leading_zeros() as u64 - (64 - w as u64)));
            }
            let mut r = cst(w, w as u128);
            for k in 0..w {
                r = ite(extract(x, k, k), cst(w, (w - 1 - k) as u128), r);
            }
            val(r)
        }
        "ctpop" => {
            if let Val::I(v) = a {
                return Some(Val::I(v.count_ones() as u64));
            }
            let mut r = cst(w, 0);
            for k in 0..w {
                r = add(r, zext(extract(x, k, k), w));
            }
            val(r)
        }
        _ => return None,
    })
}
