//! The symbolic executor.
use crate::expr::*;
use crate::func::*;
use crate::ir::{Bin, Cast, Module, Pred, Reg, Ty, TyK};
use crate::mem::*;
use crate::z3::{Solver, R as ZR};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub const FN_BASE: u64 = 0x0000_5500_0000_0000;

#[derive(Debug)]
pub enum Stop {
    Viol(String, String),
    /// path over: reason
    End(&'static str),
    /// cannot decide
    Inc(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    allocas: Vec<u64>,
}

pub struct Link<T> {
    v: T,
    next: Option<Rc<Link<T>>>,
}
type List<T> = Option<Rc<Link<T>>>;

fn push<T>(l: &mut List<T>, v: T) {
    let n = l.take();
    *l = Some(Rc::new(Link { v, next: n }));
}
fn items<T: Clone>(l: &List<T>) -> Vec<T> {
    let mut out = vec![];
    let mut c = l.as_ref();
    while let Some(x) = c {
        out.push(x.v.clone());
        c = x.next.as_ref();
    }
    out.reverse();
    out
}
impl<T> Drop for Link<T> {
    fn drop(&mut self) {
        let mut n = self.next.take();
        while let Some(r) = n {
            match Rc::try_unwrap(r) {
                Ok(mut l) => n = l.next.take(),
                Err(_) => break,
            }
        }
    }
}

/// an input
#[derive(Clone)]
enum Sym {
    Bytes(u32, u32),
    /// a choice, already made
    Chosen(u64, u32),
}

#[derive(Clone)]
pub struct State {
    mem: Mem,
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    pc: Vec<E>,
    model: Rc<Vec<u64>>,
    syms: List<(String, Sym)>,
    /// variables below this number are in use on this path
    nv: u32,
    /// the value a `vf_pick` about to run again takes
    forced: Option<u64>,
    trace: List<Rc<Vec<B>>>,
    panic_ok: Option<E>,
    steps: u64,
    depth: u32,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub trace_hash: u64,
    pub trace_len: u64,
}

#[derive(Clone)]
pub struct Sample {
    pub end: &'static str,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub trace_hash: u64,
    pub trace_len: u64,
}

pub struct Limits {
    pub max_time: f64,
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_viol: usize,
    pub samples: usize,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub z: Solver,
    addr_of: HashMap<String, u64>,
    fns: Vec<Option<&'static Func>>,
    work: Vec<State>,
    pub params: BTreeMap<String, u64>,
    pub used_params: BTreeMap<String, u64>,
    pub lim: Limits,
    pub heap_max: u64,
    pub viol: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub samples: Vec<Sample>,
    pub ends: BTreeMap<&'static str, u64>,
    pub reached: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub paths: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub mem_checks: u64,
    pub checkpoints: u64,
    pub distinct: u64,
    pub stack_trace: bool,
    visited: HashSet<(u64, u64)>,
    global_init: Vec<(u64, Rc<Obj>)>,
    nglob: u64,
    start: Instant,
    pub max_depth: u32,
    ptr_ty: Ty,
    stride: u64,
    viol_sites: HashSet<String>,
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

fn kbin(b: Bin) -> K {
    match b {
        Bin::Add => K::Add,
        Bin::Sub => K::Sub,
        Bin::Mul => K::Mul,
        Bin::UDiv => K::UDiv,
        Bin::SDiv => K::SDiv,
        Bin::URem => K::URem,
        Bin::SRem => K::SRem,
        Bin::And => K::And,
        Bin::Or => K::Or,
        Bin::Xor => K::Xor,
        Bin::Shl => K::Shl,
        Bin::LShr => K::LShr,
        Bin::AShr => K::AShr,
    }
}

/// bytes of the input behind a choice among `n`
fn pick_bytes(n: u64) -> u32 {
    if n <= 256 {
        1
    } else if n <= 65536 {
        2
    } else {
        8
    }
}

/// larger requests fail, here and in the native run
const HEAP_MAX: u64 = 0x7000_0000;

impl Exec {
    pub fn new(mut m: Module, timeout_ms: u32, lim: Limits) -> (Exec, State) {
        let mut mem = Mem::new();
        let mut addr_of = HashMap::new();
        for (i, f) in m.fns.iter().enumerate() {
            addr_of.insert(f.name.clone(), FN_BASE + i as u64 * 16);
        }
        let mut ids = vec![];
        for g in &m.globals {
            // writable while initialising
            let a = mem.alloc(m.types.size(g.ty), g.align, Kind::Global, true);
            addr_of.insert(g.name.clone(), a);
            ids.push(a);
        }
        let mut ar = Arena::new();
        let ptr_ty = m.types.mk(TyK::Ptr);
        let n = m.globals.len();
        for i in 0..n {
            let (t, init, _c) = (m.globals[i].ty, m.globals[i].init.clone(), m.globals[i].constant);
            if let Some(c) = init {
                let v = Cx { m: &mut m, ar: &mut ar, addr_of: &addr_of }.cst(t, &c);
                Exec::init_store(&mut mem, &m, &mut ar, ids[i], t, &v);
            }
        }
        // seal constants
        let mut mem2 = mem.clone();
        for i in 0..n {
            if m.globals[i].constant {
                mem2.set_kind(Mem::id_of(ids[i]).unwrap(), Kind::Const);
            }
        }
        let global_init = (0..n)
            .filter(|i| !m.globals[*i].constant)
            .map(|i| {
                let id = Mem::id_of(ids[i]).unwrap();
                (id, mem2.obj(id).unwrap().clone())
            })
            .collect();
        let nglob = mem2.next;
        let nf = m.fns.len();
        let ex = Exec {
            m,
            ar,
            z: Solver::new(timeout_ms),
            addr_of,
            fns: vec![None; nf],
            work: vec![],
            params: BTreeMap::new(),
            used_params: BTreeMap::new(),
            lim,
            heap_max: HEAP_MAX,
            viol: vec![],
            inconclusive: vec![],
            samples: vec![],
            ends: BTreeMap::new(),
            reached: BTreeMap::new(),
            steps: 0,
            forks: 0,
            paths: 0,
            asserts: 0,
            asserts_sym: 0,
            mem_checks: 0,
            checkpoints: 0,
            distinct: 0,
            stack_trace: false,
            visited: HashSet::new(),
            global_init,
            nglob,
            start: Instant::now(),
            max_depth: 0,
            ptr_ty,
            stride: 1,
            viol_sites: HashSet::new(),
        };
        let dummy: &'static Func = Box::leak(Box::new(Func {
            ix: 0,
            name: String::new(),
            nregs: 0,
            nparams: 0,
            blocks: vec![],
            live: Default::default(),
            seen: Default::default(),
        }));
        let st = State {
            mem: mem2,
            cur: Frame { f: dummy, regs: vec![], blk: 0, ip: 0, allocas: vec![] },
            stack: vec![],
            pc: vec![],
            model: Rc::new(vec![]),
            syms: None,
            nv: 0,
            forced: None,
            trace: None,
            panic_ok: None,
            steps: 0,
            depth: 0,
        };
        (ex, st)
    }

    fn init_store(mem: &mut Mem, m: &Module, ar: &mut Arena, addr: u64, t: Ty, v: &Val) {
        match v {
            Val::U => mem.fill(addr, m.types.size(t), B::U).unwrap(),
            Val::C(x) => {
                let n = m.types.size(t);
                if n <= 8 {
                    mem.store_conc(addr, n, *x).unwrap()
                } else {
                    panic!("init")
                }
            }
            Val::S(e) => {
                let x = ar.cv(*e).unwrap();
                let n = m.types.size(t) as usize;
                mem.store_slice(addr, &x.to_le_bytes()[..n]).unwrap()
            }
            Val::Agg(vs) => {
                // strings
                for (i, x) in vs.iter().enumerate() {
                    let et = m.types.elem(t, i);
                    Exec::init_store(mem, m, ar, addr + m.types.off(t, i), et, x);
                }
            }
        }
    }

    fn func(&mut self, ix: usize) -> &'static Func {
        if let Some(f) = self.fns[ix] {
            return f;
        }
        let f = Cx { m: &mut self.m, ar: &mut self.ar, addr_of: &self.addr_of }.compile(ix);
        let f: &'static Func = Box::leak(Box::new(f));
        self.fns[ix] = Some(f);
        f
    }

    pub fn functions(&self) -> Vec<(&str, usize, usize)> {
        self.fns
            .iter()
            .flatten()
            .map(|f| (f.name.as_str(), f.seen.borrow().iter().filter(|x| **x).count(), f.blocks.len()))
            .filter(|x| x.1 > 0)
            .collect()
    }

    pub fn run(&mut self, entry: &str, mut st: State) -> Result<(), String> {
        self.start = Instant::now();
        let ix = *self.m.fn_ix.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let f = self.func(ix);
        st.cur = Frame { f, regs: vec![Val::U; f.nregs as usize], blk: 0, ip: 0, allocas: vec![] };
        f.seen.borrow_mut()[0] = true;
        self.work.push(st);
        while let Some(mut s) = self.work.pop() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.path(&mut s)))
                .unwrap_or_else(|_| Stop::Inc("engine failure".into()));
            match r {
                Stop::End(why) => {
                    self.paths += 1;
                    *self.ends.entry(why).or_insert(0) += 1;
                    if why != "assumed away" && why != "merged" {
                        self.sample(&s, why);
                    }
                }
                Stop::Viol(k, m) => {
                    self.paths += 1;
                    *self.ends.entry("violation").or_insert(0) += 1;
                    self.violation(&s, k, m);
                }
                Stop::Inc(m) => {
                    self.paths += 1;
                    *self.ends.entry("inconclusive").or_insert(0) += 1;
                    let t = self.stack_of(&s);
                    self.inconclusive.push(format!("{} at {}", m, t.first().cloned().unwrap_or_default()));
                    if self.inconclusive.len() > 5 {
                        break;
                    }
                }
            }
            self.max_depth = self.max_depth.max(s.depth);
            if self.viol.len() >= self.lim.max_viol {
                break;
            }
            if self.paths >= self.lim.max_paths {
                self.inconclusive.push("path limit".into());
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.lim.max_time {
                if !self.work.is_empty() {
                    self.inconclusive.push("time limit".into());
                }
                break;
            }
        }
        Ok(())
    }

    fn stack_of(&self, s: &State) -> Vec<String> {
        let mut v = vec![s.cur.f.name.clone()];
        for f in s.stack.iter().rev() {
            v.push(f.f.name.clone());
        }
        v
    }
    fn inputs(&self, s: &State, model: &[u64]) -> Vec<(String, Vec<u8>)> {
        items(&s.syms)
            .into_iter()
            .map(|(n, x)| {
                let b = match x {
                    Sym::Bytes(a, l) => (a..a + l).map(|v| model.get(v as usize).copied().unwrap_or(0) as u8).collect(),
                    Sym::Chosen(x, w) => (0..w).map(|k| (x >> (8 * k)) as u8).collect(),
                };
                (n, b)
            })
            .collect()
    }
    fn trace_hash(&mut self, s: &State, model: &[u64]) -> (u64, u64) {
        let mut h = 0xcbf29ce484222325u64;
        let mut n = 0;
        let mut add = |x: u8| {
            h ^= x as u64;
            h = h.wrapping_mul(0x100000001b3);
        };
        for t in items(&s.trace) {
            for x in (t.len() as u32).to_le_bytes() {
                add(x);
            }
            for b in t.iter() {
                let x = match b {
                    B::C(x) => *x,
                    B::S(e) => self.ar.eval(*e, model) as u8,
                    B::U => 0,
                };
                add(x);
                n += 1;
            }
        }
        (h, n)
    }
    fn sample(&mut self, s: &State, why: &'static str) {
        if self.lim.samples == 0 {
            return;
        }
        if self.paths % self.stride == 0 {
            let model = s.model.clone();
            let (h, n) = self.trace_hash(s, &model);
            let i = self.inputs(s, &model);
            self.samples.push(Sample { end: why, inputs: i, trace_hash: h, trace_len: n });
            if self.samples.len() >= self.lim.samples * 2 {
                let mut k = 0;
                self.samples.retain(|_| {
                    k += 1;
                    k % 2 == 0
                });
                self.stride *= 2;
            }
        }
    }
    fn violation(&mut self, s: &State, kind: String, msg: String) {
        let stack = self.stack_of(s);
        let site = format!("{}|{}|{}", kind, msg, stack.iter().take(3).cloned().collect::<Vec<_>>().join("|"));
        if !self.viol_sites.insert(site) {
            return;
        }
        let model = s.model.clone();
        let (h, n) = self.trace_hash(s, &model);
        let inputs = self.inputs(s, &model);
        self.viol.push(Violation { kind, msg, stack, inputs, trace_hash: h, trace_len: n });
    }

    // ---- values -------------------------------------------------------------------------------

    #[inline]
    fn ov(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.cur.regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    fn fresh_undef(&mut self, w: u32) -> E {
        if w <= 64 {
            self.ar.new_var(w, true)
        } else {
            let a = self.ar.new_var(w - 64, true);
            let b = self.ar.new_var(64, true);
            self.ar.concat(a, b)
        }
    }
    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.ar.c(*x as u128, w),
            Val::S(e) => *e,
            Val::U => self.fresh_undef(w),
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn of_e(&self, e: E) -> Val {
        match self.ar.cv(e) {
            Some(v) if self.ar.w(e) <= 64 => Val::C(v as u64),
            _ => Val::S(e),
        }
    }
    fn uninit(&self, e: E) -> bool {
        self.ar.has_undef(e)
    }

    /// truth of a width-1 expression on this path; forks when both are possible
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.ar.cv(c) {
            return Ok(v == 1);
        }
        if self.uninit(c) {
            return Err(Stop::Viol("uninitialised".into(), "a decision depends on uninitialised memory".into()));
        }
        let nc = self.ar.not(c);
        for x in st.pc.iter().rev() {
            if *x == c {
                return Ok(true);
            }
            if *x == nc {
                return Ok(false);
            }
        }
        let v = self.ar.eval(c, &st.model) == 1;
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.z.check(&mut self.ar, &st.pc, other, &st.model) {
            ZR::Unsat => Ok(v),
            ZR::Sat(m) => {
                let mut o = st.clone();
                o.pc.push(other);
                o.model = Rc::new(m);
                self.work.push(o);
                self.forks += 1;
                st.depth += 1;
                st.pc.push(mine);
                Ok(v)
            }
            ZR::Unknown => Err(Stop::Inc("solver gave no answer".into())),
        }
    }
    fn decide_v(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(x) => Ok(x & 1 == 1),
            Val::S(e) => self.decide(st, *e),
            Val::U => Err(Stop::Viol("uninitialised".into(), format!("branch on an uninitialised value (block {}, instruction {})", st.cur.blk, st.cur.ip))),
            _ => panic!(),
        }
    }
    /// concrete value on this path; forks over all feasible values
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::U => Err(Stop::Viol("uninitialised".into(), "an uninitialised value is used as address or size".into())),
            Val::S(e) => {
                if self.uninit(*e) {
                    return Err(Stop::Viol("uninitialised".into(), "address or size depends on uninitialised memory".into()));
                }
                let x = self.ar.eval(*e, &st.model);
                let c = self.ar.c(x, w);
                let q = self.ar.eq(*e, c);
                let r = self.decide(st, q)?;
                debug_assert!(r);
                Ok(x as u64)
            }
            _ => panic!(),
        }
    }

    fn bin(&mut self, st: &mut State, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        return Ok(Val::U);
                    }
                    x << y
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        return Ok(Val::U);
                    }
                    x >> y
                }
                Bin::AShr => {
                    if y >= w as u64 {
                        return Ok(Val::U);
                    }
                    (sx(x, w) >> y) as u64
                }
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return Err(Stop::Viol("arith".into(), "division by zero".into()));
                    }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                        _ => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                    }
                }
            };
            return Ok(Val::C(r & m64(w)));
        }
        if matches!(a, Val::U) || matches!(b, Val::U) {
            // absorbing cases
            if op == Bin::And {
                if matches!(a, Val::C(0)) || matches!(b, Val::C(0)) {
                    return Ok(Val::C(0));
                }
            }
            // these may leave some bits defined
            let bits = matches!(op, Bin::And | Bin::Or | Bin::Shl | Bin::LShr);
            if !bits || matches!(b, Val::U) && matches!(a, Val::U) || matches!(op, Bin::Shl | Bin::LShr) && !matches!(b, Val::C(_)) {
                return Ok(Val::U);
            }
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && self.ar.cv(y).map_or(true, |v| v == 0) {
            let z = self.ar.c(0, w);
            let q = self.ar.eq(y, z);
            if self.decide(st, q)? {
                return Err(Stop::Viol("arith".into(), "division by zero".into()));
            }
        }
        let e = self.ar.bin(kbin(op), x, y);
        Ok(self.of_e(e))
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sx(x, w), sx(y, w));
            return Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s < t,
                Pred::Sle => s <= t,
                Pred::Sgt => s > t,
                Pred::Sge => s >= t,
            } as u64);
        }
        if matches!(a, Val::U) || matches!(b, Val::U) {
            return Val::U;
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let ar = &mut self.ar;
        let e = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let q = ar.eq(x, y);
                ar.not(q)
            }
            Pred::Ult => ar.bin(K::Ult, x, y),
            Pred::Ule => ar.bin(K::Ule, x, y),
            Pred::Ugt => ar.bin(K::Ult, y, x),
            Pred::Uge => ar.bin(K::Ule, y, x),
            Pred::Slt => ar.bin(K::Slt, x, y),
            Pred::Sle => ar.bin(K::Sle, x, y),
            Pred::Sgt => ar.bin(K::Slt, y, x),
            Pred::Sge => ar.bin(K::Sle, y, x),
        };
        self.of_e(e)
    }
    fn cast(&mut self, c: Cast, fw: u32, tw: u32, v: &Val) -> Val {
        match v {
            Val::U if c != Cast::ZExt => Val::U,
            Val::C(x) if tw <= 64 => match c {
                Cast::SExt => Val::C(sx(*x, fw) as u64 & m64(tw)),
                Cast::Trunc => Val::C(x & m64(tw)),
                _ => Val::C(*x),
            },
            _ => {
                let e = self.to_e(v, fw);
                let r = match c {
                    Cast::ZExt => self.ar.zext(e, tw),
                    Cast::SExt => self.ar.sext(e, tw),
                    Cast::Trunc => self.ar.extract(e, 0, tw),
                    Cast::Bit => e,
                };
                self.of_e(r)
            }
        }
    }
    fn lanes(&self, v: &Val, n: u32) -> Vec<Val> {
        match v {
            Val::Agg(a) => a.as_ref().clone(),
            Val::U => vec![Val::U; n as usize],
            _ => panic!("lanes"),
        }
    }
    /// list of (width, value), lowest first
    fn flatten(&mut self, t: Ty, v: &Val) -> Vec<(u32, Val)> {
        if self.m.types.is_scalar(t) {
            return vec![(self.m.types.width(t), v.clone())];
        }
        let n = self.m.types.count(t);
        let l = self.lanes(v, n as u32);
        let mut out = vec![];
        for (i, x) in l.iter().enumerate() {
            let et = self.m.types.elem(t, i);
            out.extend(self.flatten(et, x));
        }
        out
    }
    fn bitcast(&mut self, t: Ty, t2: Ty, v: &Val) -> Val {
        if t == t2 || (self.m.types.is_scalar(t) && self.m.types.is_scalar(t2)) {
            return v.clone();
        }
        if let Val::U = v {
            return Val::U;
        }
        let fl = self.flatten(t, v);
        let mut e: Option<E> = None;
        for (w, x) in fl {
            let y = self.to_e(&x, w);
            e = Some(match e {
                None => y,
                Some(lo) => self.ar.concat(y, lo),
            });
        }
        let e = e.unwrap();
        if self.m.types.is_scalar(t2) {
            return self.of_e(e);
        }
        let n = self.m.types.count(t2);
        let et = self.m.types.elem(t2, 0);
        let w = self.m.types.width(et);
        Val::Agg(Rc::new(
            (0..n)
                .map(|i| {
                    let x = self.ar.extract(e, i as u32 * w, w);
                    self.of_e(x)
                })
                .collect(),
        ))
    }

    // ---- memory -------------------------------------------------------------------------------

    fn me<T>(r: MR<T>) -> R<T> {
        r.map_err(|e| Stop::Viol("memory".into(), e))
    }
    fn byte_val(&mut self, b: &[B]) -> Val {
        // little endian
        if b.iter().all(|x| matches!(x, B::U)) {
            return Val::U;
        }
        if b.len() <= 8 && b.iter().all(|x| matches!(x, B::C(_))) {
            let mut v = 0u64;
            for (i, x) in b.iter().enumerate() {
                if let B::C(c) = x {
                    v |= (*c as u64) << (8 * i);
                }
            }
            return Val::C(v);
        }
        let mut e: Option<E> = None;
        for x in b {
            let y = match x {
                B::C(c) => self.ar.c(*c as u128, 8),
                B::S(e) => *e,
                B::U => self.ar.new_var(8, true),
            };
            e = Some(match e {
                None => y,
                Some(lo) => self.ar.concat(y, lo),
            });
        }
        self.of_e(e.unwrap())
    }
    fn align_check(&self, addr: u64, a: u64) -> R<()> {
        if a > 1 && addr & (a - 1) != 0 {
            return Err(Stop::Viol("memory".into(), format!("misaligned access: address {:#x}, needs {}", addr, a)));
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, t: Ty, w: u32, p: &Val, a: u64) -> R<Val> {
        let addr = self.conc(st, p, 64)?;
        self.mem_checks += 1;
        if w != 0 {
            let n = (w as u64).div_ceil(8);
            self.align_check(addr, a)?;
            if n <= 8 {
                if let Some(v) = Exec::me(st.mem.load_fast(addr, n))? {
                    return Ok(Val::C(v & m64(w)));
                }
            }
            let b = Exec::me(st.mem.load_bytes(addr, n))?;
            let v = self.byte_val(&b);
            return Ok(match v {
                Val::C(x) => Val::C(x & m64(w)),
                Val::S(e) if self.ar.w(e) != w => {
                    let r = self.ar.extract(e, 0, w);
                    self.of_e(r)
                }
                v => v,
            });
        }
        self.align_check(addr, a)?;
        let n = self.m.types.count(t);
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let et = self.m.types.elem(t, i);
            let off = self.m.types.off(t, i);
            let ew = if self.m.types.is_scalar(et) { self.m.types.width(et) } else { 0 };
            if ew != 0 && ew % 8 != 0 && matches!(self.m.types.k(t), TyK::Vector(..)) {
                return Err(Stop::Inc("bit vector load".into()));
            }
            out.push(self.load(st, et, ew, &Val::C(addr + off), 1)?);
        }
        Ok(Val::Agg(Rc::new(out)))
    }
    fn store(&mut self, st: &mut State, t: Ty, w: u32, v: &Val, p: &Val, a: u64) -> R<()> {
        let addr = self.conc(st, p, 64)?;
        self.mem_checks += 1;
        self.align_check(addr, a)?;
        if w != 0 {
            let n = (w as u64).div_ceil(8);
            return match v {
                Val::C(x) if n <= 8 => Exec::me(st.mem.store_conc(addr, n, *x)),
                Val::U => Exec::me(st.mem.fill(addr, n, B::U)),
                _ => {
                    let mut e = self.to_e(v, w);
                    if w % 8 != 0 {
                        e = self.ar.zext(e, n as u32 * 8);
                    }
                    let b = self.e_bytes(e);
                    Exec::me(st.mem.store_bytes(addr, &b))
                }
            };
        }
        if let Val::U = v {
            let n = self.m.types.size(t);
            return Exec::me(st.mem.fill(addr, n, B::U));
        }
        let n = self.m.types.count(t);
        let l = self.lanes(v, n as u32);
        for i in 0..n {
            let et = self.m.types.elem(t, i);
            let off = self.m.types.off(t, i);
            let ew = if self.m.types.is_scalar(et) { self.m.types.width(et) } else { 0 };
            if ew != 0 && ew % 8 != 0 && matches!(self.m.types.k(t), TyK::Vector(..)) {
                return Err(Stop::Inc("bit vector store".into()));
            }
            self.store(st, et, ew, &l[i], &Val::C(addr + off), 1)?;
        }
        Ok(())
    }
    fn e_bytes(&mut self, e: E) -> Vec<B> {
        let n = self.ar.w(e) / 8;
        (0..n)
            .map(|i| {
                let x = self.ar.extract(e, i * 8, 8);
                match self.ar.cv(x) {
                    Some(c) => B::C(c as u8),
                    None => match self.ar.var_index(x) {
                        Some(v) if self.ar.var_undef[v as usize] => B::U,
                        _ => B::S(x),
                    },
                }
            })
            .collect()
    }
    fn load_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<B>> {
        self.mem_checks += 1;
        Exec::me(st.mem.load_bytes(addr, n))
    }
    fn b_e(&mut self, b: B) -> E {
        match b {
            B::C(c) => self.ar.c(c as u128, 8),
            B::S(e) => e,
            B::U => self.ar.new_var(8, true),
        }
    }

    // ---- calls --------------------------------------------------------------------------------

    fn set(&mut self, st: &mut State, d: Option<Reg>, v: Val) {
        if let Some(d) = d {
            st.cur.regs[d as usize] = v;
        }
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let from = st.cur.blk;
        let f = st.cur.f;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: [Val; 8] = [Val::U, Val::U, Val::U, Val::U, Val::U, Val::U, Val::U, Val::U];
            let n = blk.phis.len();
            let mut more = vec![];
            for (i, (_, srcs)) in blk.phis.iter().enumerate() {
                let o = &srcs.iter().find(|x| x.0 == from).expect("phi").1;
                let v = self.ov(st, o);
                if i < 8 {
                    vals[i] = v
                } else {
                    more.push(v)
                }
            }
            for i in (0..n).rev() {
                let d = blk.phis[i].0 as usize;
                st.cur.regs[d] = if i < 8 { std::mem::replace(&mut vals[i], Val::U) } else { more.pop().unwrap() };
            }
        }
        st.cur.blk = b;
        st.cur.ip = 0;
        f.seen.borrow_mut()[b as usize] = true;
    }
    fn finish_call(&mut self, st: &mut State, normal: Option<u32>) {
        match normal {
            Some(b) => self.goto(st, b),
            None => st.cur.ip += 1,
        }
    }
    fn enter(&mut self, st: &mut State, ix: usize, args: Vec<Val>) -> R<()> {
        let f = self.func(ix);
        if st.stack.len() > 400 {
            return Err(Stop::Viol("stack".into(), "call depth above 400".into()));
        }
        let mut regs = args;
        regs.truncate(f.nparams);
        regs.resize(f.nregs as usize, Val::U);
        let fr = Frame { f, regs, blk: 0, ip: 0, allocas: vec![] };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
        f.seen.borrow_mut()[0] = true;
        Ok(())
    }

    /// symbolic assertion; the path continues with it assumed
    fn must(&mut self, st: &mut State, c: E, kind: &str, msg: &str) -> R<()> {
        self.asserts += 1;
        if let Some(v) = self.ar.cv(c) {
            if v == 0 {
                return Err(Stop::Viol(kind.into(), msg.into()));
            }
            return Ok(());
        }
        if self.uninit(c) {
            return Err(Stop::Viol("uninitialised".into(), format!("assertion depends on uninitialised memory: {}", msg)));
        }
        self.asserts_sym += 1;
        if st.pc.contains(&c) {
            return Ok(());
        }
        let nc = self.ar.not(c);
        if self.ar.eval(c, &st.model) == 0 {
            // the model already breaks it
            let mut s2 = st.clone();
            s2.pc.push(nc);
            self.violation(&s2, kind.into(), msg.into());
            match self.z.check(&mut self.ar, &st.pc, c, &st.model) {
                ZR::Unsat => return Err(Stop::Viol(kind.into(), msg.into())),
                ZR::Sat(m) => {
                    st.model = Rc::new(m);
                    st.pc.push(c);
                }
                ZR::Unknown => return Err(Stop::Inc("solver gave no answer".into())),
            }
            return Ok(());
        }
        match self.z.check(&mut self.ar, &st.pc, nc, &st.model) {
            ZR::Unsat => {}
            ZR::Sat(m) => {
                let mut s2 = st.clone();
                s2.model = Rc::new(m);
                s2.pc.push(nc);
                self.violation(&s2, kind.into(), msg.into());
                st.pc.push(c);
            }
            ZR::Unknown => return Err(Stop::Inc("solver gave no answer".into())),
        }
        Ok(())
    }

    fn do_panic(&mut self, st: &mut State, kind: &str) -> R<()> {
        let names = self.stack_of(st);
        let msg = format!("{} in {}", kind, names.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
        if names.iter().take(2).any(|n| n.contains("panic_const_") && n.contains("overflow")) {
            return Err(Stop::Viol("panic".into(), format!("arithmetic overflow: {}", msg)));
        }
        match st.panic_ok {
            None => Err(Stop::Viol("panic".into(), msg)),
            Some(c) => {
                self.must(st, c, "panic", &msg)?;
                Err(Stop::End("allowed panic"))
            }
        }
    }

    fn heap_alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        if size > self.heap_max {
            return 0;
        }
        st.mem.alloc(size, align, Kind::Heap, zero)
    }
    fn heap_check(&self, st: &State, p: u64, size: Option<u64>, align: Option<u64>) -> R<u64> {
        let bad = |m: String| Err(Stop::Viol("memory".into(), m));
        match Mem::id_of(p).and_then(|id| st.mem.slot(id).map(|s| (id, s.clone()))) {
            Some((id, Slot::Live(o))) => {
                if o.kind != Kind::Heap || p & OFF != o.off {
                    return bad(format!("deallocation of a pointer that is not a heap allocation: {}", st.mem.describe(p)));
                }
                if size.map_or(false, |s| s != o.size) || align.map_or(false, |a| a != o.align) {
                    return bad(format!(
                        "deallocation with layout ({:?}, {:?}) of an allocation made with ({}, {})",
                        size, align, o.size, o.align
                    ));
                }
                Ok(id)
            }
            Some((_, Slot::Freed(..))) => bad("double free".into()),
            _ => bad(format!("deallocation of {}", st.mem.describe(p))),
        }
    }

    fn ext(&mut self, st: &mut State, e: Ext, args: &[Val], w0: &[u32]) -> R<Val> {
        let _ = w0;
        Ok(match e {
            Ext::Nop => Val::U,
            Ext::Zero => Val::C(0),
            Ext::RAlloc | Ext::RAllocZ => {
                if let Val::S(x) = &args[0] {
                    // too much for any allocator: no need to know how much
                    let lim = self.ar.c(self.heap_max as u128, 64);
                    let c = self.ar.ult(lim, *x);
                    if self.decide(st, c)? {
                        return Ok(Val::C(0));
                    }
                }
                let n = self.conc(st, &args[0], 64)?;
                if n == 0 {
                    return Err(Stop::Viol("ub".into(), "allocation of no bytes".into()));
                }
                let a = self.conc(st, &args[1], 64)?;
                Val::C(self.heap_alloc(st, n, a, e == Ext::RAllocZ))
            }
            Ext::Malloc => {
                let n = self.conc(st, &args[0], 64)?;
                Val::C(self.heap_alloc(st, n, 16, false))
            }
            Ext::Calloc => {
                let n = self.conc(st, &args[0], 64)?;
                let k = self.conc(st, &args[1], 64)?;
                Val::C(self.heap_alloc(st, n.saturating_mul(k), 16, true))
            }
            Ext::Free => {
                let p = self.conc(st, &args[0], 64)?;
                if p != 0 {
                    let id = self.heap_check(st, p, None, None)?;
                    st.mem.free(id);
                }
                Val::U
            }
            Ext::RDealloc => {
                let p = self.conc(st, &args[0], 64)?;
                let n = self.conc(st, &args[1], 64)?;
                let a = self.conc(st, &args[2], 64)?;
                let id = self.heap_check(st, p, Some(n), Some(a))?;
                st.mem.free(id);
                Val::U
            }
            Ext::RRealloc | Ext::ReallocC => {
                let p = self.conc(st, &args[0], 64)?;
                let (os, al, ns) = if e == Ext::RRealloc {
                    let o = self.conc(st, &args[1], 64)?;
                    let a = self.conc(st, &args[2], 64)?;
                    (Some(o), Some(a), self.conc(st, &args[3], 64)?)
                } else {
                    (None, None, self.conc(st, &args[1], 64)?)
                };
                if p == 0 && e == Ext::ReallocC {
                    return Ok(Val::C(self.heap_alloc(st, ns, 16, false)));
                }
                let id = self.heap_check(st, p, os, al)?;
                let old = st.mem.obj(id).unwrap().size;
                let q = self.heap_alloc(st, ns, al.unwrap_or(16), false);
                if q != 0 {
                    Exec::me(st.mem.copy(q, p, old.min(ns)))?;
                    st.mem.free(id);
                }
                Val::C(q)
            }
            Ext::Memcpy => {
                let n = self.conc(st, &args[2], 64)?;
                let d = self.conc(st, &args[0], 64)?;
                let s = self.conc(st, &args[1], 64)?;
                self.mem_checks += 1;
                Exec::me(st.mem.copy(d, s, n))?;
                Val::C(d)
            }
            Ext::Memset => {
                let n = self.conc(st, &args[2], 64)?;
                let d = self.conc(st, &args[0], 64)?;
                let b = match &args[1] {
                    Val::C(x) => B::C(*x as u8),
                    Val::S(e) => {
                        let x = self.ar.extract(*e, 0, 8);
                        match self.ar.cv(x) {
                            Some(c) => B::C(c as u8),
                            None => B::S(x),
                        }
                    }
                    _ => B::U,
                };
                self.mem_checks += 1;
                Exec::me(st.mem.fill(d, n, b))?;
                Val::C(d)
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.conc(st, &args[2], 64)?;
                let a = self.conc(st, &args[0], 64)?;
                let b = self.conc(st, &args[1], 64)?;
                let (x, y) = if n >= 4 * PG as u64 {
                    Exec::me(st.mem.pairs(a, b, n))?
                } else {
                    (self.load_bytes(st, a, n)?, self.load_bytes(st, b, n)?)
                };
                self.compare(&x, &y, e == Ext::Bcmp)?
            }
            Ext::Strlen => {
                let a = self.conc(st, &args[0], 64)?;
                let mut n = 0;
                loop {
                    match self.load_bytes(st, a + n, 1)?[0] {
                        B::C(0) => break,
                        B::C(_) => n += 1,
                        _ => return Err(Stop::Inc("strlen of symbolic bytes".into())),
                    }
                }
                Val::C(n)
            }
            Ext::Panic => {
                self.do_panic(st, "panic")?;
                unreachable!()
            }
            Ext::PanicUb => {
                let names = self.stack_of(st);
                return Err(Stop::Viol("ub".into(), format!("non-unwinding panic in {}", names.iter().take(6).cloned().collect::<Vec<_>>().join(" < "))));
            }
            Ext::AllocErr => return Err(Stop::Viol("alloc".into(), "allocation failure".into())),
            Ext::Abort => return Err(Stop::Viol("abort".into(), "abort".into())),
            Ext::VSym => {
                let p = self.conc(st, &args[0], 64)?;
                let n = self.conc(st, &args[1], 64)?;
                let np = self.conc(st, &args[2], 64)?;
                let nl = self.conc(st, &args[3], 64)?;
                let name = self.string(st, np, nl)?;
                let first = self.ar.bytes_from(st.nv, n as u32);
                st.nv = first + n as u32;
                let b: Vec<B> = (0..n as u32).map(|i| B::S(self.ar.var(first + i))).collect();
                if n > 0 {
                    Exec::me(st.mem.store_bytes(p, &b))?;
                }
                push(&mut st.syms, (name, Sym::Bytes(first, n as u32)));
                Val::U
            }
            Ext::VAssume => {
                let c = match &args[0] {
                    Val::C(x) => self.ar.c(*x as u128 & 1, 1),
                    Val::S(e) => *e,
                    _ => return Err(Stop::Inc("assume of uninitialised".into())),
                };
                match self.ar.cv(c) {
                    Some(1) => return Ok(Val::U),
                    Some(_) => return Err(Stop::End("assumed away")),
                    None => {}
                }
                if st.pc.contains(&c) {
                    return Ok(Val::U);
                }
                if self.ar.eval(c, &st.model) != 1 {
                    match self.z.check(&mut self.ar, &st.pc, c, &st.model) {
                        ZR::Unsat => return Err(Stop::End("assumed away")),
                        ZR::Sat(m) => st.model = Rc::new(m),
                        ZR::Unknown => return Err(Stop::Inc("solver gave no answer".into())),
                    }
                }
                st.pc.push(c);
                Val::U
            }
            Ext::VAssert => {
                let np = self.conc(st, &args[1], 64)?;
                let nl = self.conc(st, &args[2], 64)?;
                let msg = self.string(st, np, nl)?;
                let c = match &args[0] {
                    Val::C(x) => self.ar.c(*x as u128 & 1, 1),
                    Val::S(e) => *e,
                    _ => return Err(Stop::Viol("uninitialised".into(), format!("assertion on an uninitialised value: {}", msg))),
                };
                self.must(st, c, "assert", &msg)?;
                Val::U
            }
            Ext::VPick => {
                let n = self.conc(st, &args[2], 64)?;
                if n <= 1 {
                    return Ok(Val::C(0));
                }
                let i = st.forced.take().unwrap_or(0);
                // nothing constrains a fresh input: every value is feasible, no query needed
                if i + 1 < n {
                    let mut o = st.clone();
                    o.forced = Some(i + 1);
                    self.work.push(o);
                    self.forks += 1;
                    st.depth += 1;
                }
                let np = self.conc(st, &args[0], 64)?;
                let nl = self.conc(st, &args[1], 64)?;
                let name = self.string(st, np, nl)?;
                push(&mut st.syms, (name, Sym::Chosen(i, pick_bytes(n))));
                Val::C(i)
            }
            Ext::VConc => Val::C(self.conc(st, &args[0], 64)?),
            Ext::VPanicOk => {
                st.panic_ok = match &args[0] {
                    Val::C(0) => None,
                    Val::C(_) => Some(self.ar.t()),
                    Val::S(e) => Some(*e),
                    _ => return Err(Stop::Inc("panic policy".into())),
                };
                Val::U
            }
            Ext::VReach => {
                let p = self.conc(st, &args[0], 64)?;
                let n = self.conc(st, &args[1], 64)?;
                let s = self.string(st, p, n)?;
                *self.reached.entry(s).or_insert(0) += 1;
                Val::U
            }
            Ext::VTrace => {
                let p = self.conc(st, &args[0], 64)?;
                let n = self.conc(st, &args[1], 64)?;
                let b = self.load_bytes(st, p, n)?;
                push(&mut st.trace, Rc::new(b));
                Val::U
            }
            Ext::VCheckpoint => {
                self.checkpoints += 1;
                let h = self.canon(st);
                if !self.visited.insert(h) {
                    return Err(Stop::End("merged"));
                }
                self.distinct += 1;
                Val::U
            }
            Ext::VParam => {
                let p = self.conc(st, &args[0], 64)?;
                let n = self.conc(st, &args[1], 64)?;
                let s = self.string(st, p, n)?;
                let v = match self.params.get(&s) {
                    Some(v) => *v,
                    None => self.conc(st, &args[2], 64)?,
                };
                self.used_params.insert(s, v);
                Val::C(v)
            }
            Ext::VLive => Val::C(st.mem.heap_bytes),
        })
    }
    fn string(&mut self, st: &State, p: u64, n: u64) -> R<String> {
        let b = self.load_bytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|x| if let B::C(c) = x { *c } else { b'?' }).collect::<Vec<_>>()).into_owned())
    }

    fn compare(&mut self, x: &[B], y: &[B], eq_only: bool) -> R<Val> {
        let mut a: Vec<(B, B)> = x.iter().copied().zip(y.iter().copied()).collect();
        if a.iter().any(|(p, q)| *p == B::U || *q == B::U) {
            // bytes before a certain difference decide; be strict
            return Err(Stop::Viol("uninitialised".into(), "comparison of uninitialised bytes".into()));
        }
        // leading equal bytes
        let k = a.iter().take_while(|(p, q)| p == q).count();
        a.drain(..k);
        // nothing after a certain difference matters
        if let Some(i) = a.iter().position(|(p, q)| matches!((p, q), (B::C(m), B::C(n)) if m != n)) {
            a.truncate(i + 1);
            if eq_only {
                return Ok(Val::C(1));
            }
        }
        a.retain(|(p, q)| p != q);
        if a.is_empty() {
            return Ok(Val::C(0));
        }
        let one = self.ar.c(1, 32);
        let zero = self.ar.c(0, 32);
        let neg = self.ar.c(0xffff_ffff, 32);
        let mut r = zero;
        // from the last chunk to the first
        let chunks: Vec<&[(B, B)]> = a.chunks(8).collect();
        for c in chunks.into_iter().rev() {
            let mut p: Option<E> = None;
            let mut q: Option<E> = None;
            for (m, n) in c {
                let (m, n) = (self.b_e(*m), self.b_e(*n));
                p = Some(match p {
                    None => m,
                    Some(h) => self.ar.concat(h, m),
                });
                q = Some(match q {
                    None => n,
                    Some(h) => self.ar.concat(h, n),
                });
            }
            let (p, q) = (p.unwrap(), q.unwrap());
            let eq = self.ar.eq(p, q);
            let d = if eq_only {
                one
            } else {
                let lt = self.ar.ult(p, q);
                self.ar.ite(lt, neg, one)
            };
            r = self.ar.ite(eq, r, d);
        }
        Ok(self.of_e(r))
    }

    fn intr(&mut self, st: &mut State, name: &str, c: &CallI, args: &[Val]) -> R<Val> {
        let base = name.split('.').next().unwrap();
        let ty0 = c.args.first().map(|a| a.0);
        let lw = |m: &Module, t: Ty| match m.types.k(t) {
            TyK::Vector(n, e) => (*n, m.types.width(*e)),
            TyK::Int(w) => (0, *w),
            TyK::Ptr => (0, 64),
            _ => (0, 0),
        };
        match base {
            "lifetime" => {
                // the end of a stack object's lifetime leaves its content undefined
                let p = args.last().unwrap();
                if let Val::C(a) = p {
                    if let Some(id) = Mem::id_of(*a) {
                        if let Some(o) = st.mem.obj(id) {
                            let n = o.size;
                            if o.kind == Kind::Stack && a & OFF == o.off {
                                Exec::me(st.mem.fill(*a, n, B::U))?;
                            }
                        }
                    }
                }
                return Ok(Val::U);
            }
            "experimental" | "assume" | "dbg" | "prefetch" | "sideeffect" | "donothing" | "invariant" | "stackrestore" | "va_end" => return Ok(Val::U),
            "stacksave" => return Ok(Val::C(0)),
            "memcpy" | "memmove" => return self.ext(st, Ext::Memcpy, args, &[]),
            "memset" => return self.ext(st, Ext::Memset, args, &[]),
            "is" => return Ok(Val::C(0)), // is.constant
            "expect" => return Ok(args[0].clone()),
            "threadlocal" => return Ok(args[0].clone()),
            "objectsize" => return Ok(Val::C(!0)),
            "ptrmask" => return self.bin(st, Bin::And, 64, &args[0], &args[1]),
            "trap" | "ubsantrap" => return Err(Stop::Viol("abort".into(), format!("trap in {}", st.cur.f.name))),
            "x86" => return self.x86(st, name, args),
            "vector" => {
                // vector.reduce.OP
                let op = name.split('.').nth(2).unwrap_or("").to_string();
                let (n, w) = lw(&self.m, ty0.unwrap());
                let l = self.lanes(&args[0], n);
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = match op.as_str() {
                        "add" => self.bin(st, Bin::Add, w, &r, x)?,
                        "or" => self.bin(st, Bin::Or, w, &r, x)?,
                        "and" => self.bin(st, Bin::And, w, &r, x)?,
                        "xor" => self.bin(st, Bin::Xor, w, &r, x)?,
                        _ => return self.unsupported(name),
                    };
                }
                return Ok(r);
            }
            _ => {}
        }
        let (n, w) = lw(&self.m, ty0.unwrap());
        if n > 0 {
            let ls: Vec<Vec<Val>> = args
                .iter()
                .map(|a| match a {
                    Val::Agg(v) => v.as_ref().clone(),
                    Val::U => vec![Val::U; n as usize],
                    s => vec![s.clone(); n as usize],
                })
                .collect();
            let mut out = vec![];
            for i in 0..n as usize {
                let a: Vec<Val> = ls.iter().map(|l| l[i].clone()).collect();
                out.push(self.intr1(st, name, w, &a)?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        if base == "ucmp" || base == "scmp" {
            let rw = self.m.types.width(c.rty);
            let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let l = self.cmp(lt, w, &args[0], &args[1]);
            let g = self.cmp(gt, w, &args[0], &args[1]);
            if matches!(l, Val::U) {
                return Ok(Val::U);
            }
            let (l, g) = (self.to_e(&l, 1), self.to_e(&g, 1));
            let (o, z, m) = (self.ar.c(1, rw), self.ar.c(0, rw), self.ar.c(mask(rw), rw));
            let x = self.ar.ite(g, o, z);
            let r = self.ar.ite(l, m, x);
            return Ok(self.of_e(r));
        }
        self.intr1(st, name, w, args)
    }
    fn unsupported<T>(&self, what: &str) -> R<T> {
        Err(Stop::Inc(format!("unsupported: {}", what)))
    }

    fn intr1(&mut self, st: &mut State, name: &str, w: u32, a: &[Val]) -> R<Val> {
        let mut it = name.split('.');
        let base = it.next().unwrap();
        if a.iter().any(|x| matches!(x, Val::U)) {
            if name.contains("with.overflow") {
                return Ok(Val::Agg(Rc::new(vec![Val::U, Val::U])));
            }
            return Ok(Val::U);
        }
        let allc = w <= 64 && a.iter().all(|x| matches!(x, Val::C(_)));
        let cv = |i: usize| if let Val::C(x) = &a[i] { *x } else { 0 };
        let m = m64(w);
        match base {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.cmp(p, w, &a[0], &a[1]);
                Ok(self.ite(&c, w, &a[0], &a[1]))
            }
            "abs" => {
                let z = Val::C(0);
                let c = self.cmp(Pred::Slt, w, &a[0], &z);
                let n = self.bin(st, Bin::Sub, w, &z, &a[0])?;
                Ok(self.ite(&c, w, &n, &a[0]))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let sat = it.next() == Some("sat");
                if allc {
                    let (x, y) = (cv(0), cv(1));
                    let (r, o) = if base.starts_with('u') {
                        let (x, y) = (x as u128, y as u128);
                        match base {
                            "uadd" => (x + y, x + y > m as u128),
                            "usub" => (x.wrapping_sub(y), y > x),
                            _ => (x * y, x * y > m as u128),
                        }
                    } else {
                        let (x, y) = (sx(x, w) as i128, sx(y, w) as i128);
                        let r = match base {
                            "sadd" => x + y,
                            "ssub" => x - y,
                            _ => x * y,
                        };
                        let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                        (r as u128, r < lo || r > hi)
                    };
                    if sat {
                        return Ok(Val::C(match base {
                            "uadd" => {
                                if o {
                                    m
                                } else {
                                    r as u64
                                }
                            }
                            "usub" => {
                                if o {
                                    0
                                } else {
                                    r as u64
                                }
                            }
                            _ => return self.unsupported(name),
                        }));
                    }
                    return Ok(Val::Agg(Rc::new(vec![Val::C(r as u64 & m), Val::C(o as u64)])));
                }
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                let signed = base.starts_with('s');
                let k = match &base[1..] {
                    "add" => K::Add,
                    "sub" => K::Sub,
                    _ => K::Mul,
                };
                let r = self.ar.bin(k, x, y);
                let o = if !signed {
                    match k {
                        K::Add => self.ar.ult(r, x),
                        K::Sub => self.ar.ult(x, y),
                        _ => {
                            if w * 2 > 128 {
                                let d = if self.ar.cv(y).map_or(false, |v| v != 0) { Some((x, y)) } else if self.ar.cv(x).map_or(false, |v| v != 0) { Some((y, x)) } else { None };
                                match d {
                                    Some((v, c)) => {
                                        let lim = self.ar.c(mask(w) / self.ar.cv(c).unwrap(), w);
                                        self.ar.ult(lim, v)
                                    }
                                    None => return self.unsupported("wide multiplication"),
                                }
                            } else if let Some(c) = self.ar.cv(y).filter(|v| *v != 0) {
                                let lim = self.ar.c(mask(w) / c, w);
                                self.ar.ult(lim, x)
                            } else if let Some(c) = self.ar.cv(x).filter(|v| *v != 0) {
                                let lim = self.ar.c(mask(w) / c, w);
                                self.ar.ult(lim, y)
                            } else {
                                let (x2, y2) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                                let p = self.ar.bin(K::Mul, x2, y2);
                                let hi = self.ar.extract(p, w, w);
                                let z = self.ar.c(0, w);
                                let q = self.ar.eq(hi, z);
                                self.ar.not(q)
                            }
                        }
                    }
                } else {
                    if 2 * w > 128 {
                        return self.unsupported("wide signed overflow");
                    }
                    let (x2, y2) = (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w));
                    let p = self.ar.bin(k, x2, y2);
                    let r2 = self.ar.sext(r, 2 * w);
                    let q = self.ar.eq(p, r2);
                    self.ar.not(q)
                };
                if sat {
                    let s = match base {
                        "uadd" => self.ar.c(mask(w), w),
                        "usub" => self.ar.c(0, w),
                        _ => return self.unsupported(name),
                    };
                    let v = self.ar.ite(o, s, r);
                    return Ok(self.of_e(v));
                }
                Ok(Val::Agg(Rc::new(vec![self.of_e(r), self.of_e(o)])))
            }
            "ctpop" | "ctlz" | "cttz" => {
                if allc {
                    let x = cv(0);
                    return Ok(Val::C(match base {
                        "ctpop" => x.count_ones() as u64,
                        "ctlz" => (x.leading_zeros() - (64 - w)) as u64,
                        _ => (x.trailing_zeros().min(w)) as u64,
                    }));
                }
                let x = self.to_e(&a[0], w);
                let r = match base {
                    "ctpop" => {
                        let mut r = self.ar.c(0, w);
                        for i in 0..w {
                            let b = self.ar.extract(x, i, 1);
                            let z = self.ar.zext(b, w);
                            r = self.ar.bin(K::Add, r, z);
                        }
                        r
                    }
                    _ => {
                        let mut r = self.ar.c(w as u128, w);
                        for i in 0..w {
                            // last written wins: iterate from least to most significant decision
                            let bit = if base == "ctlz" { i } else { w - 1 - i };
                            let val = if base == "ctlz" { w - 1 - i } else { w - 1 - i };
                            let b = self.ar.extract(x, bit, 1);
                            let c = self.ar.c(val as u128, w);
                            r = self.ar.ite(b, c, r);
                        }
                        r
                    }
                };
                Ok(self.of_e(r))
            }
            "bswap" => {
                if allc {
                    return Ok(Val::C(cv(0).swap_bytes() >> (64 - w)));
                }
                let x = self.to_e(&a[0], w);
                let mut r = self.ar.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.ar.extract(x, i * 8, 8);
                    r = self.ar.concat(r, b);
                }
                Ok(self.of_e(r))
            }
            "bitreverse" => {
                if allc {
                    return Ok(Val::C(cv(0).reverse_bits() >> (64 - w)));
                }
                let x = self.to_e(&a[0], w);
                let mut r = self.ar.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.ar.extract(x, i, 1);
                    r = self.ar.concat(r, b);
                }
                Ok(self.of_e(r))
            }
            "fshl" | "fshr" => {
                let s = self.conc(st, &a[2], w)? % w as u64;
                if allc {
                    let (x, y) = (cv(0) as u128, cv(1) as u128);
                    let c = (x << w) | y;
                    let r = if base == "fshl" { (c << s) >> w } else { c >> s };
                    return Ok(Val::C(r as u64 & m));
                }
                let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                if s == 0 {
                    return Ok(self.of_e(if base == "fshl" { x } else { y }));
                }
                let s = if base == "fshl" { s as u32 } else { w - s as u32 };
                // result = x[w-s-1..0] ++ y[w-1..w-s]
                let h = self.ar.extract(x, 0, w - s);
                let l = self.ar.extract(y, w - s, s);
                let r = self.ar.concat(h, l);
                Ok(self.of_e(r))
            }
            _ => self.unsupported(&format!("llvm.{}", name)),
        }
    }
    fn ite(&mut self, c: &Val, w: u32, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(1) => a.clone(),
            Val::C(_) => b.clone(),
            Val::U => Val::U,
            Val::S(e) => {
                let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                let r = self.ar.ite(*e, x, y);
                self.of_e(r)
            }
            _ => panic!(),
        }
    }
    fn x86(&mut self, st: &mut State, name: &str, args: &[Val]) -> R<Val> {
        match name {
            "x86.sse2.pause" => Ok(Val::U),
            "x86.sse2.psad.bw" => {
                let (a, b) = (self.lanes(&args[0], 16), self.lanes(&args[1], 16));
                let mut out = vec![];
                for h in 0..2 {
                    let mut s = 0u64;
                    for i in 0..8 {
                        let x = self.conc(st, &a[h * 8 + i], 8)? as i64;
                        let y = self.conc(st, &b[h * 8 + i], 8)? as i64;
                        s += (x - y).unsigned_abs();
                    }
                    out.push(Val::C(s));
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            "x86.sse2.pmadd.wd" => {
                let (a, b) = (self.lanes(&args[0], 8), self.lanes(&args[1], 8));
                let mut out = vec![];
                for i in 0..4 {
                    let mut s = 0i64;
                    for k in 0..2 {
                        let x = sx(self.conc(st, &a[i * 2 + k], 16)?, 16);
                        let y = sx(self.conc(st, &b[i * 2 + k], 16)?, 16);
                        s += x * y;
                    }
                    out.push(Val::C(s as u64 & 0xffff_ffff));
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            "x86.sse2.pmovmskb.128" => {
                let a = self.lanes(&args[0], 16);
                let mut r = 0;
                for i in 0..16 {
                    r |= (self.conc(st, &a[i], 8)? >> 7 & 1) << i;
                }
                Ok(Val::C(r))
            }
            _ => self.unsupported(&format!("llvm.{}", name)),
        }
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let mut args: Vec<Val> = Vec::with_capacity(c.args.len());
        for a in &c.args {
            args.push(self.ov(st, &a.1));
        }
        let r = match &c.f {
            Tgt::Fn(ix) => return self.enter(st, *ix, args),
            Tgt::Intr(n) => self.intr(st, n, c, &args)?,
            Tgt::Ext(e) => self.ext(st, *e, &args, &[])?,
            Tgt::Ind(o) => {
                let v = self.ov(st, o);
                let a = self.conc(st, &v, 64)?;
                let ix = (a.wrapping_sub(FN_BASE) / 16) as usize;
                if a < FN_BASE || a % 16 != 0 || ix >= self.m.fns.len() {
                    return Err(Stop::Viol("memory".into(), format!("call through an invalid function pointer {:#x}", a)));
                }
                if let Some(e) = ext_of(&self.m.fns[ix].name) {
                    self.ext(st, e, &args, &[])?
                } else if self.m.fns[ix].body.is_some() {
                    return self.enter(st, ix, args);
                } else {
                    return self.unsupported(&format!("external function {}", self.m.fns[ix].name));
                }
            }
            Tgt::Asm(s) => {
                if s.is_empty() || s.trim().is_empty() {
                    // optimisation barrier; returns its input if it has an output
                    args.first().cloned().unwrap_or(Val::U)
                } else if s.contains("cpuid") {
                    // no optional instructions
                    if self.m.types.is_scalar(c.rty) {
                        Val::C(0)
                    } else {
                        Val::Agg(Rc::new(vec![Val::C(0); self.m.types.count(c.rty) as usize]))
                    }
                } else if s == "nop" || s.starts_with(".p2align") {
                    Val::U
                } else if s.starts_with("cmp $1, $2") && s.contains("cmova $3, $0") && args.len() == 4 {
                    let k = self.cmp(Pred::Ugt, 32, &args[1], &args[0]);
                    self.ite(&k, 64, &args[2], &args[3])
                } else {
                    return self.unsupported(&format!("asm {}", s));
                }
            }
            Tgt::Unknown(n) => return self.unsupported(&format!("external function {}", n)),
        };
        self.set(st, c.d, r);
        self.finish_call(st, c.normal);
        Ok(())
    }

    // ---- main loop ----------------------------------------------------------------------------

    fn path(&mut self, st: &mut State) -> Stop {
        let mut budget = 0u64;
        loop {
            budget += 1;
            if budget & 0xfffff == 0 && self.start.elapsed().as_secs_f64() > self.lim.max_time {
                return Stop::Inc("time limit".into());
            }
            self.steps += 1;
            st.steps += 1;
            if st.steps > self.lim.max_steps {
                return Stop::Viol("hang".into(), format!("no result after {} instructions", self.lim.max_steps));
            }
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    #[inline]
    fn step(&mut self, st: &mut State) -> R<()> {
        let f: &'static Func = st.cur.f;
        let ins = &f.blocks[st.cur.blk as usize].ins[st.cur.ip as usize];
        match ins {
            I::Bin(d, op, n, w, a, b) => {
                let (x, y) = (self.ov(st, a), self.ov(st, b));
                let r = if *n == 0 {
                    self.bin(st, *op, *w, &x, &y)?
                } else {
                    let (x, y) = (self.lanes(&x, *n), self.lanes(&y, *n));
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        o.push(self.bin(st, *op, *w, &x[i], &y[i])?);
                    }
                    Val::Agg(Rc::new(o))
                };
                st.cur.regs[*d as usize] = r;
            }
            I::Cmp(d, p, n, w, a, b) => {
                let (x, y) = (self.ov(st, a), self.ov(st, b));
                let r = if *n == 0 {
                    self.cmp(*p, *w, &x, &y)
                } else {
                    let (x, y) = (self.lanes(&x, *n), self.lanes(&y, *n));
                    Val::Agg(Rc::new((0..*n as usize).map(|i| self.cmp(*p, *w, &x[i], &y[i])).collect()))
                };
                st.cur.regs[*d as usize] = r;
            }
            I::Cast(d, c, n, fw, tw, a) => {
                let x = self.ov(st, a);
                let r = if *n == 0 {
                    self.cast(*c, *fw, *tw, &x)
                } else {
                    let x = self.lanes(&x, *n);
                    Val::Agg(Rc::new(x.iter().map(|v| self.cast(*c, *fw, *tw, v)).collect()))
                };
                st.cur.regs[*d as usize] = r;
            }
            I::BitCast(d, t, t2, a) => {
                let x = self.ov(st, a);
                let r = self.bitcast(*t, *t2, &x);
                st.cur.regs[*d as usize] = r;
            }
            I::Load(d, t, w, p, a) => {
                let x = self.ov(st, p);
                let r = self.load(st, *t, *w, &x, *a)?;
                st.cur.regs[*d as usize] = r;
            }
            I::Store(t, w, v, p, a) => {
                let (x, y) = (self.ov(st, v), self.ov(st, p));
                self.store(st, *t, *w, &x, &y, *a)?;
            }
            I::Gep(d, b, off, terms) => {
                let x = self.ov(st, b);
                let mut acc = match &x {
                    Val::C(p) => Val::C(p.wrapping_add(*off)),
                    Val::U => Val::U,
                    v => self.bin(st, Bin::Add, 64, v, &Val::C(*off))?,
                };
                for (o, w, sc) in terms {
                    let i = self.ov(st, o);
                    let i = self.cast(Cast::SExt, *w, 64, &i);
                    let s = self.bin(st, Bin::Mul, 64, &i, &Val::C(*sc))?;
                    acc = self.bin(st, Bin::Add, 64, &acc, &s)?;
                }
                st.cur.regs[*d as usize] = acc;
            }
            I::Alloca(d, size, align, cnt) => {
                let n = match cnt {
                    None => 1,
                    Some(o) => {
                        let v = self.ov(st, o);
                        self.conc(st, &v, 64)?
                    }
                };
                let a = st.mem.alloc(size * n, *align, Kind::Stack, false);
                st.cur.allocas.push(a);
                st.cur.regs[*d as usize] = Val::C(a);
            }
            I::Br(t) => {
                self.goto(st, *t);
                return Ok(());
            }
            I::CondBr(c, a, b) => {
                let v = self.ov(st, c);
                let t = self.decide_v(st, &v)?;
                self.goto(st, if t { *a } else { *b });
                return Ok(());
            }
            I::Switch(w, v, def, cs) => {
                let v = self.ov(st, v);
                let t = match &v {
                    Val::C(x) => cs.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*def),
                    Val::U => return Err(Stop::Viol("uninitialised".into(), "switch on an uninitialised value".into())),
                    Val::S(e) => {
                        if self.uninit(*e) {
                            return Err(Stop::Viol("uninitialised".into(), "switch on uninitialised memory".into()));
                        }
                        let x = self.ar.eval(*e, &st.model) as u64;
                        let t = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                        let mut cond = self.ar.f();
                        for (k, b) in cs {
                            if (t == *def) != (*b == t) || (t != *def && *b == t) {
                                // default target: negation of every case leading elsewhere
                                let kk = self.ar.c(*k as u128, *w);
                                let q = self.ar.eq(*e, kk);
                                cond = self.ar.or(cond, q);
                            }
                        }
                        if t == *def {
                            cond = self.ar.not(cond);
                        }
                        let r = self.decide(st, cond)?;
                        debug_assert!(r);
                        t
                    }
                    _ => panic!(),
                };
                self.goto(st, t);
                return Ok(());
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|o| self.ov(st, o));
                for a in std::mem::take(&mut st.cur.allocas) {
                    st.mem.free(Mem::id_of(a).unwrap());
                }
                match st.stack.pop() {
                    None => return Err(Stop::End("completed")),
                    Some(fr) => {
                        st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        let (d, normal) = match &st.cur.f.blocks[st.cur.blk as usize].ins[st.cur.ip as usize] {
                            I::Call(c) => (c.d, c.normal),
                            _ => unreachable!(),
                        };
                        if let Some(r) = r {
                            self.set(st, d, r);
                        }
                        self.finish_call(st, normal);
                    }
                }
                return Ok(());
            }
            I::Unreachable => return Err(Stop::Viol("ub".into(), format!("unreachable code reached in {}", f.name))),
            I::Call(c) => return self.call(st, c),
            I::Select(d, n, t, c, a, b) => {
                let cv = self.ov(st, c);
                let (x, y) = (self.ov(st, a), self.ov(st, b));
                let r = if *n == 0 {
                    match &cv {
                        Val::C(1) => x,
                        Val::C(_) => y,
                        Val::U => Val::U,
                        Val::S(e) => {
                            let e = *e;
                            if *t != self.ptr_ty && self.m.types.is_scalar(*t) && !matches!(x, Val::U) && !matches!(y, Val::U) {
                                let w = self.m.types.width(*t);
                                self.ite(&cv, w, &x, &y)
                            } else if self.decide(st, e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => panic!(),
                    }
                } else {
                    let et = self.m.types.elem(*t, 0);
                    let w = self.m.types.width(et);
                    let (c, x, y) = (self.lanes(&cv, *n), self.lanes(&x, *n), self.lanes(&y, *n));
                    Val::Agg(Rc::new((0..*n as usize).map(|i| self.ite(&c[i], w, &x[i], &y[i])).collect()))
                };
                st.cur.regs[*d as usize] = r;
            }
            I::ExtractValue(d, a, ix) => {
                let mut v = self.ov(st, a);
                for i in ix {
                    v = match &v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        Val::U => Val::U,
                        _ => panic!("extractvalue"),
                    };
                }
                st.cur.regs[*d as usize] = v;
            }
            I::InsertValue(d, t, a, b, ix) => {
                let v = self.ov(st, a);
                let x = self.ov(st, b);
                let r = self.insert(*t, v, x, ix);
                st.cur.regs[*d as usize] = r;
            }
            I::ExtractElement(d, a, i) => {
                let v = self.ov(st, a);
                let i = self.ov(st, i);
                let i = self.conc(st, &i, 64)?;
                let r = match &v {
                    Val::Agg(x) => x.get(i as usize).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                };
                st.cur.regs[*d as usize] = r;
            }
            I::InsertElement(d, n, a, e, i) => {
                let v = self.ov(st, a);
                let x = self.ov(st, e);
                let i = self.ov(st, i);
                let i = self.conc(st, &i, 64)?;
                let mut l = self.lanes(&v, *n);
                if (i as usize) < l.len() {
                    l[i as usize] = x;
                }
                st.cur.regs[*d as usize] = Val::Agg(Rc::new(l));
            }
            I::Shuffle(d, n, a, b, m) => {
                let (x, y) = (self.ov(st, a), self.ov(st, b));
                let mut l = self.lanes(&x, *n);
                l.extend(self.lanes(&y, *n));
                let r = m.iter().map(|i| if *i < 0 { Val::U } else { l[*i as usize].clone() }).collect();
                st.cur.regs[*d as usize] = Val::Agg(Rc::new(r));
            }
            I::Freeze(d, t, a) => {
                let v = self.ov(st, a);
                let r = match v {
                    Val::U if self.m.types.is_scalar(*t) => Val::C(0),
                    v => v,
                };
                st.cur.regs[*d as usize] = r;
            }
            I::Rmw(d, op, w, p, v) => {
                let (p, v) = (self.ov(st, p), self.ov(st, v));
                let a = self.conc(st, &p, 64)?;
                let n = (*w as u64).div_ceil(8);
                let b = self.load_bytes(st, a, n)?;
                let old = self.byte_val(&b);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, Bin::Add, *w, &old, &v)?,
                    "sub" => self.bin(st, Bin::Sub, *w, &old, &v)?,
                    "or" => self.bin(st, Bin::Or, *w, &old, &v)?,
                    "and" => self.bin(st, Bin::And, *w, &old, &v)?,
                    _ => return self.unsupported(&format!("atomicrmw {}", op)),
                };
                match new {
                    Val::C(x) => Exec::me(st.mem.store_conc(a, n, x))?,
                    v => {
                        let e = self.to_e(&v, *w);
                        let b = self.e_bytes(e);
                        Exec::me(st.mem.store_bytes(a, &b))?
                    }
                }
                st.cur.regs[*d as usize] = old;
            }
            I::CmpXchg(d, w, p, c, nw) => {
                let (p, c, nv) = (self.ov(st, p), self.ov(st, c), self.ov(st, nw));
                let a = self.conc(st, &p, 64)?;
                let n = (*w as u64).div_ceil(8);
                let b = self.load_bytes(st, a, n)?;
                let old = self.byte_val(&b);
                let q = self.cmp(Pred::Eq, *w, &old, &c);
                let ok = self.decide_v(st, &q)?;
                if ok {
                    match nv {
                        Val::C(x) => Exec::me(st.mem.store_conc(a, n, x))?,
                        v => {
                            let e = self.to_e(&v, *w);
                            let b = self.e_bytes(e);
                            Exec::me(st.mem.store_bytes(a, &b))?
                        }
                    }
                }
                st.cur.regs[*d as usize] = Val::Agg(Rc::new(vec![old, Val::C(ok as u64)]));
            }
            I::Nop => {}
            I::Unsupported(s) => return self.unsupported(s),
        }
        st.cur.ip += 1;
        Ok(())
    }
    fn insert(&mut self, t: Ty, v: Val, x: Val, ix: &[u32]) -> Val {
        if ix.is_empty() {
            return x;
        }
        let n = self.m.types.count(t) as u32;
        let mut l = self.lanes(&v, n);
        let i = ix[0] as usize;
        let et = self.m.types.elem(t, i);
        let old = std::mem::replace(&mut l[i], Val::U);
        l[i] = self.insert(et, old, x, &ix[1..]);
        Val::Agg(Rc::new(l))
    }

    // ---- state merging ------------------------------------------------------------------------

    fn canon(&mut self, st: &State) -> (u64, u64) {
        struct H {
            a: u64,
            b: u64,
            nums: HashMap<u64, u32, Fx>,
            order: Vec<u64>,
            es: Vec<E>,
        }
        impl H {
            fn put(&mut self, tag: u8, x: u64) {
                self.a = (self.a ^ x ^ ((tag as u64) << 56)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                self.a ^= self.a >> 32;
                self.b = (self.b.rotate_left(7) ^ x).wrapping_mul(0xC2B2_AE3D_27D4_EB4F).wrapping_add(tag as u64);
                self.b ^= self.b >> 29;
            }
        }
        let mut h = H { a: 1, b: 2, nums: HashMap::default(), order: vec![], es: vec![] };
        let nglob = self.nglob;
        fn word(h: &mut H, mem: &Mem, nglob: u64, x: u64) {
            if let Some(id) = Mem::id_of(x) {
                if id < mem.next {
                    match mem.slot(id) {
                        Some(Slot::Live(o)) if id >= nglob => {
                            let off = (x & OFF).wrapping_sub(o.off);
                            let k = h.nums.len() as u32;
                            let n = match h.nums.get(&id) {
                                Some(n) => *n,
                                None => {
                                    h.nums.insert(id, k);
                                    h.order.push(id);
                                    k
                                }
                            };
                            h.put(2, n as u64);
                            h.put(3, off);
                            return;
                        }
                        Some(Slot::Freed(..)) => {
                            h.put(4, x & OFF);
                            return;
                        }
                        _ => {}
                    }
                }
            }
            h.put(1, x);
        }
        fn val(h: &mut H, mem: &Mem, nglob: u64, ar: &Arena, v: &Val) {
            match v {
                Val::C(x) => word(h, mem, nglob, *x),
                Val::S(e) => {
                    if let Some(i) = ar.var_index(*e) {
                        if ar.var_undef[i as usize] {
                            h.put(5, 0);
                            return;
                        }
                    }
                    h.put(6, *e as u64);
                    h.es.push(*e);
                }
                Val::U => h.put(5, 0),
                Val::Agg(l) => {
                    h.put(7, l.len() as u64);
                    for x in l.iter() {
                        val(h, mem, nglob, ar, x);
                    }
                }
            }
        }
        let mem = &st.mem;
        for fr in st.stack.iter().map(|r| r.as_ref()).chain(std::iter::once(&st.cur)) {
            h.put(8, fr.f.ix as u64);
            h.put(9, ((fr.blk as u64) << 32) | fr.ip as u64);
            let live = fr.f.live_after(fr.blk, fr.ip);
            for r in live {
                h.put(10, r as u64);
                val(&mut h, mem, nglob, &self.ar, &fr.regs[r as usize]);
            }
            // stack objects stay live until return, but only matter when reachable
        }
        match st.panic_ok {
            None => h.put(11, 0),
            Some(e) => {
                h.put(12, e as u64);
                h.es.push(e)
            }
        }
        for (id, init) in &self.global_init {
            let o = mem.obj(*id).unwrap();
            if !Rc::ptr_eq(o, init) {
                h.put(13, *id);
                h.order.push(*id);
            }
        }
        let mut i = 0;
        while i < h.order.len() {
            let id = h.order[i];
            i += 1;
            let o = mem.obj(id).unwrap().clone();
            h.put(14, o.size);
            h.put(15, ((o.kind as u64) << 32) | o.align);
            for pg in &o.pages {
                let n = pg.data.len();
                if pg.plain() {
                    let mut k = 0;
                    while k + 8 <= n {
                        let x = u64::from_le_bytes(pg.data[k..k + 8].try_into().unwrap());
                        word(&mut h, mem, nglob, x);
                        k += 8;
                    }
                    while k < n {
                        h.put(16, pg.data[k] as u64);
                        k += 1;
                    }
                } else {
                    let mut k = 0;
                    while k < n {
                        if k % 8 == 0 && k + 8 <= n && (k..k + 8).all(|j| matches!(pg.get(j), B::C(_))) {
                            let x = u64::from_le_bytes(pg.data[k..k + 8].try_into().unwrap());
                            word(&mut h, mem, nglob, x);
                            k += 8;
                            continue;
                        }
                        match pg.get(k) {
                            B::C(c) => h.put(16, c as u64),
                            B::U => h.put(5, 0),
                            B::S(e) => {
                                h.put(6, e as u64);
                                h.es.push(e);
                            }
                        }
                        k += 1;
                    }
                }
            }
        }
        // constraints that concern live variables
        let mut vars: Vec<u32> = vec![];
        h.es.sort_unstable();
        h.es.dedup();
        for e in h.es.clone() {
            vars.extend(self.ar.support(e).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        let mut cs = if vars.is_empty() { vec![] } else { Solver::slice(&self.ar, &st.pc, &vars) };
        cs.sort_unstable();
        cs.dedup();
        for c in cs {
            h.put(17, c as u64);
        }
        (h.a, h.b)
    }
}
