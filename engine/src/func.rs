//! Executable form of functions.
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    Agg(Rc<Vec<Val>>),
    U,
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(Reg),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    RAlloc,
    RAllocZ,
    RDealloc,
    RRealloc,
    Nop,
    Zero,
    Malloc,
    Calloc,
    Free,
    ReallocC,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Panic,
    PanicUb,
    AllocErr,
    Abort,
    VSym,
    VAssume,
    VAssert,
    VConc,
    VPick,
    VPanicOk,
    VReach,
    VTrace,
    VCheckpoint,
    VParam,
    VLive,
}

#[derive(Clone, Debug)]
pub enum Tgt {
    Fn(usize),
    Intr(String),
    Ext(Ext),
    Unknown(String),
    Ind(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub d: Option<Reg>,
    pub rty: Ty,
    pub f: Tgt,
    pub args: Vec<(Ty, Opnd)>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Reg, Bin, u32, u32, Opnd, Opnd),  // d, op, lanes (0 scalar), width
    Cmp(Reg, Pred, u32, u32, Opnd, Opnd), // d, pred, lanes, width
    Cast(Reg, Cast, u32, u32, u32, Opnd), // d, cast, lanes, from, to
    BitCast(Reg, Ty, Ty, Opnd),
    Load(Reg, Ty, u32, Opnd, u64), // width 0: aggregate
    Store(Ty, u32, Opnd, Opnd, u64),
    Gep(Reg, Opnd, u64, Vec<(Opnd, u32, u64)>),
    Alloca(Reg, u64, u64, Option<Opnd>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u64, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Call(Box<CallI>),
    Select(Reg, u32, Ty, Opnd, Opnd, Opnd), // d, cond lanes, ty
    ExtractValue(Reg, Opnd, Vec<u32>),
    InsertValue(Reg, Ty, Opnd, Opnd, Vec<u32>),
    ExtractElement(Reg, Opnd, Opnd),
    InsertElement(Reg, u32, Opnd, Opnd, Opnd),
    Shuffle(Reg, u32, Opnd, Opnd, Vec<i64>),
    Freeze(Reg, Ty, Opnd),
    Rmw(Reg, String, u32, Opnd, Opnd),
    CmpXchg(Reg, u32, Opnd, Opnd, Opnd),
    Nop,
    Unsupported(String),
}

pub struct Blk {
    pub phis: Vec<(Reg, Vec<(u32, Opnd)>)>,
    pub ins: Vec<I>,
}

pub struct Func {
    pub ix: usize,
    pub name: String,
    pub nregs: u32,
    pub nparams: usize,
    pub blocks: Vec<Blk>,
    /// live-in registers per block, computed on demand
    pub live: std::cell::RefCell<Option<Vec<Vec<u64>>>>,
    pub seen: std::cell::RefCell<Vec<bool>>,
}

pub fn ext_of(n: &str) -> Option<Ext> {
    Some(match n {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "free" => Ext::Free,
        "realloc" => Ext::ReallocC,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "memcmp" => Ext::Memcmp,
        "bcmp" => Ext::Bcmp,
        "strlen" => Ext::Strlen,
        "abort" => Ext::Abort,
        "getenv" => Ext::Zero,
        "vf_sym" => Ext::VSym,
        "vf_assume" => Ext::VAssume,
        "vf_assert" => Ext::VAssert,
        "vf_concretize" => Ext::VConc,
        "vf_pick" => Ext::VPick,
        "vf_panic_ok" => Ext::VPanicOk,
        "vf_reach" => Ext::VReach,
        "vf_trace" => Ext::VTrace,
        "vf_checkpoint" => Ext::VCheckpoint,
        "vf_param" => Ext::VParam,
        "vf_live_bytes" => Ext::VLive,
        _ if n.ends_with("12___rust_alloc") => Ext::RAlloc,
        _ if n.ends_with("19___rust_alloc_zeroed") => Ext::RAllocZ,
        _ if n.ends_with("14___rust_dealloc") => Ext::RDealloc,
        _ if n.ends_with("14___rust_realloc") => Ext::RRealloc,
        _ if n.contains("___rust_no_alloc_shim_is_unstable") => Ext::Nop,
        _ if n.contains("4core9panicking") && n.contains("nounwind") => Ext::PanicUb,
        _ if n.contains("4core9panicking") && n.contains("panic_cannot_unwind") => Ext::PanicUb,
        _ if n.contains("4core9panicking9panic_fmt") => Ext::Panic,
        _ if n.contains("5alloc5alloc18handle_alloc_error") => Ext::AllocErr,
        _ if n.contains("3std7process5abort") => Ext::Abort,
        _ if n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("rust_panic")) => Ext::Panic,
        // std_detect: no optional CPU feature
        _ if n.contains("10std_detect6detect") && n.contains("detect_and_initialize") => Ext::Zero,
        _ => return None,
    })
}

pub struct Cx<'a> {
    pub m: &'a mut Module,
    pub ar: &'a mut Arena,
    pub addr_of: &'a HashMap<String, u64>,
}

impl<'a> Cx<'a> {
    pub fn cst(&mut self, t: Ty, c: &Cst) -> Val {
        match c {
            Cst::Int(v) => {
                let w = self.m.types.width(t);
                if w <= 64 {
                    Val::C(*v as u64)
                } else {
                    Val::S(self.ar.c(*v, w))
                }
            }
            Cst::Undef => Val::U,
            Cst::Bad(_) => Val::U,
            Cst::Zero => self.zero(t),
            Cst::Str(s) => Val::Agg(Rc::new(s.iter().map(|b| Val::C(*b as u64)).collect())),
            Cst::Agg(v) => Val::Agg(Rc::new(v.iter().map(|(t, c)| self.cst(*t, c)).collect())),
            Cst::Global(g, off) => {
                let (mut g, mut o) = (g.clone(), *off);
                while let Some((t, d)) = self.m.aliases.get(&g) {
                    o += d;
                    g = t.clone();
                }
                match self.addr_of.get(&g) {
                    Some(a) => Val::C(a.wrapping_add(o as u64)),
                    None => Val::C(0),
                }
            }
        }
    }
    pub fn zero(&mut self, t: Ty) -> Val {
        if self.m.types.is_scalar(t) {
            let w = self.m.types.width(t);
            return if w <= 64 { Val::C(0) } else { Val::S(self.ar.c(0, w)) };
        }
        let n = self.m.types.count(t);
        Val::Agg(Rc::new((0..n).map(|i| {
            let e = self.m.types.elem(t, i);
            self.zero(e)
        }).collect()))
    }
    fn op(&mut self, t: Ty, o: &Op) -> Opnd {
        match o {
            Op::R(r) => Opnd::R(*r),
            Op::K(c) => Opnd::K(self.cst(t, c)),
        }
    }
    fn lw(&self, t: Ty) -> (u32, u32) {
        match self.m.types.k(t) {
            TyK::Vector(n, e) => (*n, self.m.types.width(*e)),
            _ => (0, self.m.types.width(t)),
        }
    }
    pub fn compile(&mut self, ix: usize) -> Func {
        let pf = self.m.parse_fn(ix);
        let name = self.m.fns[ix].name.clone();
        let ptr = self.m.types.mk(TyK::Ptr);
        let i1 = self.m.types.int(1);
        let mut blocks = vec![];
        for b in &pf.blocks {
            let mut phis = vec![];
            let mut ins = vec![];
            for x in b {
                let y = match x {
                    PI::Phi(d, t, v) => {
                        phis.push((*d, v.iter().map(|(o, b)| (*b, self.op(*t, o))).collect()));
                        continue;
                    }
                    PI::Bin(d, b, t, x, y) => {
                        if matches!(self.m.types.k(*t), TyK::Float(_)) {
                            I::Unsupported("float".into())
                        } else {
                            let (n, w) = self.lw(*t);
                            I::Bin(*d, *b, n, w, self.op(*t, x), self.op(*t, y))
                        }
                    }
                    PI::Cmp(d, p, t, x, y) => {
                        let (n, w) = self.lw(*t);
                        I::Cmp(*d, *p, n, w, self.op(*t, x), self.op(*t, y))
                    }
                    PI::Cast(d, c, t, x, t2) => {
                        let v = self.op(*t, x);
                        if *c == Cast::Bit {
                            I::BitCast(*d, *t, *t2, v)
                        } else {
                            let (n, w) = self.lw(*t);
                            let (_, w2) = self.lw(*t2);
                            I::Cast(*d, *c, n, w, w2, v)
                        }
                    }
                    PI::Load(d, t, p, a) => {
                        let w = if self.m.types.is_scalar(*t) { self.m.types.width(*t) } else { 0 };
                        I::Load(*d, *t, w, self.op(ptr, p), *a)
                    }
                    PI::Store(t, v, p, a) => {
                        let w = if self.m.types.is_scalar(*t) { self.m.types.width(*t) } else { 0 };
                        I::Store(*t, w, self.op(*t, v), self.op(ptr, p), *a)
                    }
                    PI::Gep(d, t, b, ixs) => {
                        let base = self.op(ptr, b);
                        let mut off = 0u64;
                        let mut terms = vec![];
                        let mut cur = *t;
                        for (k, (it, io)) in ixs.iter().enumerate() {
                            let w = self.m.types.width(*it);
                            let c = match io {
                                Op::K(Cst::Int(v)) => {
                                    let s = 128 - w;
                                    Some((((*v << s) as i128) >> s) as i64)
                                }
                                Op::K(_) => Some(0),
                                _ => None,
                            };
                            if k == 0 {
                                let sz = self.m.types.size(*t);
                                match c {
                                    Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(sz)),
                                    None => terms.push((self.op(*it, io), w, sz)),
                                }
                            } else {
                                match (c, self.m.types.k(cur).clone()) {
                                    (Some(c), TyK::Struct(..)) => {
                                        off = off.wrapping_add(self.m.types.off(cur, c as usize));
                                        cur = self.m.types.elem(cur, c as usize);
                                    }
                                    (c, TyK::Array(_, e)) | (c, TyK::Vector(_, e)) => {
                                        let sz = self.m.types.size(e);
                                        match c {
                                            Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(sz)),
                                            None => terms.push((self.op(*it, io), w, sz)),
                                        }
                                        cur = e;
                                    }
                                    _ => panic!("gep"),
                                }
                            }
                        }
                        I::Gep(*d, base, off, terms)
                    }
                    PI::Alloca(d, t, n, a) => {
                        let cnt = n.as_ref().and_then(|(t, o)| match o {
                            Op::K(Cst::Int(1)) => None,
                            o => Some(self.op(*t, o)),
                        });
                        I::Alloca(*d, self.m.types.size(*t), *a, cnt)
                    }
                    PI::Br(t) => I::Br(*t),
                    PI::CondBr(c, a, b) => I::CondBr(self.op(i1, c), *a, *b),
                    PI::Switch(t, v, d, cs) => {
                        let w = self.m.types.width(*t);
                        I::Switch(w, self.op(*t, v), *d, cs.iter().map(|(c, b)| (*c as u64, *b)).collect())
                    }
                    PI::Ret(v) => I::Ret(v.as_ref().map(|(t, o)| self.op(*t, o))),
                    PI::Unreachable => I::Unreachable,
                    PI::Call { d, rty, f, args, normal } => {
                        let f = match f {
                            Callee::Asm(s) => Tgt::Asm(s.clone()),
                            Callee::Ind(o) => Tgt::Ind(self.op(ptr, o)),
                            Callee::Name(n) => {
                                let mut n = n.clone();
                                while let Some((t, _)) = self.m.aliases.get(&n) {
                                    n = t.clone();
                                }
                                if let Some(s) = n.strip_prefix("llvm.") {
                                    Tgt::Intr(s.to_string())
                                } else if let Some(e) = ext_of(&n) {
                                    Tgt::Ext(e)
                                } else {
                                    match self.m.fn_ix.get(&n) {
                                        Some(ix) if self.m.fns[*ix].body.is_some() => Tgt::Fn(*ix),
                                        _ => Tgt::Unknown(n),
                                    }
                                }
                            }
                        };
                        let args = args.iter().map(|(t, o)| {
                            if matches!(self.m.types.k(*t), TyK::Meta | TyK::Token) { (*t, Opnd::K(Val::U)) } else { (*t, self.op(*t, o)) }
                        }).collect();
                        I::Call(Box::new(CallI { d: *d, rty: *rty, f, args, normal: *normal }))
                    }
                    PI::Select(d, ct, c, t, x, y) => {
                        let n = match self.m.types.k(*ct) {
                            TyK::Vector(n, _) => *n,
                            _ => 0,
                        };
                        I::Select(*d, n, *t, self.op(*ct, c), self.op(*t, x), self.op(*t, y))
                    }
                    PI::ExtractValue(d, t, x, ix) => I::ExtractValue(*d, self.op(*t, x), ix.clone()),
                    PI::InsertValue(d, t, x, t2, y, ix) => I::InsertValue(*d, *t, self.op(*t, x), self.op(*t2, y), ix.clone()),
                    PI::ExtractElement(d, t, x, t2, y) => I::ExtractElement(*d, self.op(*t, x), self.op(*t2, y)),
                    PI::InsertElement(d, t, x, t1, e, t2, y) => {
                        let n = self.m.types.count(*t) as u32;
                        I::InsertElement(*d, n, self.op(*t, x), self.op(*t1, e), self.op(*t2, y))
                    }
                    PI::Shuffle(d, t, x, y, m) => {
                        let n = self.m.types.count(*t) as u32;
                        I::Shuffle(*d, n, self.op(*t, x), self.op(*t, y), m.clone())
                    }
                    PI::Freeze(d, t, x) => I::Freeze(*d, *t, self.op(*t, x)),
                    PI::Rmw(d, o, t, p, v) => {
                        let w = self.m.types.width(*t);
                        I::Rmw(*d, o.clone(), w, self.op(ptr, p), self.op(*t, v))
                    }
                    PI::CmpXchg(d, t, p, c, n) => {
                        let w = self.m.types.width(*t);
                        I::CmpXchg(*d, w, self.op(ptr, p), self.op(*t, c), self.op(*t, n))
                    }
                    PI::Nop => I::Nop,
                    PI::Unsupported(s) => I::Unsupported(s.clone()),
                };
                ins.push(y);
            }
            blocks.push(Blk { phis, ins });
        }
        let n = blocks.len();
        Func {
            ix,
            name,
            nregs: pf.nregs,
            nparams: pf.params.len(),
            blocks,
            live: std::cell::RefCell::new(None),
            seen: std::cell::RefCell::new(vec![false; n]),
        }
    }
}

fn opr(o: &Opnd, f: &mut dyn FnMut(Reg)) {
    if let Opnd::R(r) = o {
        f(*r)
    }
}

pub fn uses(i: &I, f: &mut dyn FnMut(Reg)) {
    match i {
        I::Bin(_, _, _, _, a, b) | I::Cmp(_, _, _, _, a, b) => {
            opr(a, f);
            opr(b, f)
        }
        I::Cast(_, _, _, _, _, a) | I::BitCast(_, _, _, a) | I::Load(_, _, _, a, _) | I::Freeze(_, _, a) | I::ExtractValue(_, a, _) => opr(a, f),
        I::Store(_, _, a, b, _) => {
            opr(a, f);
            opr(b, f)
        }
        I::Gep(_, b, _, ts) => {
            opr(b, f);
            for t in ts {
                opr(&t.0, f)
            }
        }
        I::Alloca(_, _, _, Some(a)) => opr(a, f),
        I::CondBr(c, _, _) => opr(c, f),
        I::Switch(_, v, _, _) => opr(v, f),
        I::Ret(Some(v)) => opr(v, f),
        I::Call(c) => {
            if let Tgt::Ind(o) = &c.f {
                opr(o, f)
            }
            for a in &c.args {
                opr(&a.1, f)
            }
        }
        I::Select(_, _, _, a, b, c) => {
            opr(a, f);
            opr(b, f);
            opr(c, f)
        }
        I::InsertValue(_, _, a, b, _) | I::ExtractElement(_, a, b) | I::Shuffle(_, _, a, b, _) | I::Rmw(_, _, _, a, b) => {
            opr(a, f);
            opr(b, f)
        }
        I::InsertElement(_, _, a, b, c) | I::CmpXchg(_, _, a, b, c) => {
            opr(a, f);
            opr(b, f);
            opr(c, f)
        }
        _ => {}
    }
}

pub fn def(i: &I) -> Option<Reg> {
    match i {
        I::Bin(d, ..) | I::Cmp(d, ..) | I::Cast(d, ..) | I::BitCast(d, ..) | I::Load(d, ..) | I::Gep(d, ..) | I::Alloca(d, ..)
        | I::Select(d, ..) | I::ExtractValue(d, ..) | I::InsertValue(d, ..) | I::ExtractElement(d, ..) | I::InsertElement(d, ..)
        | I::Shuffle(d, ..) | I::Freeze(d, ..) | I::Rmw(d, ..) | I::CmpXchg(d, ..) => Some(*d),
        I::Call(c) => c.d,
        _ => None,
    }
}

fn succs(b: &Blk) -> Vec<u32> {
    match b.ins.last() {
        Some(I::Br(t)) => vec![*t],
        Some(I::CondBr(_, a, b)) => vec![*a, *b],
        Some(I::Switch(_, _, d, cs)) => {
            let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect();
            v.push(*d);
            v.sort();
            v.dedup();
            v
        }
        Some(I::Call(c)) => c.normal.into_iter().collect(),
        _ => vec![],
    }
}

impl Func {
    /// registers live just after instruction `ip` of block `blk` (a call), not counting its result
    pub fn live_after(&self, blk: u32, ip: u32) -> Vec<Reg> {
        if self.live.borrow().is_none() {
            let nw = (self.nregs as usize + 63) / 64;
            let nb = self.blocks.len();
            let mut inn = vec![vec![0u64; nw]; nb];
            let mut ch = true;
            while ch {
                ch = false;
                for b in (0..nb).rev() {
                    let mut s = self.out_set(&inn, b, nw);
                    for i in self.blocks[b].ins.iter().rev() {
                        if let Some(d) = def(i) {
                            s[d as usize / 64] &= !(1 << (d % 64));
                        }
                        uses(i, &mut |r| s[r as usize / 64] |= 1 << (r % 64));
                    }
                    if s != inn[b] {
                        inn[b] = s;
                        ch = true;
                    }
                }
            }
            *self.live.borrow_mut() = Some(inn);
        }
        let l = self.live.borrow();
        let inn = l.as_ref().unwrap();
        let nw = (self.nregs as usize + 63) / 64;
        let mut s = self.out_set(inn, blk as usize, nw);
        let ins = &self.blocks[blk as usize].ins;
        for i in ins[ip as usize + 1..].iter().rev() {
            if let Some(d) = def(i) {
                s[d as usize / 64] &= !(1 << (d % 64));
            }
            uses(i, &mut |r| s[r as usize / 64] |= 1 << (r % 64));
        }
        if let Some(d) = def(&ins[ip as usize]) {
            s[d as usize / 64] &= !(1 << (d % 64));
        }
        (0..self.nregs).filter(|r| s[*r as usize / 64] >> (r % 64) & 1 == 1).collect()
    }
    // block-entry sets are taken before the phis (phi results are block-local defs at entry)
    fn out_set(&self, inn: &[Vec<u64>], b: usize, nw: usize) -> Vec<u64> {
        let mut s = vec![0u64; nw];
        for t in succs(&self.blocks[b]) {
            let mut x = inn[t as usize].clone();
            for (d, _) in &self.blocks[t as usize].phis {
                x[*d as usize / 64] &= !(1 << (d % 64));
            }
            for (_, v) in &self.blocks[t as usize].phis {
                for (p, o) in v {
                    if *p == b as u32 {
                        opr(o, &mut |r| x[r as usize / 64] |= 1 << (r % 64));
                    }
                }
            }
            for i in 0..nw {
                s[i] |= x[i];
            }
        }
        s
    }
}
