//! Byte-precise memory: one object per allocation, ids are never reused, copy on write.
use crate::expr::*;
use std::rc::Rc;

pub const PG: usize = 1024;
/// an address: the id of the object above this many bits of offset
pub const SH: u32 = 38;
pub const OFF: u64 = (1 << SH) - 1;
pub const BASE_ID: u64 = 0x1e8;
pub const NOSYM: E = u32::MAX;

#[derive(Clone)]
pub struct Page {
    pub data: Box<[u8]>,
    /// bit set = byte is uninitialised
    pub undef: Option<Box<[u64; PG / 64]>>,
    pub sym: Option<Box<[E]>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Const,
    Global,
    Stack,
    Heap,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub off: u64,
    pub align: u64,
    pub kind: Kind,
    pub pages: Vec<Rc<Page>>,
}

#[derive(Clone)]
pub enum Slot {
    None,
    Live(Rc<Obj>),
    Freed(Kind, u64),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    C(u8),
    S(E),
    U,
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Slot>>>,
    pub next: u64,
    pub heap_bytes: u64,
    pub heap_objs: u64,
    pub pool: Rc<Pool>,
}

/// shared pages
pub struct Pool {
    zero: Rc<Page>,
    ones: Rc<Page>,
    undef: Rc<Page>,
}

impl Pool {
    /// a shared page of one and the same byte
    fn flat(&self, p: &Rc<Page>) -> bool {
        Rc::ptr_eq(p, &self.zero) || Rc::ptr_eq(p, &self.ones) || Rc::ptr_eq(p, &self.undef)
    }
}

pub type MR<T> = Result<T, String>;

const CH: usize = 64;

fn full_undef(n: usize) -> Option<Box<[u64; PG / 64]>> {
    let mut u = Box::new([0u64; PG / 64]);
    for i in 0..n.div_ceil(64) {
        let left = n - i * 64;
        u[i] = if left >= 64 { !0 } else { (1u64 << left) - 1 };
    }
    Some(u)
}

impl Page {
    #[inline]
    fn is_undef(&self, i: usize) -> bool {
        match &self.undef {
            Some(u) => u[i / 64] >> (i % 64) & 1 == 1,
            None => false,
        }
    }
    #[inline]
    pub fn get(&self, i: usize) -> B {
        if let Some(s) = &self.sym {
            if s[i] != NOSYM {
                return B::S(s[i]);
            }
        }
        if self.is_undef(i) {
            return B::U;
        }
        B::C(self.data[i])
    }
    fn clear_undef(&mut self, a: usize, b: usize) {
        if let Some(u) = &mut self.undef {
            let mut i = a;
            while i < b {
                let w = i / 64;
                let lo = i % 64;
                let hi = (b - w * 64).min(64);
                let m = (if hi == 64 { !0 } else { (1u64 << hi) - 1 }) & !((1u64 << lo) - 1);
                u[w] &= !m;
                i = w * 64 + hi;
            }
            if u.iter().all(|x| *x == 0) {
                self.undef = None;
            }
        }
    }
    fn clear_sym(&mut self, a: usize, b: usize) {
        if let Some(s) = &mut self.sym {
            for x in &mut s[a..b] {
                *x = NOSYM;
            }
        }
    }
    fn set(&mut self, i: usize, v: B) {
        match v {
            B::C(x) => {
                self.data[i] = x;
                self.clear_sym(i, i + 1);
                self.clear_undef(i, i + 1);
            }
            B::S(e) => {
                self.clear_undef(i, i + 1);
                let n = self.data.len();
                let s = self.sym.get_or_insert_with(|| vec![NOSYM; n].into_boxed_slice());
                s[i] = e;
                self.data[i] = 0;
            }
            B::U => {
                self.clear_sym(i, i + 1);
                let u = self.undef.get_or_insert_with(|| Box::new([0; PG / 64]));
                u[i / 64] |= 1 << (i % 64);
                self.data[i] = 0;
            }
        }
    }
    pub fn plain(&self) -> bool {
        self.undef.is_none() && self.sym.is_none()
    }
}

impl Mem {
    pub fn new() -> Mem {
        let zero = Rc::new(Page { data: vec![0; PG].into(), undef: None, sym: None });
        let undef = Rc::new(Page { data: vec![0; PG].into(), undef: full_undef(PG), sym: None });
        let ones = Rc::new(Page { data: vec![0xff; PG].into(), undef: None, sym: None });
        Mem { chunks: vec![], next: 0, heap_bytes: 0, heap_objs: 0, pool: Rc::new(Pool { zero, ones, undef }) }
    }
    fn slot_mut(&mut self, id: u64) -> &mut Slot {
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        &mut c[id as usize % CH]
    }
    #[inline]
    pub fn slot(&self, id: u64) -> Option<&Slot> {
        self.chunks.get(id as usize / CH).map(|c| &c[id as usize % CH])
    }
    pub fn set_kind(&mut self, id: u64, k: Kind) {
        if let Slot::Live(o) = self.slot_mut(id) {
            Rc::make_mut(o).kind = k;
        }
    }
    pub fn obj(&self, id: u64) -> Option<&Rc<Obj>> {
        match self.slot(id) {
            Some(Slot::Live(o)) => Some(o),
            _ => None,
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, zeroed: bool) -> u64 {
        let id = self.next;
        self.next += 1;
        if id as usize / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(vec![Slot::None; CH]));
        }
        let n = size as usize;
        let np = n.div_ceil(PG);
        let mut pages = Vec::with_capacity(np);
        for i in 0..np {
            let l = (n - i * PG).min(PG);
            if l == PG {
                pages.push(if zeroed { self.pool.zero.clone() } else { self.pool.undef.clone() });
            } else {
                pages.push(Rc::new(Page {
                    data: vec![0; l].into(),
                    undef: if zeroed { None } else { full_undef(l) },
                    sym: None,
                }));
            }
        }
        // the address has the requested alignment and no more
        let off = 0x10000 + align;
        if kind == Kind::Heap {
            self.heap_bytes += size;
            self.heap_objs += 1;
        }
        *self.slot_mut(id) = Slot::Live(Rc::new(Obj { size, off, align, kind, pages }));
        ((BASE_ID + id) << SH) + off
    }
    #[inline]
    pub fn id_of(addr: u64) -> Option<u64> {
        (addr >> SH).checked_sub(BASE_ID)
    }
    pub fn free(&mut self, id: u64) {
        let s = self.slot_mut(id);
        if let Slot::Live(o) = s {
            let (k, n) = (o.kind, o.size);
            *s = Slot::Freed(k, n);
            if k == Kind::Heap {
                self.heap_bytes -= n;
                self.heap_objs -= 1;
            }
        }
    }
    pub fn describe(&self, addr: u64) -> String {
        match Mem::id_of(addr).and_then(|id| self.slot(id).map(|s| (id, s))) {
            Some((_, Slot::Live(o))) => format!(
                "{:?} object of {} bytes (align {}), offset {}",
                o.kind,
                o.size,
                o.align,
                (addr & OFF) as i64 - o.off as i64
            ),
            Some((_, Slot::Freed(k, n))) => format!("freed {:?} object of {} bytes", k, n),
            _ => format!("address {:#x}, no object", addr),
        }
    }
    #[inline]
    pub fn find(&self, addr: u64, n: u64, what: &str) -> MR<(u64, usize)> {
        if let Some(id) = Mem::id_of(addr) {
            if let Some(Slot::Live(o)) = self.slot(id) {
                let off = (addr & OFF).wrapping_sub(o.off);
                if off <= o.size && n <= o.size - off {
                    return Ok((id, off as usize));
                }
            }
        }
        Err(format!("{} of {} bytes: {}", what, n, self.describe(addr)))
    }
    /// concrete little-endian fast path; Ok(None) when symbolic or undefined bytes are involved
    #[inline]
    pub fn load_fast(&self, addr: u64, n: u64) -> MR<Option<u64>> {
        let (id, off) = self.find(addr, n, "read")?;
        if let Slot::Live(o) = self.slot(id).unwrap() {
            let p = off / PG;
            let i = off % PG;
            if i + n as usize <= PG {
                if n == 0 {
                    return Ok(Some(0));
                }
                let pg = &o.pages[p];
                if pg.plain() {
                    let mut b = [0u8; 8];
                    b[..n as usize].copy_from_slice(&pg.data[i..i + n as usize]);
                    return Ok(Some(u64::from_le_bytes(b)));
                }
            }
        }
        Ok(None)
    }
    pub fn load_bytes(&self, addr: u64, n: u64) -> MR<Vec<B>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.find(addr, n, "read")?;
        let o = self.obj(id).unwrap();
        let mut v = Vec::with_capacity(n as usize);
        let (mut i, end) = (off, off + n as usize);
        while i < end {
            let pg = &o.pages[i / PG];
            let a = i % PG;
            let b = (a + end - i).min(pg.data.len());
            if pg.plain() {
                v.extend(pg.data[a..b].iter().map(|x| B::C(*x)));
            } else {
                v.extend((a..b).map(|k| pg.get(k)));
            }
            i += b - a;
        }
        Ok(v)
    }
    fn wobj(&mut self, addr: u64, n: u64) -> MR<(&mut Obj, usize)> {
        let (id, off) = self.find(addr, n, "write")?;
        if self.obj(id).unwrap().kind == Kind::Const {
            return Err(format!("write to constant memory: {}", self.describe(addr)));
        }
        match self.slot_mut(id) {
            Slot::Live(o) => Ok((Rc::make_mut(o), off)),
            _ => unreachable!(),
        }
    }
    #[inline]
    pub fn store_conc(&mut self, addr: u64, n: u64, v: u64) -> MR<()> {
        let b = v.to_le_bytes();
        if n <= 8 {
            self.store_slice(addr, &b[..n as usize])
        } else {
            unreachable!()
        }
    }
    pub fn store_slice(&mut self, addr: u64, b: &[u8]) -> MR<()> {
        let (o, off) = self.wobj(addr, b.len() as u64)?;
        let mut i = 0;
        while i < b.len() {
            let p = Rc::make_mut(&mut o.pages[(off + i) / PG]);
            let a = (off + i) % PG;
            let k = (b.len() - i).min(p.data.len() - a);
            p.data[a..a + k].copy_from_slice(&b[i..i + k]);
            if p.undef.is_some() {
                p.clear_undef(a, a + k);
            }
            if p.sym.is_some() {
                p.clear_sym(a, a + k);
            }
            i += k;
        }
        Ok(())
    }
    pub fn store_bytes(&mut self, addr: u64, b: &[B]) -> MR<()> {
        let (o, off) = self.wobj(addr, b.len() as u64)?;
        let mut i = 0;
        while i < b.len() {
            let p = Rc::make_mut(&mut o.pages[(off + i) / PG]);
            let a = (off + i) % PG;
            let k = (b.len() - i).min(p.data.len() - a);
            for j in 0..k {
                p.set(a + j, b[i + j]);
            }
            i += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, addr: u64, n: u64, v: B) -> MR<()> {
        if n == 0 {
            return Ok(());
        }
        let pool = self.pool.clone();
        let (o, off) = self.wobj(addr, n)?;
        let (mut i, end) = (off, off + n as usize);
        while i < end {
            let a = i % PG;
            let slot = &mut o.pages[i / PG];
            let l = slot.data.len();
            let k = (end - i).min(l - a);
            if a == 0 && k == PG && v == B::C(0) {
                *slot = pool.zero.clone();
            } else if a == 0 && k == PG && v == B::C(0xff) {
                *slot = pool.ones.clone();
            } else if a == 0 && k == PG && v == B::U {
                *slot = pool.undef.clone();
            } else {
                let p = Rc::make_mut(slot);
                match v {
                    B::C(x) => {
                        p.data[a..a + k].fill(x);
                        p.clear_undef(a, a + k);
                        p.clear_sym(a, a + k);
                    }
                    _ => {
                        if a == 0 && k == l && v == B::U {
                            p.sym = None;
                            p.undef = full_undef(l);
                            p.data.fill(0);
                        } else {
                            for j in a..a + k {
                                p.set(j, v);
                            }
                        }
                    }
                }
            }
            i += k;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> MR<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, soff) = self.find(src, n, "read")?;
        let so = self.obj(sid).unwrap().clone();
        // whole-page sharing for large aligned copies
        let (_, doff) = self.find(dst, n, "write")?;
        if n >= 4 * PG as u64 && soff % PG == doff % PG {
            let head = (PG - soff % PG) % PG;
            let mid = (n as usize - head) / PG;
            if head > 0 {
                let b = self.load_bytes(src, head as u64)?;
                self.store_bytes(dst, &b)?;
            }
            {
                let (o, off) = self.wobj(dst, n)?;
                for k in 0..mid {
                    o.pages[(off + head) / PG + k] = so.pages[(soff + head) / PG + k].clone();
                }
            }
            let done = (head + mid * PG) as u64;
            if done < n {
                let mut b = Vec::with_capacity((n - done) as usize);
                for i in soff + done as usize..soff + n as usize {
                    b.push(so.pages[i / PG].get(i % PG));
                }
                self.store_bytes(dst + done, &b)?;
            }
            return Ok(());
        }
        if n >= 64 * PG as u64 {
            return self.copy_long(dst, &so, soff, n as usize);
        }
        let (mut i, end) = (soff, soff + n as usize);
        let plain = (soff / PG..=(end - 1) / PG).all(|p| so.pages[p].plain());
        if plain {
            let mut b = Vec::with_capacity(n as usize);
            while i < end {
                let pg = &so.pages[i / PG];
                let a = i % PG;
                let e = (a + end - i).min(pg.data.len());
                b.extend_from_slice(&pg.data[a..e]);
                i += e - a;
            }
            self.store_slice(dst, &b)
        } else {
            let b = self.load_bytes(src, n)?;
            self.store_bytes(dst, &b)
        }
    }
    /// copies page by page: a page whose source lies in shared pages of one kind is one of them
    fn copy_long(&mut self, dst: u64, so: &Rc<Obj>, soff: usize, n: usize) -> MR<()> {
        let pool = self.pool.clone();
        // the objects may be the same one: `so` keeps the old content
        let (o, off) = self.wobj(dst, n as u64)?;
        let mut i = 0;
        while i < n {
            let (d, s) = (off + i, soff + i);
            let slot = &mut o.pages[d / PG];
            let a = d % PG;
            let k = (slot.data.len() - a).min(n - i);
            let (p, q) = (&so.pages[s / PG], &so.pages[(s + k - 1) / PG]);
            if k == PG && Rc::ptr_eq(p, q) && (s % PG == 0 || pool.flat(p)) {
                *slot = p.clone();
            } else {
                let t = Rc::make_mut(slot);
                let mut j = 0;
                while j < k {
                    let pg = &so.pages[(s + j) / PG];
                    let b = (s + j) % PG;
                    let m = (k - j).min(pg.data.len() - b);
                    if pg.plain() {
                        t.data[a + j..a + j + m].copy_from_slice(&pg.data[b..b + m]);
                        t.clear_undef(a + j, a + j + m);
                        t.clear_sym(a + j, a + j + m);
                    } else {
                        for x in 0..m {
                            t.set(a + j + x, pg.get(b + x));
                        }
                    }
                    j += m;
                }
            }
            i += k;
        }
        Ok(())
    }
    /// the bytes of both that decide how they compare: equal stretches are left out,
    /// and so is everything after the first certain difference
    pub fn pairs(&self, x: u64, y: u64, n: u64) -> MR<(Vec<B>, Vec<B>)> {
        let (xi, xo) = self.find(x, n, "read")?;
        let (yi, yo) = self.find(y, n, "read")?;
        let (a, b) = (self.obj(xi).unwrap(), self.obj(yi).unwrap());
        let (mut l, mut r) = (vec![], vec![]);
        let mut i = 0usize;
        let n = n as usize;
        while i < n {
            let (p, q) = (&a.pages[(xo + i) / PG], &b.pages[(yo + i) / PG]);
            let (u, v) = ((xo + i) % PG, (yo + i) % PG);
            let k = (n - i).min(p.data.len() - u).min(q.data.len() - v);
            if p.plain() && q.plain() {
                if !(Rc::ptr_eq(p, q) && (u == v || self.pool.flat(p))) && p.data[u..u + k] != q.data[v..v + k] {
                    let d = (0..k).find(|j| p.data[u + j] != q.data[v + j]).unwrap();
                    l.push(B::C(p.data[u + d]));
                    r.push(B::C(q.data[v + d]));
                    break;
                }
            } else {
                for j in 0..k {
                    let (g, h) = (p.get(u + j), q.get(v + j));
                    l.push(g);
                    r.push(h);
                    if g == B::U || h == B::U {
                        return Ok((l, r));
                    }
                }
            }
            i += k;
        }
        Ok((l, r))
    }
}
