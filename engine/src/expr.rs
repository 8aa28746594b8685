//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Not,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub v: u128, // constant value, or low bit for Extract, or variable index
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn sext128(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct Arena {
    pub nodes: Vec<Node>,
    tab: HashMap<Node, E, Fx>,
    /// support set id per node
    pub sup: Vec<u32>,
    pub sets: Vec<Rc<[u32]>>,
    set_tab: HashMap<Rc<[u32]>, u32, Fx>,
    union_tab: HashMap<(u32, u32), u32, Fx>,
    pub var_w: Vec<u32>,
    /// variables standing for uninitialised bytes
    pub var_undef: Vec<bool>,
    memo: Vec<(u32, u128)>,
    gen: u32,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            tab: HashMap::default(),
            sup: vec![],
            sets: vec![],
            set_tab: HashMap::default(),
            union_tab: HashMap::default(),
            var_w: vec![],
            var_undef: vec![],
            memo: vec![],
            gen: 0,
        };
        let empty: Rc<[u32]> = Rc::from(vec![]);
        a.sets.push(empty.clone());
        a.set_tab.insert(empty, 0);
        a
    }
    fn set_id(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = Rc::from(v);
        if let Some(i) = self.set_tab.get(&r) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.set_tab.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.union_tab.get(&key) {
            return *r;
        }
        let (x, y) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.set_id(v);
        self.union_tab.insert(key, r);
        r
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.tab.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as E;
        let s = match n.k {
            K::Const => 0,
            K::Var => self.set_id(vec![n.v as u32]),
            K::Extract | K::ZExt | K::SExt | K::Not => self.sup[n.a as usize],
            K::Ite => {
                let x = self.union(self.sup[n.a as usize], self.sup[n.b as usize]);
                self.union(x, self.sup[n.c as usize])
            }
            _ => self.union(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.tab.insert(n, id);
        id
    }
    pub fn new_var(&mut self, w: u32, undef: bool) -> E {
        let i = self.var_w.len();
        self.var_w.push(w);
        self.var_undef.push(undef);
        self.mk(Node { k: K::Var, w, a: 0, b: 0, c: 0, v: i as u128 })
    }
    /// the first of `n` consecutive bytes not before `from`; other paths use them too
    pub fn bytes_from(&mut self, from: u32, n: u32) -> u32 {
        let mut a = from as usize;
        let mut i = a;
        while i < a + n as usize && i < self.var_w.len() {
            if self.var_w[i] != 8 || self.var_undef[i] {
                a = i + 1;
            }
            i += 1;
        }
        a = a.min(self.var_w.len());
        while self.var_w.len() < a + n as usize {
            self.new_var(8, false);
        }
        a as u32
    }
    pub fn var(&mut self, i: u32) -> E {
        let w = self.var_w[i as usize];
        self.mk(Node { k: K::Var, w, a: 0, b: 0, c: 0, v: i as u128 })
    }
    pub fn var_index(&self, e: E) -> Option<u32> {
        let n = &self.nodes[e as usize];
        if n.k == K::Var {
            Some(n.v as u32)
        } else {
            None
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(Node { k: K::Const, w, a: 0, b: 0, c: 0, v: v & mask(w) })
    }
    pub fn t(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.c(0, 1)
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.k == K::Const {
            Some(n.v)
        } else {
            None
        }
    }
    pub fn support(&self, e: E) -> Rc<[u32]> {
        self.sets[self.sup[e as usize] as usize].clone()
    }
    pub fn has_undef(&self, e: E) -> bool {
        self.sets[self.sup[e as usize] as usize].iter().any(|v| self.var_undef[*v as usize])
    }
    fn node2(&mut self, k: K, w: u32, a: E, b: E) -> E {
        self.mk(Node { k, w, a, b, c: 0, v: 0 })
    }

    /// largest possible value (unsigned), cheap
    fn umax(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.k {
            K::Const => n.v,
            K::ZExt => self.umax(n.a),
            K::Ite => self.umax(n.b).max(self.umax(n.c)),
            K::And => self.umax(n.a).min(self.umax(n.b)),
            K::Concat => {
                let wb = self.w(n.b);
                (self.umax(n.a) << wb) | mask(wb)
            }
            K::Add => {
                let m = mask(n.w);
                match self.umax(n.a).checked_add(self.umax(n.b)) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            K::URem => {
                if let Some(c) = self.cv(n.b) {
                    if c > 0 {
                        return c - 1;
                    }
                }
                mask(n.w)
            }
            _ => mask(n.w),
        }
    }
    fn umin(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.k {
            K::Const => n.v,
            K::ZExt => self.umin(n.a),
            K::Ite => self.umin(n.b).min(self.umin(n.c)),
            K::Add => {
                let m = mask(n.w);
                match self.umax(n.a).checked_add(self.umax(n.b)) {
                    Some(s) if s <= m => self.umin(n.a) + self.umin(n.b),
                    _ => 0,
                }
            }
            K::Concat => self.umin(n.a) << self.w(n.b),
            _ => 0,
        }
    }

    pub fn bin(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", k);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if let Some(r) = fold(k, w, x, y) {
                let rw = if matches!(k, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle) { 1 } else { w };
                return self.c(r, rw);
            }
        }
        match k {
            K::Add => self.add(a, b),
            K::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = self.cv(b) {
                    let nb = self.c(y.wrapping_neg(), w);
                    return self.add(a, nb);
                }
                // (x + c) - x, (x + c) - (x + d), x - (x + d)
                let (xa, ca) = self.split_add(a);
                let (xb, cb) = self.split_add(b);
                if xa == xb {
                    return self.c(ca.wrapping_sub(cb), w);
                }
                self.node2(K::Sub, w, a, b)
            }
            K::Mul => {
                let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
                if let Some(y) = self.cv(b) {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let s = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(K::Shl, a, s);
                    }
                }
                self.node2(K::Mul, w, a, b)
            }
            K::UDiv => {
                if let Some(y) = self.cv(b) {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let s = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(K::LShr, a, s);
                    }
                }
                self.node2(k, w, a, b)
            }
            K::URem => {
                if let Some(y) = self.cv(b) {
                    if y.is_power_of_two() {
                        let m = self.c(y - 1, w);
                        return self.bin(K::And, a, m);
                    }
                }
                self.node2(k, w, a, b)
            }
            K::SDiv | K::SRem => self.node2(k, w, a, b),
            K::And => self.and(a, b),
            K::Or => self.or(a, b),
            K::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
                if let Some(y) = self.cv(b) {
                    if y == 0 {
                        return a;
                    }
                    if y == mask(w) {
                        return self.not(a);
                    }
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.node2(K::Xor, w, a, b)
            }
            K::Shl => {
                if let Some(s) = self.cv(b) {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.c(0, w);
                    }
                    let s = s as u32;
                    let hi = self.extract(a, 0, w - s);
                    let z = self.c(0, s);
                    return self.concat(hi, z);
                }
                self.node2(k, w, a, b)
            }
            K::LShr => {
                if let Some(s) = self.cv(b) {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.c(0, w);
                    }
                    let s = s as u32;
                    let hi = self.extract(a, s, w - s);
                    return self.zext(hi, w);
                }
                self.node2(k, w, a, b)
            }
            K::AShr => {
                if let Some(s) = self.cv(b) {
                    if s == 0 {
                        return a;
                    }
                    let s = (s.min(w as u128 - 1)) as u32;
                    let hi = self.extract(a, s, w - s);
                    return self.sext(hi, w);
                }
                self.node2(k, w, a, b)
            }
            K::Eq => self.eq(a, b),
            K::Ult => self.ult(a, b),
            K::Ule => {
                let r = self.ult(b, a);
                self.not(r)
            }
            K::Slt => self.slt(a, b),
            K::Sle => {
                let r = self.slt(b, a);
                self.not(r)
            }
            _ => unreachable!(),
        }
    }
    fn split_add(&self, a: E) -> (E, u128) {
        let n = self.n(a);
        if n.k == K::Add {
            if let Some(c) = self.cv(n.b) {
                return (n.a, c);
            }
        }
        (a, 0)
    }
    fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let (xa, ca) = self.split_add(a);
        if let Some(y) = self.cv(b) {
            let s = ca.wrapping_add(y) & mask(w);
            if s == 0 {
                return xa;
            }
            // push constants into an ite of constants
            let n = self.n(xa);
            if n.k == K::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.c(self.cv(n.b).unwrap().wrapping_add(s), w);
                let y = self.c(self.cv(n.c).unwrap().wrapping_add(s), w);
                return self.ite(n.a, x, y);
            }
            let c = self.c(s, w);
            return self.node2(K::Add, w, xa, c);
        }
        let (xb, cb) = self.split_add(b);
        if ca != 0 || cb != 0 {
            let s = self.add(xa, xb);
            let c = self.c(ca.wrapping_add(cb), w);
            return self.add(s, c);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.node2(K::Add, w, a, b)
    }
    fn is_neg(&self, a: E, b: E) -> bool {
        let (x, y) = (self.n(a), self.n(b));
        (x.k == K::Not && x.a == b) || (y.k == K::Not && y.a == a) || self.cmp_neg(x, y)
    }
    fn cmp_neg(&self, x: Node, y: Node) -> bool {
        x.w == 1
            && ((x.k == K::Ult && y.k == K::Ule && x.a == y.b && x.b == y.a)
                || (x.k == K::Ule && y.k == K::Ult && x.a == y.b && x.b == y.a)
                || (x.k == K::Slt && y.k == K::Sle && x.a == y.b && x.b == y.a)
                || (x.k == K::Sle && y.k == K::Slt && x.a == y.b && x.b == y.a))
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            // low mask
            let t = (!y & mask(w)).trailing_zeros();
            if y == mask(t) {
                let lo = self.extract(a, 0, t);
                return self.zext(lo, w);
            }
            let n = self.n(a);
            if n.k == K::And {
                if let Some(c) = self.cv(n.b) {
                    let c2 = self.c(c & y, w);
                    return self.and(n.a, c2);
                }
            }
        }
        if w == 1 {
            if self.is_neg(a, b) {
                return self.f();
            }
            // ¬(x=y) ∧ x<y  →  x<y ;  ¬(x=y) ∧ x<=y → x<y ; (x=y) ∧ x<=y → x=y; (x=y) ∧ x<y → false
            for (p, q) in [(a, b), (b, a)] {
                let (np, nq) = (self.n(p), self.n(q));
                if matches!(nq.k, K::Ult | K::Ule | K::Slt | K::Sle) {
                    if np.k == K::Not {
                        let e = self.n(np.a);
                        if e.k == K::Eq && ((e.a == nq.a && e.b == nq.b) || (e.a == nq.b && e.b == nq.a)) {
                            return match nq.k {
                                K::Ult | K::Slt => q,
                                K::Ule => self.ult(nq.a, nq.b),
                                _ => self.slt(nq.a, nq.b),
                            };
                        }
                    }
                    if np.k == K::Eq && ((np.a == nq.a && np.b == nq.b) || (np.a == nq.b && np.b == nq.a)) {
                        return match nq.k {
                            K::Ult | K::Slt => self.f(),
                            _ => p,
                        };
                    }
                }
                // absorption
                if nq.k == K::Or && (nq.a == p || nq.b == p) {
                    return p;
                }
                if nq.k == K::And && (nq.a == p || nq.b == p) {
                    return q;
                }
            }
        }
        let (a, b) = if a < b || self.cv(b).is_some() { (a, b) } else { (b, a) };
        self.node2(K::And, w, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if w == 1 {
            if self.cv(a) == Some(1) || self.cv(b) == Some(0) {
                return a;
            }
            if self.cv(b) == Some(1) || self.cv(a) == Some(0) {
                return b;
            }
            let na = self.not(a);
            let nb = self.not(b);
            let r = self.and(na, nb);
            // De Morgan keeps one normal form; only keep Or nodes when nothing simplified
            let rn = self.n(r);
            if !(rn.k == K::And && ((rn.a == na && rn.b == nb) || (rn.a == nb && rn.b == na))) {
                return self.not(r);
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.node2(K::Or, 1, a, b);
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
        }
        // zext(lo) | concat(hi, 0_k) with lo fitting in k bits
        for (p, q) in [(a, b), (b, a)] {
            let (np, nq) = (self.n(p), self.n(q));
            if nq.k == K::Concat && self.cv(nq.b) == Some(0) {
                let k = self.w(nq.b);
                if np.k == K::ZExt && self.w(np.a) <= k {
                    let lo = self.zext(np.a, k);
                    return self.concat(nq.a, lo);
                }
                if let Some(y) = self.cv(p) {
                    if y <= mask(k) {
                        let lo = self.c(y, k);
                        return self.concat(nq.a, lo);
                    }
                }
                if np.k == K::Concat && self.cv(np.a) == Some(0) && self.w(np.b) <= k {
                    let lo = self.zext(np.b, k);
                    return self.concat(nq.a, lo);
                }
            }
            // zext(concat(hi,0_k)) | zext(lo)
            if nq.k == K::ZExt {
                let ni = self.n(nq.a);
                if ni.k == K::Concat && self.cv(ni.b) == Some(0) {
                    let k = self.w(ni.b);
                    if np.k == K::ZExt && self.w(np.a) <= k {
                        let lo = self.zext(np.a, k);
                        let c = self.concat(ni.a, lo);
                        return self.zext(c, w);
                    }
                }
            }
        }
        let (a, b) = if a < b || self.cv(b).is_some() { (a, b) } else { (b, a) };
        self.node2(K::Or, w, a, b)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        let w = n.w;
        if let Some(v) = self.cv(a) {
            return self.c(!v, w);
        }
        match n.k {
            K::Not => n.a,
            K::Ult => self.node2(K::Ule, 1, n.b, n.a),
            K::Ule => self.node2(K::Ult, 1, n.b, n.a),
            K::Slt => self.node2(K::Sle, 1, n.b, n.a),
            K::Sle => self.node2(K::Slt, 1, n.b, n.a),
            _ => self.mk(Node { k: K::Not, w, a, b: 0, c: 0, v: 0 }),
        }
    }
    fn const_leaves(&self, e: E, depth: u32) -> bool {
        let n = self.n(e);
        match n.k {
            K::Const => true,
            K::Ite if depth > 0 => {
                self.const_leaves(n.b, depth - 1) && self.const_leaves(n.c, depth - 1)
            }
            _ => false,
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((x == y) as u128, 1);
        }
        if let Some(y) = self.cv(b) {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            let n = self.n(a);
            match n.k {
                K::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(iw) {
                        return self.f();
                    }
                    let c = self.c(y, iw);
                    return self.eq(n.a, c);
                }
                K::SExt => {
                    let iw = self.w(n.a);
                    let t = y & mask(iw);
                    if (sext128(t, iw) as u128) & mask(w) != y {
                        return self.f();
                    }
                    let c = self.c(t, iw);
                    return self.eq(n.a, c);
                }
                K::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() || self.const_leaves(a, 6) => {
                    let x = self.eq(n.b, b);
                    let z = self.eq(n.c, b);
                    return self.ite(n.a, x, z);
                }
                K::Add => {
                    if let Some(c) = self.cv(n.b) {
                        let d = self.c(y.wrapping_sub(c), w);
                        return self.eq(n.a, d);
                    }
                }
                K::Concat => {
                    let lw = self.w(n.b);
                    let hi = self.c(y >> lw, w - lw);
                    let lo = self.c(y, lw);
                    if self.cv(n.a).is_some() {
                        if self.cv(n.a) != self.cv(hi) {
                            return self.f();
                        }
                        return self.eq(n.b, lo);
                    }
                    if self.cv(n.b).is_some() {
                        if self.cv(n.b) != self.cv(lo) {
                            return self.f();
                        }
                        return self.eq(n.a, hi);
                    }
                }
                K::Not => {
                    let c = self.c(!y, w);
                    return self.eq(n.a, c);
                }
                K::Xor => {
                    if let Some(c) = self.cv(n.b) {
                        let d = self.c(y ^ c, w);
                        return self.eq(n.a, d);
                    }
                }
                _ => {}
            }
            if y > self.umax(a) || y < self.umin(a) {
                return self.f();
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.k == K::Add && nb.k == K::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if self.umax(a) < self.umin(b) || self.umax(b) < self.umin(a) {
                return self.f();
            }
            if w == 1 {
                // xnor as ite keeps z3 terms boolean
                let nb_ = self.not(b);
                return self.ite(a, b, nb_);
            }
        }
        let (a, b) = if a < b || self.cv(b).is_some() { (a, b) } else { (b, a) };
        self.node2(K::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((x < y) as u128, 1);
        }
        if self.umax(a) < self.umin(b) {
            return self.t();
        }
        if self.umin(a) >= self.umax(b) {
            return self.f();
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(y) = self.cv(b) {
            if y == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if na.k == K::ZExt {
                let iw = self.w(na.a);
                let c = self.c(y, iw); // y <= umax(a) here
                return self.ult(na.a, c);
            }
            if na.k == K::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
                let x = self.ult(na.b, b);
                let z = self.ult(na.c, b);
                return self.ite(na.a, x, z);
            }
        }
        if let Some(x) = self.cv(a) {
            if nb.k == K::ZExt {
                let iw = self.w(nb.a);
                let c = self.c(x, iw);
                return self.ult(c, nb.a);
            }
            if nb.k == K::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
                let y = self.ult(a, nb.b);
                let z = self.ult(a, nb.c);
                return self.ite(nb.a, y, z);
            }
            if x == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
        }
        if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        if na.k == K::Concat && nb.k == K::Concat && self.w(na.a) == self.w(nb.a) {
            if na.a == nb.a {
                return self.ult(na.b, nb.b);
            }
            if na.b == nb.b {
                return self.ult(na.a, nb.a);
            }
        }
        self.node2(K::Ult, 1, a, b)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((sext128(x, w) < sext128(y, w)) as u128, 1);
        }
        let half = 1u128 << (w - 1);
        if self.umax(a) < half && self.umax(b) < half {
            return self.ult(a, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if self.cv(b).is_some() && na.k == K::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
            let x = self.slt(na.b, b);
            let z = self.slt(na.c, b);
            return self.ite(na.a, x, z);
        }
        if self.cv(a).is_some() && nb.k == K::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
            let x = self.slt(a, nb.b);
            let z = self.slt(a, nb.c);
            return self.ite(nb.a, x, z);
        }
        self.node2(K::Slt, 1, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.k == K::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.k == K::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.k == K::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Node { k: K::Ite, w, a: c, b: a, c: b, v: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) {
            return self.c((x << nl.w) | y, w);
        }
        if self.cv(hi) == Some(0) {
            return self.zext(lo, w);
        }
        // concat(extract(x, m..), extract(x, l..m)) = extract
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.v == nl.v + nl.w as u128 {
            return self.extract(nh.a, nl.v as u32, w);
        }
        // concat(extract(x, w(y)..), y) where y = low part of x without extract is impossible
        // concat(hi, concat(m, l)) with hi,m adjacent extracts
        if nl.k == K::Concat {
            let nm = self.n(nl.a);
            if nh.k == K::Extract && nm.k == K::Extract && nh.a == nm.a && nh.v == nm.v + nm.w as u128 {
                let h = self.extract(nh.a, nm.v as u32, nh.w + nm.w);
                return self.concat(h, nl.b);
            }
        }
        // concat(zext(x), lo) = zext(concat(x, lo))
        if nh.k == K::ZExt {
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        // right-assoc
        if nh.k == K::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        self.node2(K::Concat, w, hi, lo)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.k {
            K::Const => self.c(n.v >> lo, w),
            K::Extract => self.extract(n.a, lo + n.v as u32, w),
            K::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.c(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            K::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.sext(x, w)
                } else {
                    let s = self.extract(n.a, iw - 1, 1);
                    self.sext(s, w)
                }
            }
            K::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            K::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.k, x, y)
            }
            K::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.k, x, y)
            }
            _ => self.mk(Node { k: K::Extract, w, a, b: 0, c: 0, v: lo as u128 }),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const => self.c(n.v, w),
            K::ZExt => self.zext(n.a, w),
            K::Ite if self.const_leaves(a, 6) => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Node { k: K::ZExt, w, a, b: 0, c: 0, v: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const => self.c(sext128(n.v, n.w) as u128, w),
            K::ZExt => self.zext(n.a, w),
            K::SExt => self.sext(n.a, w),
            K::Ite if self.const_leaves(a, 6) => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => {
                if n.w > 1 && self.umax(a) < (1u128 << (n.w - 1)) {
                    return self.zext(a, w);
                }
                self.mk(Node { k: K::SExt, w, a, b: 0, c: 0, v: 0 })
            }
        }
    }

    /// Evaluate under a model (missing variables are 0).
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.gen += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.eval_r(e, model)
    }
    /// Evaluate several under the same model sharing the memo.
    pub fn eval_all_true(&mut self, es: &[E], model: &[u64]) -> bool {
        self.gen += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        es.iter().all(|e| self.eval_r(*e, model) == 1)
    }
    fn eval_r(&mut self, e: E, m: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.k {
            K::Const => return n.v,
            K::Var => return m.get(n.v as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        let (g, v) = self.memo[e as usize];
        if g == self.gen {
            return v;
        }
        let r = match n.k {
            K::Ite => {
                if self.eval_r(n.a, m) == 1 {
                    self.eval_r(n.b, m)
                } else {
                    self.eval_r(n.c, m)
                }
            }
            K::Not => !self.eval_r(n.a, m) & mask(n.w),
            K::Extract => (self.eval_r(n.a, m) >> n.v) & mask(n.w),
            K::ZExt => self.eval_r(n.a, m),
            K::SExt => {
                let iw = self.w(n.a);
                (sext128(self.eval_r(n.a, m), iw) as u128) & mask(n.w)
            }
            K::Concat => {
                let lw = self.w(n.b);
                (self.eval_r(n.a, m) << lw) | self.eval_r(n.b, m)
            }
            _ => {
                let x = self.eval_r(n.a, m);
                let y = self.eval_r(n.b, m);
                let w = self.w(n.a);
                fold_total(n.k, w, x, y)
            }
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }
}

fn fold(k: K, w: u32, x: u128, y: u128) -> Option<u128> {
    if matches!(k, K::UDiv | K::SDiv | K::URem | K::SRem) && y == 0 {
        return None;
    }
    Some(fold_total(k, w, x, y))
}

/// SMT-LIB semantics
fn fold_total(k: K, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match k {
        K::Add => x.wrapping_add(y) & m,
        K::Sub => x.wrapping_sub(y) & m,
        K::Mul => x.wrapping_mul(y) & m,
        K::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        K::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        K::SDiv => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        K::SRem => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        K::And => x & y,
        K::Or => x | y,
        K::Xor => x ^ y,
        K::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        K::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        K::AShr => {
            let s = y.min(w as u128 - 1);
            ((sext128(x, w) >> s) as u128) & m
        }
        K::Eq => (x == y) as u128,
        K::Ult => (x < y) as u128,
        K::Ule => (x <= y) as u128,
        K::Slt => (sext128(x, w) < sext128(y, w)) as u128,
        K::Sle => (sext128(x, w) <= sext128(y, w)) as u128,
        _ => unreachable!("{:?}", k),
    }
}
