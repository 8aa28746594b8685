//! Parser for textual LLVM IR (what `llvm-dis` prints); function bodies are parsed on first use.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Ty),
    Vector(u32, Ty),
    Struct(Vec<Ty>, bool),
    Opaque,
    Label,
    Meta,
    Token,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub k: TyK,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

pub struct Types {
    pub t: Vec<TyInfo>,
    tab: HashMap<TyK, Ty>,
    pub named: HashMap<String, Ty>,
}

impl Types {
    fn new() -> Types {
        Types { t: vec![], tab: HashMap::new(), named: HashMap::new() }
    }
    pub fn mk(&mut self, k: TyK) -> Ty {
        if let Some(t) = self.tab.get(&k) {
            return *t;
        }
        let (mut size, mut align, mut offs) = (0, 1, vec![]);
        match &k {
            TyK::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                align = b.next_power_of_two().min(16);
                size = b.div_ceil(align) * align;
            }
            TyK::Ptr => {
                size = 8;
                align = 8
            }
            TyK::Float(w) => {
                size = (*w as u64) / 8;
                align = size
            }
            TyK::Array(n, e) => {
                size = n * self.t[*e as usize].size;
                align = self.t[*e as usize].align
            }
            TyK::Vector(n, e) => {
                let ew = match self.t[*e as usize].k {
                    TyK::Int(w) => w as u64,
                    TyK::Float(w) => w as u64,
                    _ => 64,
                };
                size = (*n as u64 * ew).div_ceil(8);
                align = size.next_power_of_two();
            }
            TyK::Struct(es, packed) => {
                for e in es {
                    let i = &self.t[*e as usize];
                    let a = if *packed { 1 } else { i.align };
                    size = size.div_ceil(a) * a;
                    offs.push(size);
                    size += i.size;
                    align = align.max(a);
                }
                size = size.div_ceil(align) * align;
            }
            _ => {}
        }
        let id = self.t.len() as Ty;
        self.t.push(TyInfo { k: k.clone(), size, align, offs });
        self.tab.insert(k, id);
        id
    }
    pub fn int(&mut self, w: u32) -> Ty {
        self.mk(TyK::Int(w))
    }
    pub fn k(&self, t: Ty) -> &TyK {
        &self.t[t as usize].k
    }
    pub fn size(&self, t: Ty) -> u64 {
        self.t[t as usize].size
    }
    pub fn off(&self, t: Ty, i: usize) -> u64 {
        match self.k(t) {
            TyK::Struct(..) => self.t[t as usize].offs[i],
            TyK::Array(_, e) | TyK::Vector(_, e) => self.size(*e) * i as u64,
            _ => panic!("off"),
        }
    }
    pub fn elem(&self, t: Ty, i: usize) -> Ty {
        match self.k(t) {
            TyK::Struct(es, _) => es[i],
            TyK::Array(_, e) | TyK::Vector(_, e) => *e,
            _ => panic!("elem"),
        }
    }
    pub fn count(&self, t: Ty) -> usize {
        match self.k(t) {
            TyK::Struct(es, _) => es.len(),
            TyK::Array(n, _) => *n as usize,
            TyK::Vector(n, _) => *n as usize,
            _ => panic!("count"),
        }
    }
    /// bit width of a scalar
    pub fn width(&self, t: Ty) -> u32 {
        match self.k(t) {
            TyK::Int(w) => *w,
            TyK::Ptr => 64,
            TyK::Float(w) => *w,
            x => panic!("width of {:?}", x),
        }
    }
    pub fn is_scalar(&self, t: Ty) -> bool {
        matches!(self.k(t), TyK::Int(_) | TyK::Ptr | TyK::Float(_))
    }
}

/// constants
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Str(Rc<[u8]>),
    Agg(Vec<(Ty, Cst)>),
    Global(String, i64),
    /// difference of two globals or other unsupported expression
    Bad(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
}

pub type Reg = u32;

#[derive(Clone, Debug)]
pub enum Op {
    R(Reg),
    K(Cst),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Ind(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum PI {
    Bin(Reg, Bin, Ty, Op, Op),
    Cmp(Reg, Pred, Ty, Op, Op),
    Cast(Reg, Cast, Ty, Op, Ty),
    Load(Reg, Ty, Op, u64),
    Store(Ty, Op, Op, u64),
    Gep(Reg, Ty, Op, Vec<(Ty, Op)>),
    Alloca(Reg, Ty, Option<(Ty, Op)>, u64),
    Phi(Reg, Ty, Vec<(Op, u32)>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Call { d: Option<Reg>, rty: Ty, f: Callee, args: Vec<(Ty, Op)>, normal: Option<u32> },
    Select(Reg, Ty, Op, Ty, Op, Op),
    ExtractValue(Reg, Ty, Op, Vec<u32>),
    InsertValue(Reg, Ty, Op, Ty, Op, Vec<u32>),
    ExtractElement(Reg, Ty, Op, Ty, Op),
    InsertElement(Reg, Ty, Op, Ty, Op, Ty, Op),
    Shuffle(Reg, Ty, Op, Op, Vec<i64>),
    Freeze(Reg, Ty, Op),
    Rmw(Reg, String, Ty, Op, Op),
    CmpXchg(Reg, Ty, Op, Op, Op),
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct PFunc {
    pub nregs: u32,
    pub params: Vec<Ty>,
    pub blocks: Vec<Vec<PI>>,
}

#[derive(Clone, Debug)]
pub struct FnDecl {
    pub name: String,
    /// byte range of the whole definition in the source; None for declarations
    pub body: Option<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub align: u64,
    pub tls: bool,
}

pub struct Module {
    pub src: Rc<str>,
    pub types: Types,
    pub fns: Vec<FnDecl>,
    pub fn_ix: HashMap<String, usize>,
    pub globals: Vec<GlobalDef>,
    pub global_ix: HashMap<String, usize>,
    pub aliases: HashMap<String, (String, i64)>,
}

#[derive(Clone, PartialEq, Debug)]
enum T<'a> {
    Id(&'a str),
    Local(String),
    Glob(String),
    Num(i128),
    Hex(&'a str),
    Str(Vec<u8>),
    P(u8),
    Meta,
    Attr,
    End,
}

struct Lx<'a> {
    s: &'a [u8],
    i: usize,
}

fn unesc(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Lx<'a> {
        Lx { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn name(&mut self) -> String {
        // after % or @
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            String::from_utf8_lossy(&unesc(&self.s[st..j])).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && idc(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string()
        }
    }
    fn next(&mut self) -> T<'a> {
        self.ws();
        if self.i >= self.s.len() {
            return T::End;
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                T::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                T::Glob(self.name())
            }
            b'#' => {
                self.i += 1;
                self.name();
                T::Attr
            }
            b'!' => {
                self.i += 1;
                // !name or !123 or !"str" or !{...} or !DIExpression(...)
                if self.i < self.s.len() && (idc(self.s[self.i]) || self.s[self.i] == b'"') {
                    self.name();
                }
                T::Meta
            }
            b'"' => {
                let st = self.i + 1;
                let mut j = st;
                while self.s[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                T::Str(unesc(&self.s[st..j]))
            }
            b'0'..=b'9' | b'-' => {
                let st = self.i;
                self.i += 1;
                if c == b'0' && self.i < self.s.len() && self.s[self.i] == b'x' {
                    while self.i < self.s.len() && idc(self.s[self.i]) {
                        self.i += 1;
                    }
                    return T::Hex(std::str::from_utf8(&self.s[st..self.i]).unwrap());
                }
                let mut fl = false;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == b'.' || (fl && (self.s[self.i] == b'e' || self.s[self.i] == b'+' || self.s[self.i] == b'-'))) {
                    if self.s[self.i] == b'.' {
                        fl = true;
                    }
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                if fl {
                    return T::Hex(t);
                }
                match t.parse::<i128>() {
                    Ok(v) => T::Num(v),
                    Err(_) => T::Num(t.parse::<u128>().unwrap_or(0) as i128),
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.s.len() && idc(self.s[self.i]) {
                    self.i += 1;
                }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                if w == "c" && self.i < self.s.len() && self.s[self.i] == b'"' {
                    return self.next();
                }
                T::Id(w)
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    fn peek(&mut self) -> T<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    fn eat(&mut self, p: u8) -> bool {
        self.ws();
        if self.i < self.s.len() && self.s[self.i] == p {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, p: u8) {
        if !self.eat(p) {
            panic!("IR: expected '{}' at: {}", p as char, self.ctx());
        }
    }
    fn eat_id(&mut self, w: &str) -> bool {
        let i = self.i;
        if let T::Id(x) = self.next() {
            if x == w {
                return true;
            }
        }
        self.i = i;
        false
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(100);
        let b = (self.i + 120).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    /// skip a balanced parenthesis group, the opening one already consumed
    fn skip_paren(&mut self) {
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::End => panic!("IR: unbalanced"),
                _ => {}
            }
        }
    }
}

const PARAM_ATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "zeroext", "signext", "inreg",
    "returned", "immarg", "nofree", "nest", "swiftself", "allocalign", "allocptr", "writable", "dead_on_unwind", "noext",
    "dead_on_return", "nsz", "nnan", "ninf", "nofpclass",
];
const PARAM_ATTRS_P: &[&str] = &[
    "dereferenceable", "dereferenceable_or_null", "captures", "range", "initializes", "sret", "byval", "elementtype",
    "align", "alignstack", "inalloca", "preallocated", "nofpclass", "dead_on_return",
];

fn skip_attrs(l: &mut Lx) {
    loop {
        let i = l.i;
        match l.next() {
            T::Id(w) if PARAM_ATTRS_P.contains(&w) => {
                if l.eat(b'(') {
                    l.skip_paren();
                } else if w == "align" {
                    l.next();
                } else if !PARAM_ATTRS.contains(&w) {
                    l.i = i;
                    return;
                }
            }
            T::Id(w) if PARAM_ATTRS.contains(&w) => {}
            T::Str(_) => {
                if l.eat(b'=') {
                    l.next();
                }
            }
            T::Attr => {}
            _ => {
                l.i = i;
                return;
            }
        }
    }
}

fn parse_ty(ty: &mut Types, l: &mut Lx) -> Ty {
    let t = match l.next() {
        T::Id("void") => ty.mk(TyK::Void),
        T::Id("ptr") => {
            if l.eat_id("addrspace") {
                l.want(b'(');
                l.skip_paren();
            }
            ty.mk(TyK::Ptr)
        }
        T::Id("label") => ty.mk(TyK::Label),
        T::Id("metadata") => ty.mk(TyK::Meta),
        T::Id("token") => ty.mk(TyK::Token),
        T::Id("opaque") => ty.mk(TyK::Opaque),
        T::Id("float") => ty.mk(TyK::Float(32)),
        T::Id("double") => ty.mk(TyK::Float(64)),
        T::Id("half") => ty.mk(TyK::Float(16)),
        T::Id("x86_fp80") => ty.mk(TyK::Float(80)),
        T::Id("fp128") => ty.mk(TyK::Float(128)),
        T::Id(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
            let n = w[1..].parse().unwrap();
            ty.mk(TyK::Int(n))
        }
        T::P(b'[') => {
            let n = match l.next() {
                T::Num(n) => n as u64,
                _ => panic!("array"),
            };
            assert!(l.eat_id("x"));
            let e = parse_ty(ty, l);
            l.want(b']');
            ty.mk(TyK::Array(n, e))
        }
        T::P(b'{') => {
            let mut es = vec![];
            if !l.eat(b'}') {
                loop {
                    es.push(parse_ty(ty, l));
                    if l.eat(b'}') {
                        break;
                    }
                    l.want(b',');
                }
            }
            ty.mk(TyK::Struct(es, false))
        }
        T::P(b'<') => {
            if l.eat(b'{') {
                let mut es = vec![];
                if !l.eat(b'}') {
                    loop {
                        es.push(parse_ty(ty, l));
                        if l.eat(b'}') {
                            break;
                        }
                        l.want(b',');
                    }
                }
                l.want(b'>');
                ty.mk(TyK::Struct(es, true))
            } else {
                let n = match l.next() {
                    T::Num(n) => n as u32,
                    _ => panic!("vector"),
                };
                assert!(l.eat_id("x"));
                let e = parse_ty(ty, l);
                l.want(b'>');
                ty.mk(TyK::Vector(n, e))
            }
        }
        T::Local(n) => match ty.named.get(&n) {
            Some(t) => *t,
            None => panic!("IR: unknown type %{}", n),
        },
        t => panic!("IR: type expected, got {:?} at {}", t, l.ctx()),
    };
    // function type
    let i = l.i;
    if l.eat(b'(') {
        // only a function type if followed by a type list / ... and ')'
        let j = l.i;
        let mut lx = Lx { s: l.s, i: j };
        if is_fn_sig(&mut lx) {
            l.i = lx.i;
            // leave the return type as the type
            return t;
        }
        l.i = i;
    }
    t
}

/// after '(' : a list of bare types closed by ')' (vararg call signature)
fn is_fn_sig(l: &mut Lx) -> bool {
    let mut d = 1;
    loop {
        match l.next() {
            T::P(b'(') => d += 1,
            T::P(b')') => {
                d -= 1;
                if d == 0 {
                    // a signature is followed by the callee
                    return matches!(l.peek(), T::Glob(_) | T::Local(_));
                }
            }
            T::End => return false,
            _ => {}
        }
    }
}

fn parse_cst(ty: &mut Types, l: &mut Lx, t: Ty) -> Cst {
    let i = l.i;
    match l.next() {
        T::Num(n) => {
            let w = match ty.k(t) {
                TyK::Int(w) => *w,
                TyK::Float(w) => *w,
                _ => 64,
            };
            Cst::Int(n as u128 & crate::expr::mask(w))
        }
        T::Hex(h) => {
            if let TyK::Float(w) = ty.k(t) {
                let w = *w;
                let v = if let Some(x) = h.strip_prefix("0x") {
                    match u64::from_str_radix(x, 16) {
                        Ok(v) => f64::from_bits(v),
                        Err(_) => return Cst::Bad(h.into()),
                    }
                } else {
                    h.parse::<f64>().unwrap()
                };
                match w {
                    64 => Cst::Int(v.to_bits() as u128),
                    32 => Cst::Int((v as f32).to_bits() as u128),
                    _ => Cst::Bad(h.into()),
                }
            } else {
                Cst::Bad(h.into())
            }
        }
        T::Id("true") => Cst::Int(1),
        T::Id("false") | T::Id("null") => Cst::Int(0),
        T::Id("undef") | T::Id("poison") => Cst::Undef,
        T::Id("zeroinitializer") | T::Id("none") => {
            if ty.is_scalar(t) {
                Cst::Int(0)
            } else {
                Cst::Zero
            }
        }
        T::Id("splat") => {
            l.want(b'(');
            let e = parse_ty(ty, l);
            let c = parse_cst(ty, l, e);
            l.want(b')');
            let n = ty.count(t);
            Cst::Agg(vec![(e, c); n])
        }
        T::Id("no_cfi") | T::Id("dso_local_equivalent") => parse_cst(ty, l, t),
        T::Id(op @ ("getelementptr" | "ptrtoint" | "inttoptr" | "sub" | "add" | "trunc" | "bitcast" | "blockaddress" | "ptrtoaddr")) => {
            loop {
                match l.next() {
                    T::P(b'(') => break,
                    T::Id("inrange") => {
                        l.want(b'(');
                        l.skip_paren();
                    }
                    T::Id(_) => {}
                    _ => panic!("constexpr {}", l.ctx()),
                }
            }
            match op {
                "getelementptr" => {
                    let st = parse_ty(ty, l);
                    l.want(b',');
                    let bt = parse_ty(ty, l);
                    let base = parse_cst(ty, l, bt);
                    let mut off = 0i64;
                    let mut cur = st;
                    let mut first = true;
                    while l.eat(b',') {
                        l.eat_id("inrange");
                        let it = parse_ty(ty, l);
                        let w = ty.width(it);
                        let ix = match parse_cst(ty, l, it) {
                            Cst::Int(v) => {
                                let s = 128 - w;
                                (((v << s) as i128) >> s) as i64
                            }
                            _ => return Cst::Bad("gep index".into()),
                        };
                        if first {
                            off += ix * ty.size(st) as i64;
                            first = false;
                        } else {
                            off += ty.off(cur, ix as usize) as i64;
                            cur = ty.elem(cur, ix as usize);
                        }
                    }
                    l.want(b')');
                    match base {
                        Cst::Global(g, o) => Cst::Global(g, o + off),
                        Cst::Int(v) => Cst::Int((v as u64).wrapping_add(off as u64) as u128),
                        c => c,
                    }
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" => {
                    let st = parse_ty(ty, l);
                    let c = parse_cst(ty, l, st);
                    assert!(l.eat_id("to"));
                    let dt = parse_ty(ty, l);
                    l.want(b')');
                    match c {
                        Cst::Int(v) => {
                            let w = ty.width(dt);
                            Cst::Int(v & crate::expr::mask(w))
                        }
                        c if ty.width(dt) == 64 => c,
                        _ => Cst::Bad("ptr trunc".into()),
                    }
                }
                _ => {
                    l.skip_paren();
                    Cst::Bad(op.into())
                }
            }
        }
        T::Glob(g) => Cst::Global(g, 0),
        T::Str(s) => Cst::Str(Rc::from(s)),
        T::P(c @ (b'[' | b'{')) => {
            let close = if c == b'[' { b']' } else { b'}' };
            agg(ty, l, close, false)
        }
        T::P(b'<') => {
            if l.eat(b'{') {
                agg(ty, l, b'}', true)
            } else {
                agg(ty, l, b'>', false)
            }
        }
        t => {
            l.i = i;
            panic!("IR: constant expected, got {:?} at {}", t, l.ctx())
        }
    }
}

fn agg(ty: &mut Types, l: &mut Lx, close: u8, packed: bool) -> Cst {
    let mut v = vec![];
    if !l.eat(close) {
        loop {
            let t = parse_ty(ty, l);
            let c = parse_cst(ty, l, t);
            v.push((t, c));
            if l.eat(close) {
                break;
            }
            l.want(b',');
        }
    }
    if packed {
        l.want(b'>');
    }
    Cst::Agg(v)
}

struct FP<'t> {
    ty: &'t mut Types,
    regs: HashMap<String, Reg>,
    blocks: HashMap<String, u32>,
}

impl<'t> FP<'t> {
    fn reg(&mut self, n: &str) -> Reg {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as Reg;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, l: &mut Lx, t: Ty) -> Op {
        if let T::Local(n) = l.peek() {
            l.next();
            return Op::R(self.reg(&n));
        }
        Op::K(parse_cst(self.ty, l, t))
    }
    fn top(&mut self, l: &mut Lx) -> (Ty, Op) {
        let t = parse_ty(self.ty, l);
        skip_attrs(l);
        if matches!(self.ty.k(t), TyK::Meta) {
            // metadata argument: skip to , or ) at depth 0
            let mut d = 0;
            loop {
                let i = l.i;
                match l.next() {
                    T::P(b'(') | T::P(b'{') => d += 1,
                    T::P(b'}') => d -= 1,
                    T::P(b')') if d > 0 => d -= 1,
                    T::P(b')') | T::P(b',') if d == 0 => {
                        l.i = i;
                        break;
                    }
                    T::End => panic!("meta"),
                    _ => {}
                }
            }
            return (t, Op::K(Cst::Undef));
        }
        let o = self.op(l, t);
        (t, o)
    }
    fn blk(&mut self, l: &mut Lx) -> u32 {
        assert!(l.eat_id("label"), "label {}", l.ctx());
        match l.next() {
            T::Local(n) => *self.blocks.get(&n).unwrap_or_else(|| panic!("no block {}", n)),
            _ => panic!("label"),
        }
    }
    fn call(&mut self, l: &mut Lx, d: Option<Reg>, invoke: bool) -> PI {
        // cconv, ret attrs
        loop {
            let i = l.i;
            match l.next() {
                T::Id("fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") => {}
                _ => {
                    l.i = i;
                    break;
                }
            }
            skip_attrs(l);
        }
        skip_attrs(l);
        let rty = parse_ty(self.ty, l);
        let f = match l.next() {
            T::Glob(g) => Callee::Name(g),
            T::Local(n) => Callee::Ind(Op::R(self.reg(&n))),
            T::Id("asm") => {
                let mut s = String::new();
                loop {
                    match l.next() {
                        T::Id(_) => {}
                        T::Str(x) => {
                            s = String::from_utf8_lossy(&x).into_owned();
                            l.want(b',');
                            l.next();
                            break;
                        }
                        _ => panic!("asm {}", l.ctx()),
                    }
                }
                Callee::Asm(s)
            }
            T::Id("inttoptr") => {
                l.want(b'(');
                l.skip_paren();
                Callee::Ind(Op::K(Cst::Undef))
            }
            T::Id("null" | "poison" | "undef") => Callee::Ind(Op::K(Cst::Undef)),
            t => panic!("callee {:?} {}", t, l.ctx()),
        };
        l.want(b'(');
        let mut args = vec![];
        if !l.eat(b')') {
            loop {
                args.push(self.top(l));
                if l.eat(b')') {
                    break;
                }
                l.want(b',');
            }
        }
        let mut normal = None;
        if invoke {
            // skip attrs / bundles up to 'to'
            loop {
                match l.next() {
                    T::Id("to") => break,
                    T::End => panic!("invoke"),
                    _ => {}
                }
            }
            normal = Some(self.blk(l));
        }
        PI::Call { d, rty, f, args, normal }
    }
    fn align(&mut self, l: &mut Lx) -> u64 {
        let mut a = 1;
        loop {
            match l.next() {
                T::Id("align") => {
                    if let T::Num(n) = l.next() {
                        a = n as u64;
                    }
                }
                T::End => return a,
                _ => {}
            }
        }
    }
    fn idxs(&mut self, l: &mut Lx) -> Vec<u32> {
        let mut v = vec![];
        loop {
            let i = l.i;
            if !l.eat(b',') {
                return v;
            }
            match l.next() {
                T::Num(n) => v.push(n as u32),
                _ => {
                    l.i = i;
                    return v;
                }
            }
        }
    }
    fn inst(&mut self, line: &str) -> PI {
        let mut lx = Lx::new(line);
        let l = &mut lx;
        let mut d = None;
        let i = l.i;
        if let T::Local(n) = l.next() {
            l.want(b'=');
            d = Some(self.reg(&n));
        } else {
            l.i = i;
        }
        let opc = match l.next() {
            T::Id(w) => w,
            t => panic!("opcode {:?} in {}", t, line),
        };
        let dr = d.unwrap_or(0);
        let bin = |w: &str| {
            Some(match w {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bin(opc) {
            while l.eat_id("nuw") || l.eat_id("nsw") || l.eat_id("exact") || l.eat_id("disjoint") {}
            let t = parse_ty(self.ty, l);
            let x = self.op(l, t);
            l.want(b',');
            let y = self.op(l, t);
            return PI::Bin(dr, b, t, x, y);
        }
        match opc {
            "icmp" => {
                l.eat_id("samesign");
                let p = match l.next() {
                    T::Id("eq") => Pred::Eq,
                    T::Id("ne") => Pred::Ne,
                    T::Id("ult") => Pred::Ult,
                    T::Id("ule") => Pred::Ule,
                    T::Id("ugt") => Pred::Ugt,
                    T::Id("uge") => Pred::Uge,
                    T::Id("slt") => Pred::Slt,
                    T::Id("sle") => Pred::Sle,
                    T::Id("sgt") => Pred::Sgt,
                    T::Id("sge") => Pred::Sge,
                    _ => panic!("pred"),
                };
                let t = parse_ty(self.ty, l);
                let x = self.op(l, t);
                l.want(b',');
                let y = self.op(l, t);
                PI::Cmp(dr, p, t, x, y)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
                while l.eat_id("nuw") || l.eat_id("nsw") || l.eat_id("nneg") {}
                let (t, x) = self.top(l);
                assert!(l.eat_id("to"));
                let t2 = parse_ty(self.ty, l);
                let c = match opc {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bit,
                    _ => {
                        if !self.ty.is_scalar(t) {
                            Cast::Bit
                        } else if self.ty.width(t) > self.ty.width(t2) {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                PI::Cast(dr, c, t, x, t2)
            }
            "load" => {
                while l.eat_id("atomic") || l.eat_id("volatile") {}
                let t = parse_ty(self.ty, l);
                l.want(b',');
                let (_, p) = self.top(l);
                let a = self.align(l);
                PI::Load(dr, t, p, a)
            }
            "store" => {
                while l.eat_id("atomic") || l.eat_id("volatile") {}
                let (t, v) = self.top(l);
                l.want(b',');
                let (_, p) = self.top(l);
                let a = self.align(l);
                PI::Store(t, v, p, a)
            }
            "getelementptr" => {
                while l.eat_id("inbounds") || l.eat_id("nuw") || l.eat_id("nusw") {}
                let t = parse_ty(self.ty, l);
                l.want(b',');
                let (bt, b) = self.top(l);
                if !self.ty.is_scalar(bt) {
                    return PI::Unsupported(line.into());
                }
                let mut ix = vec![];
                while l.eat(b',') {
                    if l.peek() == T::Meta {
                        break;
                    }
                    ix.push(self.top(l));
                }
                PI::Gep(dr, t, b, ix)
            }
            "alloca" => {
                l.eat_id("inalloca");
                let t = parse_ty(self.ty, l);
                let mut n = None;
                let mut a = 1;
                while l.eat(b',') {
                    match l.peek() {
                        T::Id("align") => {
                            l.next();
                            if let T::Num(x) = l.next() {
                                a = x as u64;
                            }
                        }
                        T::Meta => break,
                        _ => n = Some(self.top(l)),
                    }
                }
                PI::Alloca(dr, t, n, a)
            }
            "phi" => {
                let t = parse_ty(self.ty, l);
                let mut v = vec![];
                loop {
                    l.want(b'[');
                    let o = self.op(l, t);
                    l.want(b',');
                    match l.next() {
                        T::Local(n) => v.push((o, self.blocks[&n])),
                        _ => panic!("phi"),
                    }
                    l.want(b']');
                    if !l.eat(b',') {
                        break;
                    }
                    if l.peek() == T::Meta {
                        break;
                    }
                }
                PI::Phi(dr, t, v)
            }
            "br" => {
                if let T::Id("label") = l.peek() {
                    PI::Br(self.blk(l))
                } else {
                    let (_, c) = self.top(l);
                    l.want(b',');
                    let a = self.blk(l);
                    l.want(b',');
                    let b = self.blk(l);
                    PI::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.top(l);
                l.want(b',');
                let def = self.blk(l);
                l.want(b'[');
                let mut cs = vec![];
                while !l.eat(b']') {
                    let ct = parse_ty(self.ty, l);
                    let c = match parse_cst(self.ty, l, ct) {
                        Cst::Int(v) => v,
                        _ => panic!("switch"),
                    };
                    l.want(b',');
                    cs.push((c, self.blk(l)));
                }
                PI::Switch(t, v, def, cs)
            }
            "ret" => {
                if l.eat_id("void") {
                    PI::Ret(None)
                } else {
                    PI::Ret(Some(self.top(l)))
                }
            }
            "unreachable" => PI::Unreachable,
            "tail" | "musttail" | "notail" => {
                assert!(l.eat_id("call"));
                self.call(l, d, false)
            }
            "call" => self.call(l, d, false),
            "invoke" => self.call(l, d, true),
            "select" => {
                let (ct, c) = self.top(l);
                l.want(b',');
                let (t, x) = self.top(l);
                l.want(b',');
                let (_, y) = self.top(l);
                PI::Select(dr, ct, c, t, x, y)
            }
            "extractvalue" => {
                let (t, x) = self.top(l);
                let ix = self.idxs(l);
                PI::ExtractValue(dr, t, x, ix)
            }
            "insertvalue" => {
                let (t, x) = self.top(l);
                l.want(b',');
                let (t2, y) = self.top(l);
                let ix = self.idxs(l);
                PI::InsertValue(dr, t, x, t2, y, ix)
            }
            "extractelement" => {
                let (t, x) = self.top(l);
                l.want(b',');
                let (t2, y) = self.top(l);
                PI::ExtractElement(dr, t, x, t2, y)
            }
            "insertelement" => {
                let (t, x) = self.top(l);
                l.want(b',');
                let (t1, e) = self.top(l);
                l.want(b',');
                let (t2, y) = self.top(l);
                PI::InsertElement(dr, t, x, t1, e, t2, y)
            }
            "shufflevector" => {
                let (t, x) = self.top(l);
                l.want(b',');
                let (_, y) = self.top(l);
                l.want(b',');
                let mt = parse_ty(self.ty, l);
                let n = self.ty.count(mt);
                let m = match parse_cst(self.ty, l, mt) {
                    Cst::Zero => vec![0; n],
                    Cst::Undef => vec![-1; n],
                    Cst::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            Cst::Int(v) => v as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("mask"),
                };
                PI::Shuffle(dr, t, x, y, m)
            }
            "freeze" => {
                let (t, x) = self.top(l);
                PI::Freeze(dr, t, x)
            }
            "fence" | "landingpad" | "resume" if opc == "fence" => PI::Nop,
            "landingpad" | "resume" => PI::Unsupported(opc.into()),
            "atomicrmw" => {
                l.eat_id("volatile");
                let op = match l.next() {
                    T::Id(w) => w.to_string(),
                    _ => panic!("rmw"),
                };
                let (_, p) = self.top(l);
                l.want(b',');
                let (t, v) = self.top(l);
                PI::Rmw(dr, op, t, p, v)
            }
            "cmpxchg" => {
                while l.eat_id("weak") || l.eat_id("volatile") {}
                let (_, p) = self.top(l);
                l.want(b',');
                let (t, c) = self.top(l);
                l.want(b',');
                let (_, n) = self.top(l);
                PI::CmpXchg(dr, t, p, c, n)
            }
            _ => PI::Unsupported(line.trim().chars().take(120).collect()),
        }
    }
}

impl Module {
    pub fn parse(src: String) -> Module {
        let src: Rc<str> = Rc::from(src);
        let mut m = Module {
            src: src.clone(),
            types: Types::new(),
            fns: vec![],
            fn_ix: HashMap::new(),
            globals: vec![],
            global_ix: HashMap::new(),
            aliases: HashMap::new(),
        };
        // named types first (they may be used before definition in any order)
        let mut named: Vec<(&str, &str)> = vec![];
        let s: &str = &src;
        let mut pos = 0;
        let mut glines: Vec<&str> = vec![];
        while pos < s.len() {
            let e = s[pos..].find('\n').map(|x| pos + x).unwrap_or(s.len());
            let line = &s[pos..e];
            if line.starts_with('@') {
                glines.push(line);
            } else if line.starts_with('%') {
                if let Some(i) = line.find(" = type ") {
                    named.push((&line[1..i], &line[i + 8..]));
                }
            } else if line.starts_with("define ") {
                let end = s[e..].find("\n}").map(|x| e + x + 2).expect("unterminated function");
                let name = fn_name(line);
                m.fn_ix.insert(name.clone(), m.fns.len());
                m.fns.push(FnDecl { name, body: Some((pos, end)) });
                pos = end;
                continue;
            } else if line.starts_with("declare ") {
                let name = fn_name(line);
                m.fn_ix.insert(name.clone(), m.fns.len());
                m.fns.push(FnDecl { name, body: None });
            }
            pos = e + 1;
        }
        // resolve named types iteratively
        let mut left = named;
        for _ in 0..64 {
            if left.is_empty() {
                break;
            }
            let mut next = vec![];
            for (n, body) in left {
                let key = n.trim_matches('"').to_string();
                let ready = {
                    let mut lx = Lx::new(body);
                    let mut ok = true;
                    loop {
                        match lx.next() {
                            T::Local(x) => ok &= m.types.named.contains_key(&x),
                            T::End => break,
                            _ => {}
                        }
                    }
                    ok
                };
                if ready {
                    let mut lx = Lx::new(body);
                    let t = parse_ty(&mut m.types, &mut lx);
                    m.types.named.insert(key, t);
                } else {
                    next.push((n, body));
                }
            }
            left = next;
        }
        for line in glines {
            m.parse_global(line);
        }
        m
    }
    fn parse_global(&mut self, line: &str) {
        let mut l = Lx::new(line);
        let name = match l.next() {
            T::Glob(n) => n,
            _ => return,
        };
        l.want(b'=');
        let mut constant = false;
        let mut external = false;
        let mut tls = false;
        let mut alias = false;
        loop {
            match l.peek() {
                T::Id("constant") => {
                    l.next();
                    constant = true;
                    break;
                }
                T::Id("global") => {
                    l.next();
                    break;
                }
                T::Id("alias" | "ifunc") => {
                    l.next();
                    alias = true;
                    break;
                }
                T::Id("external" | "extern_weak") => {
                    external = true;
                    l.next();
                }
                T::Id("thread_local") => {
                    tls = true;
                    l.next();
                    if l.eat(b'(') {
                        l.skip_paren();
                    }
                }
                T::Id("comdat" | "addrspace") => {
                    l.next();
                    if l.eat(b'(') {
                        l.skip_paren();
                    }
                }
                T::Id(_) => {
                    l.next();
                }
                t => panic!("global {:?} {}", t, line.chars().take(200).collect::<String>()),
            }
        }
        let ty = parse_ty(&mut self.types, &mut l);
        if alias {
            l.want(b',');
            let pt = parse_ty(&mut self.types, &mut l);
            if let Cst::Global(g, o) = parse_cst(&mut self.types, &mut l, pt) {
                self.aliases.insert(name, (g, o));
            }
            return;
        }
        let init = if external { None } else { Some(parse_cst(&mut self.types, &mut l, ty)) };
        let mut align = self.types.t[ty as usize].align;
        loop {
            match l.next() {
                T::Id("align") => {
                    if let T::Num(n) = l.next() {
                        align = n as u64;
                    }
                }
                T::End => break,
                _ => {}
            }
        }
        self.global_ix.insert(name.clone(), self.globals.len());
        self.globals.push(GlobalDef { name, ty, init, constant, align, tls });
    }
    pub fn parse_fn(&mut self, ix: usize) -> PFunc {
        let (a, b) = self.fns[ix].body.expect("body");
        let src = self.src.clone();
        let text = &src[a..b];
        let hdr_end = text.find('\n').unwrap();
        let hdr = &text[..hdr_end];
        let mut fp = FP { ty: &mut self.types, regs: HashMap::new(), blocks: HashMap::new() };
        // parameters
        let mut l = Lx::new(hdr);
        loop {
            match l.next() {
                T::Glob(_) => break,
                T::End => panic!("fn header"),
                _ => {}
            }
        }
        l.want(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !l.eat(b')') {
            loop {
                if l.eat(b'.') {
                    l.eat(b'.');
                    l.eat(b'.');
                    if l.eat(b')') {
                        break;
                    }
                }
                let t = parse_ty(fp.ty, &mut l);
                skip_attrs(&mut l);
                params.push(t);
                match l.peek() {
                    T::Local(n) => {
                        l.next();
                        if n.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                        fp.reg(&n);
                    }
                    _ => {
                        fp.reg(&format!("{}", unnamed));
                        unnamed += 1;
                    }
                }
                if l.eat(b')') {
                    break;
                }
                l.want(b',');
            }
        }
        // logical lines
        let mut lines: Vec<String> = vec![];
        let mut labels: Vec<(String, usize)> = vec![]; // label, index in lines
        let mut in_switch = false;
        let mut want_more = false;
        for raw in text[hdr_end + 1..].lines() {
            if raw == "}" {
                break;
            }
            if raw.is_empty() {
                continue;
            }
            let c0 = raw.as_bytes()[0];
            if c0 != b' ' && c0 != b'\t' {
                if c0 == b';' {
                    continue;
                }
                // label:
                let lab = if c0 == b'"' {
                    let e = raw[1..].find('"').unwrap();
                    String::from_utf8_lossy(&unesc(raw[1..1 + e].as_bytes())).into_owned()
                } else {
                    raw[..raw.find(':').unwrap()].to_string()
                };
                labels.push((lab, lines.len()));
                continue;
            }
            let t = raw.trim_start();
            let cont = in_switch || want_more || t.starts_with("catch ") || t.starts_with("cleanup") || t.starts_with("filter ");
            if cont {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                if in_switch && t.starts_with(']') {
                    in_switch = false;
                }
                want_more = false;
                continue;
            }
            lines.push(t.to_string());
            if t.starts_with("switch ") && t.trim_end().ends_with('[') {
                in_switch = true;
            }
            if t.starts_with("invoke ") || t.contains("= invoke ") {
                want_more = true;
            }
        }
        if labels.first().map(|x| x.1) != Some(0) {
            labels.insert(0, (format!("{}", unnamed), 0));
        }
        for (i, (n, _)) in labels.iter().enumerate() {
            fp.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        for i in 0..labels.len() {
            let st = labels[i].1;
            let en = labels.get(i + 1).map(|x| x.1).unwrap_or(lines.len());
            let v: Vec<PI> = lines[st..en].iter().map(|s| fp.inst(s)).collect();
            blocks.push(v);
        }
        PFunc { nregs: fp.regs.len() as u32, params, blocks }
    }
}

fn fn_name(line: &str) -> String {
    let i = line.find('@').unwrap();
    // the first @ in a define line is the function name, unless attributes mention one (they do not)
    let mut l = Lx { s: line.as_bytes(), i };
    match l.next() {
        T::Glob(n) => n,
        _ => panic!("fn name"),
    }
}
