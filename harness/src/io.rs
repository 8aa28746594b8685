//! I/O: split and interrupted calls (C11), failures (C12), the trailer (C13), length framing (C14).
use crate::env::*;
use crate::sort::{inserts, pp, SCfg};
use crate::sup::*;
use crate::vf;
use grenad::{CompressionType, Error, FileVersion, Merger, MergerIter, Reader, ReaderCursor};
use std::convert::Infallible;
use std::io::{self, Cursor, Read, Seek, SeekFrom};
use std::ops::Bound;
use std::rc::Rc;

/// the error of a public call
trait Failure {
    fn carries(&self, c: &Ctl) -> bool;
}
trait Num {
    fn num(&self) -> u32;
}
impl Num for u32 {
    fn num(&self) -> u32 {
        *self
    }
}
impl Num for Infallible {
    fn num(&self) -> u32 {
        match *self {}
    }
}
impl Failure for io::Error {
    fn carries(&self, c: &Ctl) -> bool {
        c.who.get() == 1 && c.carried(self)
    }
}
impl<U: Num> Failure for Error<U> {
    fn carries(&self, c: &Ctl) -> bool {
        match self {
            Error::Io(e) => e.carries(c),
            Error::Merge(u) => c.who.get() == 2 && u.num() == 4242,
            Error::InvalidFormatVersion => c.who.get() == 3 && c.make.get() == 1,
            Error::InvalidCompressionType => c.who.get() == 3 && c.make.get() == 2,
        }
    }
}

/// one run of a scenario, and what it observed
struct Run {
    ctl: Rc<Ctl>,
    obs: Vec<u8>,
}
impl Run {
    fn new(ctl: &Rc<Ctl>) -> Run {
        Run { ctl: ctl.clone(), obs: Vec::with_capacity(1 << 14) }
    }
    /// a public call is over
    fn call<T, E: Failure>(&self, r: Result<T, E>) -> Result<T, ()> {
        match r {
            Ok(x) => {
                vf::check(!self.ctl.failed.get(), "a failure is reported as success");
                Ok(x)
            }
            Err(e) => {
                vf::check(self.ctl.failed.get(), "an error without a failure");
                vf::check(e.carries(&self.ctl), "the error does not carry the failure");
                Err(())
            }
        }
    }
    fn num(&mut self, x: u64) {
        self.obs.extend_from_slice(&x.to_le_bytes());
    }
    fn bytes(&mut self, b: &[u8]) {
        self.num(b.len() as u64);
        self.obs.extend_from_slice(b);
    }
    fn got(&mut self, x: Got) {
        match x {
            None => self.num(u64::MAX),
            Some((k, v)) => {
                self.bytes(k);
                self.bytes(v);
            }
        }
    }
    fn reader(&mut self, f: &[u8]) -> Result<Reader<Io>, ()> {
        let r = self.call(Reader::new(Io::new(f.to_vec(), &self.ctl)))?;
        self.num(r.len());
        self.num(r.compression_type() as u64);
        self.num((r.file_version() == FileVersion::FormatV2) as u64);
        Ok(r)
    }
    fn cursor(&mut self, f: &[u8]) -> Result<ReaderCursor<Io>, ()> {
        let r = self.reader(f)?;
        self.call(r.into_cursor())
    }
    fn merged<R: Read + Seek>(&mut self, mut it: MergerIter<R, Concat>) -> Result<(), ()> {
        loop {
            let x = it.next();
            match self.call(x)? {
                None => return Ok(()),
                x => self.got(x),
            }
        }
    }
}

/// everything a scenario needs, chosen before the calls under test
struct Plan {
    sc: u64,
    cfg: Cfg,
    e: Vec<Entry>,
    /// a finished file with those entries
    f: Vec<u8>,
    ops: Vec<(u64, Vec<u8>)>,
    bounds: (Bound<Vec<u8>>, Bound<Vec<u8>>),
    rev: bool,
    way: u64,
    srcs: Vec<Vec<u8>>,
    sorter: Option<SCfg>,
}
impl Plan {
    fn new() -> Plan {
        let cfg = Cfg::from_params();
        let sc = vf::param("sc", 0);
        let e = if sc == 6 { inserts() } else { entries() };
        let mut p = Plan {
            sc,
            cfg,
            f: Vec::new(),
            ops: Vec::new(),
            bounds: (Bound::Unbounded, Bound::Unbounded),
            rev: false,
            way: 0,
            srcs: Vec::new(),
            sorter: None,
            e,
        };
        let plen = vf::param("plen", 0) as usize;
        match sc {
            0 => p.way = pp("way", 2),
            1 => p.f = cfg.write(&p.e),
            2 => {
                p.f = cfg.write(&p.e);
                for _ in 0..vf::param("hist", 2) {
                    let op = vf::pick("op", 8);
                    let q = if op >= 4 && op < 7 { around(&p.e) } else { Vec::new() };
                    p.ops.push((op, q));
                }
            }
            3 => {
                p.f = cfg.write(&p.e);
                let mut b = |k| match k {
                    0 => Bound::Unbounded,
                    1 => Bound::Included(around(&p.e)),
                    _ => Bound::Excluded(around(&p.e)),
                };
                p.bounds = (b(pp("lower", 3)), b(pp("upper", 3)));
                p.rev = pp("rev", 2) == 1;
            }
            4 => {
                p.f = cfg.write(&p.e);
                let mut q = around(&p.e);
                q.truncate(plen + vf::pick("cut", 3) as usize);
                p.ops.push((0, q));
                p.rev = pp("rev", 2) == 1;
            }
            5 => {
                let s = vf::param("s", 3) as usize;
                for i in 0..s {
                    // overlapping: entry j goes to the sources i that divide it
                    let es: Vec<Entry> = p.e.iter().enumerate().filter(|(j, _)| j % (i + 1) == 0).map(|(_, x)| x.clone()).collect();
                    p.srcs.push(cfg.write(&es));
                }
                p.way = pp("way", 2);
            }
            _ => {
                p.sorter = Some(SCfg::from_params());
                p.way = pp("way", 3);
            }
        }
        p
    }

    fn run(&self, r: &mut Run) -> Result<(), ()> {
        let ctl = r.ctl.clone();
        match self.sc {
            0 => {
                let mut io = Io::sink(&ctl);
                if self.way == 0 {
                    let mut w = self.cfg.builder().build(io);
                    for (k, v) in &self.e {
                        r.call(w.insert(k, v))?;
                    }
                    io = r.call(w.into_inner())?;
                } else {
                    let mut w = self.cfg.builder().build(&mut io);
                    for (k, v) in &self.e {
                        r.call(w.insert(k, v))?;
                    }
                    r.call(w.finish())?;
                }
                r.bytes(&io.data);
            }
            1 => {
                let mut c = r.cursor(&self.f)?;
                loop {
                    let x = c.move_on_next();
                    match r.call(x)? {
                        None => break,
                        x => r.got(x),
                    }
                }
                c.reset();
                loop {
                    let x = c.move_on_prev();
                    match r.call(x)? {
                        None => break,
                        x => r.got(x),
                    }
                }
            }
            2 => {
                let mut c = r.cursor(&self.f)?;
                for (op, q) in &self.ops {
                    let x = match op {
                        0 => c.move_on_first(),
                        1 => c.move_on_last(),
                        2 => c.move_on_next(),
                        3 => c.move_on_prev(),
                        4 => c.move_on_key_greater_than_or_equal_to(q),
                        5 => c.move_on_key_lower_than_or_equal_to(q),
                        6 => c.move_on_key_equal_to(q),
                        _ => {
                            c.reset();
                            Ok(None)
                        }
                    };
                    let x = r.call(x)?;
                    r.got(x);
                }
            }
            3 => {
                let rd = r.reader(&self.f)?;
                if self.rev {
                    let mut it = r.call(rd.into_rev_range_iter(self.bounds.clone()))?;
                    loop {
                        let x = it.next();
                        match r.call(x)? {
                            None => break,
                            x => r.got(x),
                        }
                    }
                } else {
                    let mut it = r.call(rd.into_range_iter(self.bounds.clone()))?;
                    loop {
                        let x = it.next();
                        match r.call(x)? {
                            None => break,
                            x => r.got(x),
                        }
                    }
                }
            }
            4 => {
                let rd = r.reader(&self.f)?;
                let q = self.ops[0].1.clone();
                if self.rev {
                    let mut it = r.call(rd.into_rev_prefix_iter(q))?;
                    loop {
                        let x = it.next();
                        match r.call(x)? {
                            None => break,
                            x => r.got(x),
                        }
                    }
                } else {
                    let mut it = r.call(rd.into_prefix_iter(q))?;
                    loop {
                        let x = it.next();
                        match r.call(x)? {
                            None => break,
                            x => r.got(x),
                        }
                    }
                }
            }
            5 => {
                let mut b = Merger::builder(Concat { ctl: ctl.clone(), log: None, how: 0 });
                for f in &self.srcs {
                    b.push(r.cursor(f)?);
                }
                if self.way == 0 {
                    let it = r.call(b.build().into_stream_merger_iter())?;
                    r.merged(it)?;
                } else {
                    let mut w = self.cfg.builder().build(Io::sink(&ctl));
                    r.call(b.build().write_into_stream_writer(&mut w))?;
                    let io = r.call(w.into_inner())?;
                    r.bytes(&io.data);
                }
            }
            _ => {
                let sc = match &self.sorter {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let mut s = sc.build(&self.cfg, Concat { ctl: ctl.clone(), log: None, how: 0 }, Maker { ctl: ctl.clone() });
                for (k, v) in &self.e {
                    r.call(s.insert(k, v))?;
                }
                if ctl.created.get() > 1 {
                    vf::reach("spilled");
                }
                match self.way {
                    0 => {
                        let it = r.call(s.into_stream_merger_iter())?;
                        r.merged(it)?;
                    }
                    1 => {
                        let mut w = self.cfg.builder().build(Io::sink(&ctl));
                        r.call(s.write_into_stream_writer(&mut w))?;
                        let io = r.call(w.into_inner())?;
                        r.bytes(&io.data);
                    }
                    _ => {
                        let cs = r.call(s.into_reader_cursors())?;
                        for mut c in cs {
                            loop {
                                let x = c.move_on_next();
                                match r.call(x)? {
                                    None => break,
                                    x => r.got(x),
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// a key of the file, or its neighbour
fn around(e: &[Entry]) -> Vec<u8> {
    let i = vf::pick("near", e.len() as u64 + 1) as usize;
    let mut k = match e.get(i) {
        Some(x) => x.0.clone(),
        None => return vec![0xFF; 3],
    };
    if vf::flip("below") {
        match k.last_mut() {
            Some(b) => *b = b.wrapping_sub(1),
            None => {}
        }
    }
    k
}

/// C11
pub fn c11() {
    let p = Plan::new();
    let whole = Ctl::new();
    let mut a = Run::new(&whole);
    vf::check(p.run(&mut a).is_ok(), "a run over whole transfers fails");
    if p.sc == 0 {
        // nothing else enters the bytes: a second run, another kind of sink
        let m = p.cfg.write(&p.e);
        vf::check(m[..] == a.obs[8..], "two runs write different bytes");
    }
    let ctl = Ctl::new();
    ctl.split.set(vf::param("split", 1));
    ctl.devs.set(vf::param("devs", u64::MAX));
    if ctl.split.get() == 4 {
        ctl.unit.set(1 + vf::pick("unit", vf::param("units", 40)));
        ctl.intr.set(vf::pick("interrupt", 2));
    }
    ctl.room.set(vf::param("room", 2048));
    let mut b = Run::new(&ctl);
    vf::check(p.run(&mut b).is_ok(), "a run over split transfers fails");
    vf::check(a.obs == b.obs, "split transfers change the result");
    vf::trace_u64(a.obs.len() as u64);
    vf::reach("end");
}

/// how the failing call fails
pub fn failing(ctl: &Ctl) {
    ctl.kind.set(pp("kind", 6));
    match ctl.kind.get() {
        0 => {
            // an interruption (EINTR) asks for another try
            let c = vf::u32("code");
            vf::assume(c != 4);
            ctl.code.set(c);
        }
        6 => ctl.code.set(vf::pick("other kind", KINDS.len() as u64) as u32),
        _ => {}
    }
}

/// C12: the k-th call of a user-supplied component fails, for every k
pub fn c12() {
    let p = Plan::new();
    let ctl = Ctl::new();
    ctl.fail_at.set(vf::u64("k"));
    failing(&ctl);
    if p.sc == 6 {
        ctl.make.set(pp("make", 3));
    }
    let mut r = Run::new(&ctl);
    let res = p.run(&mut r);
    vf::check(res.is_err() == ctl.failed.get(), "a failure does not surface");
    if ctl.failed.get() {
        vf::reach("failure");
        match ctl.who.get() {
            2 => vf::reach("merge failure"),
            3 => vf::reach("creator failure"),
            _ => {}
        }
    } else {
        vf::reach("no failure");
    }
    vf::trace_u64(ctl.calls.get());
}

// ---- C13 -------------------------------------------------------------------------------------

fn le(b: &[u8]) -> u64 {
    let mut x = 0;
    for (i, c) in b.iter().enumerate() {
        x |= (*c as u64) << (8 * i);
    }
    x
}

/// `b` opens exactly when it ends with a complete trailer, and then says what the trailer says
fn opens(b: &[u8], at: u64) {
    let n = b.len();
    let magic = if n >= 4 { le(&b[n - 4..]) } else { 0 };
    let mut s = Cursor::new(b);
    s.set_position(at);
    let r = Reader::new(s);
    let v2 = n >= 22 && magic == 0x6723_D4C4;
    let v1 = n >= 21 && magic == 0x7632_4D4C;
    let known = (v2 && b[n - 14 + 0] <= 5) || (v1 && b[n - 13] <= 5);
    match r {
        Ok(r) => {
            vf::check(known, "a string without a trailer opens");
            let (len, codec) = if v2 { (22, b[n - 14]) } else { (21, b[n - 13]) };
            vf::check((r.file_version() == FileVersion::FormatV2) == v2, "format version");
            vf::check(r.compression_type() as u8 == codec, "codec");
            vf::check(r.len() == le(&b[n - len + 9..n - len + 17]), "entry count");
            vf::check(r.is_empty() == (r.len() == 0), "emptiness");
            vf::reach(if v2 { "opened v2" } else { "opened v1" });
            vf::trace_u64(r.len());
        }
        Err(_) => {
            vf::check(!known, "a string with a trailer does not open");
            vf::reach("rejected");
        }
    }
}

/// every byte string of up to `n` bytes
pub fn c13() {
    let n = vf::param("lo", 0) + vf::pick("len", vf::param("hi", 44) - vf::param("lo", 0) + 1);
    let b = vf::bytes("b", n as usize);
    opens(&b, vf::pick("at", 2) * 7);
}

/// long strings: arbitrary last bytes behind constant ones
pub fn c13_long() {
    let n = (vf::param("around", 4096) - 2 + vf::pick("len", 5)) as usize;
    let mut b = vec![vf::param("with", 0) as u8; n];
    vf::fill("b", &mut b[n - vf::param("tail", 44) as usize..]);
    opens(&b, vf::pick("at", 2) * n as u64);
}

/// every truncation of finished files, every corruption of one byte of the trailer
pub fn c13_files() {
    let cfg = Cfg::from_params();
    let e = entries();
    let mut f = cfg.write(&e);
    if vf::param("v1", 0) == 1 {
        // the same content under a version-1 trailer
        let n = f.len();
        f.remove(n - 5);
        f.truncate(n - 5);
        f.extend_from_slice(&0x7632_4D4Cu32.to_le_bytes());
    }
    if vf::flip("corrupt") {
        let n = f.len();
        let i = n - 1 - vf::pick("where", 22) as usize;
        f[i] = vf::u8("byte");
        opens(&f, 0);
    } else {
        let n = vf::pick("cut", f.len() as u64 + 1) as usize;
        f.truncate(n);
        opens(&f, 0);
    }
}

/// what a writer leaves when its sink fails
pub fn c13_crash() {
    let cfg = Cfg::from_params();
    let e = entries();
    let whole = cfg.write(&e);
    let ctl = Ctl::new();
    ctl.fail_at.set(vf::u64("k"));
    let mut io = Io::sink(&ctl);
    let mut w = cfg.builder().build(&mut io);
    let mut done = true;
    for (k, v) in &e {
        if w.insert(k, v).is_err() {
            done = false;
            break;
        }
    }
    if done {
        // or never finished
        if vf::flip("finish") {
            done = w.finish().is_ok();
        } else {
            done = false;
            drop(w);
        }
    } else {
        drop(w);
    }
    vf::check(io.data.len() <= whole.len() && io.data[..] == whole[..io.data.len()], "the sink holds something else than a beginning of the file");
    vf::check(!done || io.data.len() == whole.len(), "finished, and incomplete");
    vf::reach(if done { "finished" } else { "crashed" });
    opens(&io.data, 0);
}

/// content that may itself look like a trailer
pub fn c13_tail() {
    let cfg = Cfg::from_params();
    let vlen = vf::param("vlen", 30) as usize;
    let e: Vec<Entry> = if vf::param("key", 0) == 1 {
        vec![(vf::bytes("b", vlen), vec![3; 2])]
    } else {
        vec![(vec![1], vf::bytes("b", vlen))]
    };
    let mut f = cfg.write(&e);
    let n = vf::pick("cut", f.len() as u64 + 1) as usize;
    f.truncate(n);
    opens(&f, 0);
}

/// C17: a call fails, everything is dropped: no leak, nothing freed twice
pub fn c17_fails() {
    let before = vf::live_bytes();
    {
        let p = Plan::new();
        let ctl = Ctl::new();
        ctl.fail_at.set(vf::u64("k"));
        failing(&ctl);
        let mut r = Run::new(&ctl);
        let _ = p.run(&mut r);
        vf::trace_u64(ctl.calls.get());
    }
    vf::check(vf::live_bytes() == before, "memory is leaked");
    vf::reach("end");
}

// ---- C14 -------------------------------------------------------------------------------------

#[cfg(grenad_verif_varint)]
pub fn c14() {
    use grenad::verif::{varint_decode32, varint_encode32};
    let x = vf::u32("x");
    // the space for the encoding, and what follows it, hold anything
    let mut b = [0u8; 16];
    vf::fill("old", &mut b);
    let old = b;
    let mut room = [0u8; 8];
    vf::fill("room", &mut room);
    let size = if vf::flip("tight") { 5 } else { 8 };
    let enc = varint_encode32(&mut room[..size], x);
    let n = vf::concretize(enc.len() as u64) as usize;
    vf::check(n >= 1 && n <= 5, "encoded length");
    b[..n].copy_from_slice(enc);
    // followed by nothing, or by anything
    let end = if vf::flip("last") { n } else { 16 };
    let mut y = vf::u32("y");
    let used = varint_decode32(&b[..end], &mut y);
    vf::check(used == n, "bytes consumed");
    vf::check(y == x, "decoded length");
    vf::check(b[n..] == old[n..], "decoding writes");
    vf::reach(["1", "2", "3", "4", "5"][n - 1]);
    vf::trace_u64(y as u64);
}
#[cfg(not(grenad_verif_varint))]
pub fn c14() {
    vf::check(false, "harness: needs the hook");
}

/// entries whose lengths sit at the boundaries
pub fn c14_entries() {
    let cfg = Cfg::from_params();
    let around = vf::param("around", 128) as usize;
    let l = around - 1 + vf::pick("d", vf::param("many", 3)) as usize;
    // a length no encoding stands for: refused or kept
    vf::panic_ok(l as u64 > u32::MAX as u64);
    let what = pp("what", 3);
    let mut e: Vec<Entry> = vec![(vec![1], vec![9; 3]), (vec![2], vec![8; 2]), (vec![3], vec![7; 1])];
    let pos = vf::param("pos", 1) as usize;
    let edge = |v: &mut Vec<u8>, first: u8| {
        if vf::param("flat", 0) == 1 {
            *v = vec![0xff; l];
        } else {
            v.clear();
            v.resize(l, 0x11);
        }
        let n = v.len();
        if n > 0 {
            if vf::param("symb", 1) == 1 {
                vf::fill("b", &mut v[n - 1..]);
            }
            v[0] = first;
        }
    };
    if what != 1 {
        edge(&mut e[pos].0, pos as u8 * 2);
    }
    if what != 0 {
        edge(&mut e[pos].1, 5);
    }
    let f = cfg.write(&e);
    let r = open(f);
    vf::check(r.len() == 3, "len");
    let mut c = ok(r.into_cursor(), "into_cursor");
    for i in 0..3 {
        same(ok(c.move_on_next(), "next"), &e, Some(i), "next");
    }
    vf::check(ok(c.move_on_next(), "next").is_none(), "an entry too many");
    same(ok(c.move_on_last(), "last"), &e, Some(2), "last");
    same(ok(c.move_on_prev(), "prev"), &e, Some(1), "prev");
    same(ok(c.move_on_key_equal_to(&e[pos].0), "seek"), &e, Some(pos), "seek");
    vf::reach("end");
}
