//! Cursor histories of any length: C03, C16. Each loop runs to a fixpoint: states that agree are
//! explored once, so every sequence of operations, however long, is covered.
use crate::env::*;
use crate::files::to_v1;
use crate::sup::*;
use crate::vf;
use grenad::{Reader, ReaderCursor};
use std::io::{self, Read, Seek, SeekFrom};
use std::cell::Cell;
use std::rc::Rc;

/// where the cursor is
#[derive(Clone, Copy, PartialEq)]
enum Pos {
    /// fresh or reset
    Start,
    On(usize),
    /// an operation returned `None`
    Lost,
}

const OPS: u64 = 7;

/// one operation and its check; the new position
fn step<R: Read + Seek>(c: &mut ReaderCursor<R>, pos: Pos, e: &[Entry], op: u64, q: &[u8]) -> Pos {
    let n = e.len();
    let (got, exp) = match op {
        0 => (c.move_on_first(), if n == 0 { None } else { Some(0) }),
        1 => (c.move_on_last(), n.checked_sub(1)),
        2 => {
            let x = match pos {
                Pos::Start => 0,
                Pos::On(i) => i + 1,
                Pos::Lost => return lost(ok(c.move_on_next(), "next fails"), e),
            };
            (c.move_on_next(), if x < n { Some(x) } else { None })
        }
        3 => {
            let x = match pos {
                Pos::Start => n.checked_sub(1),
                Pos::On(i) => i.checked_sub(1),
                Pos::Lost => return lost(ok(c.move_on_prev(), "prev fails"), e),
            };
            (c.move_on_prev(), x)
        }
        4 => (c.move_on_key_greater_than_or_equal_to(q), e.iter().position(|x| &x.0[..] >= q)),
        5 => (c.move_on_key_lower_than_or_equal_to(q), e.iter().rposition(|x| &x.0[..] <= q)),
        _ => (c.move_on_key_equal_to(q), e.iter().position(|x| x.0 == q)),
    };
    const WHAT: [&str; 7] = ["first", "last", "next", "prev", ">= seek", "<= seek", "= seek"];
    let what = WHAT[op as usize];
    same(ok(got, what), e, exp, what);
    match exp {
        Some(i) => Pos::On(i),
        None => Pos::Lost,
    }
}
/// unspecified, and stays so until an absolute move returns an entry; but it is one of the file's
fn lost(got: Got, e: &[Entry]) -> Pos {
    match got {
        None => Pos::Lost,
        Some((k, v)) => match e.iter().position(|x| &x.0[..] == k && &x.1[..] == v) {
            Some(_) => Pos::Lost,
            None => {
                vf::check(false, "an entry the file does not hold");
                Pos::Lost
            }
        },
    }
}

fn current<R>(c: &ReaderCursor<R>, pos: Pos, e: &[Entry]) {
    match pos {
        Pos::Start => vf::check(c.current().is_none(), "current of a fresh cursor"),
        Pos::On(i) => match c.current() {
            Some((k, v)) => {
                vf::check(k == &e[i].0[..], "current key");
                vf::check(v == &e[i].1[..], "current value");
            }
            None => vf::check(false, "current is lost"),
        },
        Pos::Lost => {}
    }
}

/// the content: fixed or arbitrary keys
fn probe_for(op: u64, plen: usize, hi: usize) -> Vec<u8> {
    if op >= 4 {
        probe(plen, hi)
    } else {
        Vec::new()
    }
}

/// C03
pub fn c03() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f: &'static [u8] = Box::leak(cfg.write(&e).into_boxed_slice());
    let plen = vf::param("plen", 0) as usize;
    let hi = vf::param("qhi", 1) as usize;
    let clones = vf::param("clones", 1) == 1;
    let steps = vf::param("hist", 0);
    let r = ok(Reader::new(io::Cursor::new(f)), "open");
    let mut c = ok(r.into_cursor(), "into_cursor");
    let mut pos = Pos::Start;
    let mut k = 0;
    loop {
        current(&c, pos, &e);
        if steps > 0 {
            if k == steps {
                break;
            }
            k += 1;
        }
        vf::checkpoint();
        let op = vf::pick("op", OPS + 1 + if clones { 2 } else { 0 });
        match op {
            7 => {
                c.reset();
                pos = Pos::Start;
                vf::reach("reset");
            }
            8 | 9 => {
                // a clone, and one operation on either
                let mut d = c.clone();
                let p = pos;
                let op2 = vf::pick("op2", OPS + 1);
                let q = probe_for(op2, plen, hi);
                let t = if op == 8 { &mut d } else { &mut c };
                let np = if op2 == 7 {
                    t.reset();
                    Pos::Start
                } else {
                    step(t, p, &e, op2, &q)
                };
                if op == 8 {
                    // the original goes on
                    current(&d, np, &e);
                } else {
                    // the clone goes on
                    current(&c, np, &e);
                    c = d;
                }
                pos = p;
                vf::reach("clone");
            }
            _ => {
                let q = probe_for(op, plen, hi);
                pos = step(&mut c, pos, &e, op, &q);
                vf::reach(match pos {
                    Pos::On(_) => "moved",
                    _ => "lost",
                });
            }
        }
    }
    vf::reach("end");
}

/// C03 over a source that fails: first, last and the seeks are unaffected by an earlier operation that
/// failed half way (relative moves after a failure are taken as unspecified). An operation, one of which
/// one call of the source fails, an absolute move, a relative move.
pub fn c03_faults() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f = cfg.write(&e);
    let ctl = Ctl::new();
    let r = ok(Reader::new(Io::new(f, &ctl)), "open");
    let mut c = ok(r.into_cursor(), "into_cursor");
    let mut pos = Pos::Start;
    let probe = |op: u64| if op < 4 || e.is_empty() { Vec::new() } else { e[vf::pick("at", e.len() as u64) as usize].0.clone() };
    for _ in 0..vf::pick("before", vf::param("hist", 1) + 1) {
        let op = vf::pick("op", 6);
        pos = step(&mut c, pos, &e, op, &probe(op));
    }
    ctl.calls.set(0);
    vf::checkpoint();
    ctl.fail_at.set(vf::pick("k", vf::param("calls", 20)));
    let op = vf::pick("failing op", 6);
    let q = probe(op);
    let res = match op {
        0 => c.move_on_first(),
        1 => c.move_on_last(),
        2 => c.move_on_next(),
        3 => c.move_on_prev(),
        4 => c.move_on_key_greater_than_or_equal_to(&q),
        _ => c.move_on_key_lower_than_or_equal_to(&q),
    };
    // a failure that does not surface is another check's business
    let failed = res.is_err();
    drop(res);
    vf::assume(ctl.failed.get() & failed);
    ctl.fail_at.set(u64::MAX);
    ctl.calls.set(0);
    ctl.failed.set(false);
    pos = Pos::Start;
    vf::checkpoint();
    let op = [0, 1, 4, 5][vf::pick("op", 4) as usize];
    pos = step(&mut c, pos, &e, op, &probe(op));
    current(&c, pos, &e);
    pos = step(&mut c, pos, &e, 2 + vf::pick("then", 2), &[]);
    vf::trace_u64((pos == Pos::Lost) as u64);
    vf::reach("end");
}

/// a source that counts the reads that cover the first byte of a block
struct Counting {
    data: &'static [u8],
    at: u64,
    starts: &'static [u64],
    count: Rc<Cell<u64>>,
    lowest: Rc<Cell<u64>>,
}
impl Read for Counting {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = (self.at as usize).min(self.data.len());
        let n = b.len().min(self.data.len() - p);
        b[..n].copy_from_slice(&self.data[p..p + n]);
        let (lo, hi) = (p as u64, (p + n) as u64);
        let k = self.starts.iter().filter(|s| lo <= **s && **s < hi).count();
        self.count.set(self.count.get() + k as u64);
        if n > 0 {
            self.lowest.set(self.lowest.get().min(lo));
        }
        self.at = hi;
        Ok(n)
    }
}
impl Seek for Counting {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let to = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::End(x) => self.data.len() as i64 + x,
            SeekFrom::Current(x) => self.at as i64 + x,
        };
        if to < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.at = to as u64;
        Ok(self.at)
    }
}

/// C16
pub fn c16() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f: &'static [u8] = Box::leak(cfg.write(&e).into_boxed_slice());
    let starts: &'static [u64] = match decode(f, cfg.interval()) {
        Ok(d) => {
            vf::trace_u64(d.blocks.len() as u64);
            Box::leak(d.blocks.iter().map(|b| b.start as u64).collect::<Vec<_>>().into_boxed_slice())
        }
        Err(m) => {
            vf::check(false, m);
            return;
        }
    };
    // the same blocks behind the trailer of the first version
    let v1 = vf::param("v1", 0) == 1;
    let f: &'static [u8] = if v1 { Box::leak(to_v1(f.to_vec()).into_boxed_slice()) } else { f };
    let trailer = if v1 { 21 } else { 22 };
    let bound = 2 * (cfg.levels as u64 + 2);
    if vf::param("many", 1) == 1 && starts.len() as u64 <= bound {
        // an arbitrary block size leaves some files too small to tell anything
        vf::check(vf::param("symblock", 0) == 1, "harness: the file is too small to tell");
        return;
    }
    let plen = vf::param("plen", 0) as usize;
    let hi = vf::param("qhi", 1) as usize;
    let count = Rc::new(Cell::new(0));
    let lowest = Rc::new(Cell::new(u64::MAX));
    let src = Counting { data: f, at: vf::pick("from", 2) * (f.len() as u64 / 2), starts, count: count.clone(), lowest: lowest.clone() };
    let r = ok(Reader::new(src), "open");
    vf::check(count.get() == 0, "opening loads a block");
    vf::check(lowest.get() >= f.len() as u64 - trailer, "opening reads outside the trailer");
    let mut c = ok(r.into_cursor(), "into_cursor");
    vf::check(lowest.get() >= f.len() as u64 - trailer, "making a cursor reads outside the trailer");
    let steps = vf::param("hist", 0);
    let mut k = 0;
    loop {
        count.set(0);
        lowest.set(0);
        if steps > 0 {
            if k == steps {
                break;
            }
            k += 1;
        }
        vf::checkpoint();
        let op = vf::pick("op", OPS + 1);
        let q = probe_for(op, plen, hi);
        let some = match op {
            0 => ok(c.move_on_first(), "first").is_some(),
            1 => ok(c.move_on_last(), "last").is_some(),
            2 => ok(c.move_on_next(), "next").is_some(),
            3 => ok(c.move_on_prev(), "prev").is_some(),
            4 => ok(c.move_on_key_greater_than_or_equal_to(&q), ">=").is_some(),
            5 => ok(c.move_on_key_lower_than_or_equal_to(&q), "<=").is_some(),
            6 => ok(c.move_on_key_equal_to(&q), "=").is_some(),
            _ => {
                c.reset();
                false
            }
        };
        vf::check(count.get() <= bound, "an operation loads too many blocks");
        vf::trace_u64(count.get());
        vf::reach(if some { "entry" } else { "none" });
    }
}
