//! Mergers and sorters: C06, C07, C08, C17.
use crate::env::*;
use crate::sup::*;
use crate::vf;
use grenad::{CursorVec, ChunkCreator, DefaultChunkCreator, Merger, MergerIter, MergeFunction, Reader, SortAlgorithm, Sorter, SorterBuilder};
use std::cell::RefCell;
use std::io::{Read, Seek};
use std::num::NonZeroUsize;
use std::rc::Rc;

/// a parameter, or every value below `n`
pub fn pp(name: &str, n: u64) -> u64 {
    let x = vf::param(name, 99);
    if x == 99 {
        vf::pick(name, n)
    } else {
        x
    }
}

/// keys of the instance's shape
fn key(plen: usize, lo: usize, hi: usize) -> Vec<u8> {
    let l = lo + vf::pick("klen", (hi - lo + 1) as u64) as usize;
    let mut k = vec![b'p'; plen + l];
    vf::fill("key", &mut k[plen..]);
    k
}

fn drain<R: Read + Seek, MF: MergeFunction>(mut it: MergerIter<R, MF>) -> Vec<Entry> {
    let mut o = Vec::new();
    while let Some((k, v)) = ok(it.next(), "merger next fails") {
        o.push((k.to_vec(), v.to_vec()));
    }
    vf::check(ok(it.next(), "merger next fails").is_none(), "the merger goes on after its end");
    o
}
fn read_all(f: Vec<u8>) -> Vec<Entry> {
    let r = open(f);
    let n = r.len();
    let mut c = ok(r.into_cursor(), "into_cursor");
    let mut o = Vec::new();
    while let Some((k, v)) = ok(c.move_on_next(), "next fails") {
        o.push((k.to_vec(), v.to_vec()));
    }
    vf::check(o.len() as u64 == n, "entry count");
    o
}

/// distinct keys in order, each with the numbers of its entries in order
fn groups(e: &[Entry]) -> Vec<(Vec<u8>, Vec<usize>)> {
    let mut g: Vec<(Vec<u8>, Vec<usize>)> = Vec::new();
    for (i, (k, _)) in e.iter().enumerate() {
        let mut at = g.len();
        let mut hit = false;
        for (j, (x, _)) in g.iter().enumerate() {
            if k <= x {
                at = j;
                hit = k == x;
                break;
            }
        }
        if hit {
            g[at].1.push(i);
        } else {
            g.insert(at, (k.clone(), vec![i]));
        }
    }
    g
}

/// C06
pub fn c06() {
    let cfg = Cfg::from_params();
    let smax = vf::param("s", 3);
    let s = if vf::param("upto", 1) == 1 { vf::pick("sources", smax + 1) } else { smax } as usize;
    let m = vf::param("m", 2);
    let full = vf::param("full", 0) == 1;
    let plen = vf::param("plen", 0) as usize;
    let (lo, hi) = (vf::param("klo", 1) as usize, vf::param("khi", 1) as usize);
    let vlen = vf::param("vlen", 2) as usize;
    let how = pp("how", 3);
    let symk = vf::param("symk", 1) == 1;
    let mut e: Vec<Entry> = Vec::new();
    let mut src: Vec<usize> = Vec::new();
    let log = Rc::new(RefCell::new(Vec::new()));
    let mf = Concat { ctl: Ctl::new(), log: Some(log.clone()), how };
    // the forms a merge function comes in
    let mf = if vf::param("either", 1) == 1 { either::Either::Left(mf) } else { either::Either::Right(mf) };
    let mut b = Merger::builder(&mf);
    let chain = vf::param("chain", 0);
    // sources of different make
    let mix = vf::param("mix", 0) == 1;
    let mut late = Vec::new();
    for i in 0..s {
        let n = if full { m } else { vf::pick("n", m + 1) } as usize;
        let keys = if symk {
            sym_keys(n, plen, lo, hi)
        } else {
            // overlapping patterns
            let i = if vf::param("same", 0) == 1 { i % 3 } else { i };
            (0..n).map(|j| ((j * (i + 1) + i) as u16).to_be_bytes().to_vec()).map(|k| [&vec![b'p'; plen][..], &k].concat()).collect()
        };
        let es: Vec<Entry> = keys.into_iter().enumerate().map(|(j, k)| (k, pad(&[(i % 255) as u8 + 1, j as u8 + 1 + (i / 255) as u8], if j % 2 == 1 && chain == 1 { 0 } else { vlen }))).collect();
        let own = if mix {
            Cfg { codec: (i % 6) as u8, level: cfg.level, block: [1024, 1 << 20, 3000][i % 3], interval: [0, 1, 3, 64][i % 4], levels: if i % 7 == 6 { 0 } else { [0, 2, 1, 255, 5][i % 5] } }
        } else {
            Cfg { ..cfg }
        };
        let c = ok(open(if mix && i % 7 == 6 { crate::files::to_v1(own.write(&es)) } else { own.write(&es) }).into_cursor(), "into_cursor");
        match chain {
            1 => b = b.add(c),
            2 => late.push(c),
            _ => b.push(c),
        }
        for x in es {
            e.push(x);
            src.push(i);
        }
    }
    b.extend(late);
    let merger = b.build();
    let out = if pp("way", 2) == 0 {
        vf::reach("stream");
        drain(ok(merger.into_stream_merger_iter(), "into_stream_merger_iter"))
    } else {
        let mut w = cfg.builder().memory();
        ok(merger.write_into_stream_writer(&mut w), "write_into_stream_writer");
        vf::reach("writer");
        read_all(ok(w.into_inner(), "into_inner"))
    };
    let g = groups(&e);
    vf::check(out.len() == g.len(), "number of keys");
    let mut log = log.borrow_mut();
    for (i, (k, ids)) in g.iter().enumerate() {
        vf::check(out[i].0 == *k, "key");
        if ids.len() == 1 {
            vf::check(out[i].1 == e[ids[0]].1, "value of one source");
        } else {
            vf::check(out[i].1 == joined(how, ids.iter().map(|x| &e[*x].1[..])), "merged value");
            // once, with the values in source order
            let mut n = 0;
            for (lk, lv) in log.iter() {
                if lk == k {
                    n += 1;
                    vf::check(lv.len() == ids.len() && lv.iter().zip(ids).all(|(v, x)| *v == e[*x].1), "values given to the merge function");
                }
            }
            vf::check(n == 1, "the merge function is not applied exactly once");
            vf::reach("merged");
        }
        vf::trace(k);
        vf::trace(&out[i].1[..out[i].1.len().min(6)]);
    }
    for (k, _) in log.drain(..) {
        vf::check(g.iter().any(|x| x.0 == k), "the merge function gets a key no source holds");
    }
    vf::reach("end");
}

pub struct SCfg {
    budget: usize,
    realloc: bool,
    chunks: usize,
    stable: bool,
    parallel: bool,
}
impl SCfg {
    pub fn from_params() -> SCfg {
        SCfg {
            // any buffer size at all (with reallocation it is only compared with), any number of chunks
            budget: if vf::param("symbudget", 0) == 1 { vf::u64("budget") as usize } else { vf::param("budget", 160) as usize },
            realloc: pp("realloc", 2) == 1,
            chunks: if vf::param("symchunks", 0) == 1 { vf::u64("chunks") as usize } else { vf::param("chunks", 2) as usize },
            stable: pp("stable", 2) == 1,
            parallel: pp("par", 2) == 1,
        }
    }
    pub fn build<CC: ChunkCreator>(&self, cfg: &Cfg, mf: Concat, cc: CC) -> Sorter<Concat, CC> {
        let mut b = SorterBuilder::new(mf).chunk_creator(cc);
        b.dump_threshold(self.budget);
        b.allow_realloc(self.realloc);
        b.max_nb_chunks(self.chunks);
        b.sort_algorithm(if self.stable { SortAlgorithm::Stable } else { SortAlgorithm::Unstable });
        b.sort_in_parallel(self.parallel);
        b.chunk_compression_type(CODECS[cfg.codec as usize]);
        b.chunk_compression_level(cfg.level);
        b.block_size(cfg.block);
        b.index_levels(cfg.levels);
        if let Some(i) = NonZeroUsize::new(cfg.interval) {
            b.index_key_interval(i);
        }
        b.build()
    }
}

/// every way out of a sorter
fn output<CC: ChunkCreator>(s: Sorter<Concat, CC>, cfg: &Cfg, way: u64) -> Vec<Entry> {
    match way {
        0 => drain(ok(s.into_stream_merger_iter(), "into_stream_merger_iter")),
        1 => {
            let mut w = cfg.builder().memory();
            ok(s.write_into_stream_writer(&mut w), "write_into_stream_writer");
            read_all(ok(w.into_inner(), "into_inner"))
        }
        _ => {
            let cs = ok(s.into_reader_cursors(), "into_reader_cursors");
            vf::trace_u64(cs.len() as u64);
            let mut b = Merger::builder(Concat { ctl: Ctl::new(), log: None, how: 0 });
            b.extend(cs);
            drain(ok(b.build().into_stream_merger_iter(), "into_stream_merger_iter"))
        }
    }
}

/// `out` is the merge of `e`: values in insertion order when stable, in some order otherwise
fn merged(out: &[Entry], e: &[Entry], stable: bool) {
    let g = groups(e);
    vf::check(out.len() == g.len(), "number of keys");
    for (i, (k, ids)) in g.iter().enumerate() {
        vf::check(out[i].0 == *k, "key");
        let want = joined(0, ids.iter().map(|x| &e[*x].1[..]));
        let got = &out[i].1;
        if stable || ids.len() == 1 {
            vf::check(*got == want, "merged value");
        } else {
            vf::check(got.len() == want.len(), "length of a merged value");
            // values start with their own number
            let mut left: Vec<usize> = ids.iter().copied().filter(|x| !e[*x].1.is_empty()).collect();
            let mut p = 0;
            while p < got.len() {
                let j = left.iter().position(|x| e[*x].1[0] == got[p] && (e.len() < 256 || got[p..].starts_with(&e[*x].1)));
                match j {
                    Some(j) => {
                        let v = &e[left.swap_remove(j)].1;
                        vf::check(got.len() - p >= v.len() && got[p..p + v.len()] == v[..], "value in an unstable merge");
                        p += v.len();
                    }
                    None => {
                        vf::check(false, "a value is lost or repeated");
                        return;
                    }
                }
            }
            vf::check(left.is_empty(), "a value is lost");
        }
        vf::trace(k);
        vf::trace_u64(got.len() as u64);
    }
}

/// the entries inserted: arbitrary keys, sizes from a list
/// huge values are mostly zeros: their pages are shared
fn filled(id: u8, l: usize) -> Vec<u8> {
    if l < 1 << 28 {
        return vec![id; l];
    }
    let mut v = vec![0xff; l];
    v[0] = id;
    v[l - 1] = id;
    v
}
pub fn inserts() -> Vec<Entry> {
    let mut n = vf::param("n", 4) as usize;
    if vf::param("upto", 0) == 1 {
        n = vf::pick("n", n as u64 + 1) as usize;
    }
    let plen = vf::param("plen", 0) as usize;
    let (lo, hi) = (vf::param("klo", 1) as usize, vf::param("khi", 1) as usize);
    let symk = vf::param("symk", 1) == 1;
    let modk = vf::param("modk", 7) as usize;
    let vlen = vf::param("vlen", 2) as usize;
    let vmany = vf::param("vmany", 1);
    let vstep = vf::param("vstep", 8) as usize;
    // the first `vfree` sizes are free, the rest repeat them
    let vfree = vf::param("vfree", n as u64) as usize;
    let mut sizes = Vec::new();
    (0..n)
        .map(|i| {
            let k = if symk {
                key(plen, lo, hi)
            } else {
                let mut k = vec![b'p'; plen];
                k.extend_from_slice(&((i * 5 % modk) as u16).to_be_bytes());
                k
            };
            let l = if i < vfree { vlen + vstep * vf::pick("vlen", vmany) as usize } else { sizes[i % sizes.len().max(1)] };
            sizes.push(l);
            let id = (i % 255) as u8 + 1;
            let mut v = filled(id, l);
            if l > 1 && i >= 255 {
                v[1] = (i / 255) as u8;
            }
            (k, v)
        })
        .collect()
}

/// C07
pub fn c07() {
    let cfg = Cfg::from_params();
    let sc = SCfg::from_params();
    let way = pp("way", 3);
    let own = vf::param("own", 1);
    let e = inserts();
    let ctl = Ctl::new();
    let mf = Concat { ctl: Ctl::new(), log: None, how: 0 };
    let out = if own == 1 {
        let mut s = sc.build(&cfg, mf, Maker { ctl: ctl.clone() });
        for (k, v) in &e {
            ok(s.insert(k, v), "insert fails");
        }
        if ctl.created.get() > 0 {
            vf::reach("spilled");
        }
        if ctl.created.get() > ctl.live.get() {
            vf::reach("chunks merged");
        }
        vf::trace_u64(ctl.created.get());
        output(s, &cfg, way)
    } else if own == 2 {
        // the default storage: temporary files
        let mut s = sc.build(&cfg, mf, DefaultChunkCreator::default());
        for (k, v) in &e {
            ok(s.insert(k, v), "insert fails");
        }
        output(s, &cfg, way)
    } else if own == 3 {
        // every default
        let mut s = Sorter::new(mf);
        for (k, v) in &e {
            ok(s.insert(k, v), "insert fails");
        }
        output(s, &cfg, way)
    } else {
        let mut s = sc.build(&cfg, mf, CursorVec);
        for (k, v) in &e {
            ok(s.insert(k, v), "insert fails");
        }
        output(s, &cfg, way)
    };
    merged(&out, &e, sc.stable);
    vf::reach(["stream", "writer", "cursors"][way as usize]);
}

/// C08: any number of inserts of small entries; a fixpoint when the content does not grow
pub fn c08() {
    let cfg = Cfg::from_params();
    let sc = SCfg::from_params();
    let ctl = Ctl::new();
    // only the last value is kept: the content stays small
    let mctl = Ctl::new();
    let mf = Concat { ctl: mctl.clone(), log: None, how: 2 };
    let mut s = sc.build(&cfg, mf, Maker { ctl: ctl.clone() });
    // the smallest budget the sorter accepts, when the budget is arbitrary
    let eff = if vf::param("symbudget", 0) == 1 { (sc.budget as u64).max(vf::param("eff", 160)) } else { vf::param("eff", sc.budget as u64) };
    let lim = eff.saturating_mul(if sc.realloc { 2 } else { 1 });
    let most = (sc.chunks.max(1) as u64).saturating_add(2);
    let n = vf::param("n", 0);
    let klen = vf::param("klen", 0) as usize;
    let base = vf::param("base", 0);
    let step = vf::param("step", 8);
    let many = vf::param("many", 3);
    let fixed = vf::param("fixed", 0) == 1;
    let dist = vf::param("dist", 0) == 1;
    let size = vf::pick("size", many);
    let mut volume = 0u64;
    let mut i = 0;
    loop {
        // counters only grow: leave them out of the state
        ctl.calls.set(0);
        mctl.calls.set(0);
        if n > 0 {
            if i == n {
                break;
            }
            i += 1;
        } else {
            vf::checkpoint();
            if vf::flip("finish") {
                break;
            }
        }
        let len = base + step * if fixed { size } else { vf::pick("size", many) };
        let mut k = vec![b'k'; klen];
        if dist {
            // what is on disk grows
            k.extend_from_slice(&(i as u16).to_be_bytes());
        }
        let v = vec![0u8; len as usize];
        ctl.created.set(0);
        ok(s.insert(&k, &v), "insert fails");
        let size = k.len() as u64 + len;
        if ctl.created.get() > 0 {
            volume = size;
            vf::reach("spill");
            if ctl.created.get() > 1 {
                vf::reach("chunks merged");
            }
        } else {
            volume += size;
        }
        vf::check(volume <= lim, "too much data held since the last spill");
        vf::check(ctl.most.get() <= most, "too many chunks");
        ctl.most.set(ctl.live.get());
    }
    vf::trace_u64(volume);
    vf::trace_u64(ctl.live.get());
    ctl.created.set(0);
    let last = volume > 0 || n > 0;
    drop(ok(s.into_reader_cursors(), "into_reader_cursors"));
    vf::check(!last || ctl.created.get() == 1, "the last spill does not use the chunk creator");
    vf::check(ctl.most.get() <= most, "too many chunks");
    vf::reach("end");
}

/// C17: sizes that fill the buffer exactly, overflow it, make it grow; nothing leaks
pub fn c17() {
    let before = vf::live_bytes();
    c17_body();
    vf::check(vf::live_bytes() == before, "memory is leaked");
    vf::reach("end");
}
fn c17_body() {
    let cfg = Cfg::from_params();
    let sc = SCfg::from_params();
    let way = pp("way", 4);
    let n = vf::param("n", 3) as usize;
    let klen = vf::param("klen", 1) as usize;
    let base = vf::param("base", 0) as usize;
    let step = vf::param("step", 1) as usize;
    let many = vf::param("many", 40);
    let free = vf::param("free", n as u64) as usize;
    let rest = vf::param("rest", 3) as usize;
    let keys = vf::param("keys", 0) == 1;
    let mut e: Vec<Entry> = Vec::new();
    for i in 0..n {
        let l = if i < free { base + step * vf::pick("len", many) as usize } else { rest };
        let mut k = vec![b'k'; klen];
        if klen > 0 {
            k[klen - 1] = (i * 3 % 5) as u8;
        }
        if keys {
            // the size goes to the key
            k.resize(l, i as u8);
            e.push((k, vec![i as u8 + 1; rest]));
        } else {
            e.push((k, filled((i % 255) as u8 + 1, l)));
        }
    }
    let mf = Concat { ctl: Ctl::new(), log: None, how: 0 };
    let mut s = sc.build(&cfg, mf, CursorVec);
    for (k, v) in &e {
        ok(s.insert(k, v), "insert fails");
    }
    if way == 3 {
        // dropped with pending entries
        return;
    }
    let out = output(s, &cfg, way);
    merged(&out, &e, sc.stable);
}

/// C17: borrowed entries stay usable while the cursor, iterator or merger that lent them is untouched
pub fn c17_reads() {
    let before = vf::live_bytes();
    {
        let cfg = Cfg::from_params();
        let e = entries();
        let f = cfg.write(&e);
        let r: Reader<Mem> = open(f);
        let mut c = ok(r.clone().into_cursor(), "into_cursor");
        let plen = vf::param("plen", 0) as usize;
        let q = probe(plen, vf::param("qhi", 1) as usize);
        for _ in 0..vf::param("hist", 2) {
            let got = match vf::pick("op", 7) {
                0 => ok(c.move_on_first(), "first"),
                1 => ok(c.move_on_last(), "last"),
                2 => ok(c.move_on_next(), "next"),
                3 => ok(c.move_on_prev(), "prev"),
                4 => ok(c.move_on_key_greater_than_or_equal_to(&q), ">="),
                5 => ok(c.move_on_key_lower_than_or_equal_to(&q), "<="),
                _ => ok(c.move_on_key_equal_to(&q), "="),
            };
            held(got, &e);
        }
        let d = c.clone();
        drop(c);
        held(d.current(), &e);
        drop(d);
        if vf::param("iters", 1) == 1 {
            match vf::pick("iter", 4) {
                0 => {
                    let mut it = ok(r.into_prefix_iter(q), "prefix");
                    while let Some(x) = ok(it.next(), "next") {
                        held(Some(x), &e);
                    }
                }
                1 => {
                    let mut it = ok(r.into_rev_prefix_iter(q), "rev prefix");
                    while let Some(x) = ok(it.next(), "next") {
                        held(Some(x), &e);
                    }
                }
                2 => {
                    let mut it = ok(r.into_range_iter::<_, Vec<u8>>(q..), "range");
                    while let Some(x) = ok(it.next(), "next") {
                        held(Some(x), &e);
                    }
                }
                _ => {
                    let mut it = ok(r.into_rev_range_iter::<_, Vec<u8>>(..=q), "rev range");
                    while let Some(x) = ok(it.next(), "next") {
                        held(Some(x), &e);
                    }
                }
            }
        }
    }
    vf::check(vf::live_bytes() == before, "memory is leaked");
    vf::reach("end");
}
/// reads every byte, after other allocations have come and gone
fn held(got: Got, e: &[Entry]) {
    for n in [64usize, 512, 1100, 2048] {
        let v = vec![0xEEu8; n];
        vf::trace(&v[..1]);
    }
    if let Some((k, v)) = got {
        vf::check(e.iter().any(|x| &x.0[..] == k && &x.1[..] == v), "an entry the file does not hold");
    }
}

/// C17: every budget; too large a buffer is refused, never wrapped around
pub fn c17_budget() {
    let cfg = Cfg { codec: 0, level: 0, block: 1024, interval: 0, levels: 0 };
    let small = vf::flip("small");
    let budget = if small { vf::pick("budget", 400) } else { vf::u64("budget") };
    if !small {
        vf::assume(budget >= 1 << 40);
    }
    let sc = SCfg { budget: budget as usize, realloc: vf::flip("realloc"), chunks: 1, stable: true, parallel: false };
    // no memory for it: a panic is the only answer left, but not one about arithmetic
    vf::panic_ok(!small && !sc.realloc);
    if !small && !sc.realloc {
        vf::reach("refused");
    }
    let mut s = sc.build(&cfg, Concat { ctl: Ctl::new(), log: None, how: 0 }, DefaultChunkCreator::default());
    ok(s.insert([1], [1, 2, 3]), "insert fails");
    ok(s.insert([0], [4; 90]), "insert fails");
    vf::check(s.estimated_dumped_memory_usage() >= 93, "estimate");
    let out = output(s, &cfg, 0);
    vf::check(out.len() == 2 && out[0].1 == [4; 90] && out[1].1 == [1, 2, 3], "content");
    vf::check(small || sc.realloc, "memory out of nothing");
    vf::reach("built");
}

/// C17: what mergers lend, read after other allocations
pub fn c17_merge() {
    let before = vf::live_bytes();
    {
        let cfg = Cfg::from_params();
        let s = vf::param("s", 2) as usize;
        let n = vf::param("n", 4) as usize;
        let vlen = vf::param("vlen", 3) as usize;
        let symk = vf::param("symk", 0) == 1;
        let how = pp("how", 3);
        let mut b = Merger::builder(Concat { ctl: Ctl::new(), log: None, how });
        let mut e: Vec<Entry> = Vec::new();
        for i in 0..s {
            let ks = if symk { sym_keys(n, 0, 1, 1) } else { (0..n).map(|j| vec![(j * (i + 1)) as u8, 0]).collect() };
            let es: Vec<Entry> = ks.into_iter().enumerate().map(|(j, k)| (k, pad(&[i as u8 + 1, j as u8 + 1], vlen))).collect();
            b.push(ok(open(cfg.write(&es)).into_cursor(), "into_cursor"));
            e.extend(es);
        }
        let g: Vec<Entry> = groups(&e).into_iter().map(|(k, ids)| {
            let v = if ids.len() == 1 { e[ids[0]].1.clone() } else { joined(how, ids.iter().map(|x| &e[*x].1[..])) };
            (k, v)
        }).collect();
        let mut it = ok(b.build().into_stream_merger_iter(), "into_stream_merger_iter");
        // dropped anywhere on the way
        let stop = vf::pick("stop", g.len() as u64 + 2);
        for i in 0..stop as usize {
            let x = ok(it.next(), "next");
            vf::check(x.is_some() == (i < g.len()), "number of entries");
            if let Some((k, v)) = x {
                held(Some((k, v)), &g[i..i + 1]);
            }
        }
    }
    vf::check(vf::live_bytes() == before, "memory is leaked");
    vf::reach("end");
}

/// C14: huge entries through a sorter
pub fn c14_sorter() {
    let cfg = Cfg::from_params();
    let l = (vf::param("around", 128) - 1 + vf::pick("d", vf::param("many", 3))) as usize;
    vf::panic_ok(l as u64 > u32::MAX as u64);
    let key = vf::flip("key");
    let sc = SCfg { budget: 1, realloc: vf::flip("realloc"), chunks: 2, stable: true, parallel: false };
    let mut big = vec![0xffu8; l];
    vf::fill("b", &mut big[l - 1..]);
    big[0] = 2;
    let (k, v): Entry = if key { (big, vec![5]) } else { (vec![2], big) };
    let mut s = sc.build(&cfg, Concat { ctl: Ctl::new(), log: None, how: 0 }, CursorVec);
    ok(s.insert([3], [7, 7]), "insert fails");
    ok(s.insert(&k, &v), "insert fails");
    ok(s.insert([1], [6]), "insert fails");
    let out = output(s, &cfg, 0);
    vf::check(out.len() == 3, "number of entries");
    vf::check(out[0] == (vec![1], vec![6]) && out[2] == (vec![3], vec![7, 7]), "small entries");
    vf::check(out[1].0 == k && out[1].1 == v, "the huge entry");
    vf::reach("end");
}
