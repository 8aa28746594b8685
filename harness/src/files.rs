//! Files written and read back: C01, C02, C04, C05, C09, C10, C14, C15, C18.
use crate::sup::*;
use crate::vf;
use grenad::{FileVersion, Reader};
use std::ops::Bound;

fn scans(r: Reader<Mem>, e: &[Entry]) {
    let mut c = ok(r.into_cursor(), "into_cursor");
    for i in 0..e.len() {
        same(ok(c.move_on_next(), "next fails"), e, Some(i), "forward scan");
    }
    vf::check(ok(c.move_on_next(), "next fails").is_none(), "forward scan does not end");
    c.reset();
    for i in (0..e.len()).rev() {
        same(ok(c.move_on_prev(), "prev fails"), e, Some(i), "backward scan");
    }
    vf::check(ok(c.move_on_prev(), "prev fails").is_none(), "backward scan does not end");
}

/// C01: everything inserted comes back, both ways
pub fn c01() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f = cfg.write(&e);
    vf::trace_u64(f.len() as u64);
    let r = open(f);
    vf::check(r.len() == e.len() as u64, "len");
    vf::check(r.is_empty() == e.is_empty(), "is_empty");
    vf::check(r.compression_type() == CODECS[cfg.codec as usize], "codec");
    vf::check(r.file_version() == FileVersion::FormatV2, "version");
    scans(r, &e);
    vf::reach("end");
}

/// C01, C14: value (or key) lengths over a whole range, one entry among others
pub fn c01_len() {
    let cfg = Cfg::from_params();
    let lo = vf::param("lo", 0);
    let hi = vf::param("hi", 300);
    let step = vf::param("step", 1);
    let n = (lo + step * vf::pick("len", (hi - lo) / step + 1)) as usize;
    let pos = vf::param("pos", 1) as usize;
    let total = vf::param("n", 3) as usize;
    let key = vf::param("key", 0) == 1;
    let mut e: Vec<Entry> = (0..total).map(|i| (vec![b'k', i as u8], vec![i as u8; 3])).collect();
    let t = if key { &mut e[pos].0 } else { &mut e[pos].1 };
    if key {
        // keep the order: the long key shares the first two bytes
        let h = t.clone();
        t.resize(n.max(2), 0x11);
        t[..2].copy_from_slice(&h);
        if n > 2 {
            vf::fill("b", &mut t[n - 1..]);
        }
    } else {
        t.clear();
        t.resize(n, 0x11);
        if n > 0 {
            vf::fill("b", &mut t[n - 1..]);
            vf::fill("b", &mut t[..1]);
        }
    }
    let f = cfg.write(&e);
    vf::trace_u64(f.len() as u64);
    let r = open(f);
    vf::check(r.len() == e.len() as u64, "len");
    scans(r, &e);
    vf::reach("end");
}

fn ceil(e: &[Entry], q: &[u8]) -> Option<usize> {
    e.iter().position(|x| &x.0[..] >= q)
}
fn floor(e: &[Entry], q: &[u8]) -> Option<usize> {
    e.iter().rposition(|x| &x.0[..] <= q)
}

/// C02: a seek on a fresh or reset cursor
pub fn c02() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f = cfg.write(&e);
    let mut c = ok(open(f).into_cursor(), "into_cursor");
    if vf::param("reset", 0) == 1 {
        // leave the cursor somewhere, then reset it
        match vf::pick("before", 3) {
            0 => drop(ok(c.move_on_first(), "first")),
            1 => drop(ok(c.move_on_last(), "last")),
            _ => {
                if let Some(x) = e.get(e.len() / 2) {
                    drop(ok(c.move_on_key_equal_to(&x.0), "eq"));
                    drop(ok(c.move_on_next(), "next"));
                }
            }
        }
        c.reset();
    }
    let q = probe(vf::param("plen", 0) as usize, vf::param("qhi", 2) as usize);
    seek(c, &e, q);
}

fn seek(mut c: grenad::ReaderCursor<Mem>, e: &[Entry], q: Vec<u8>) {
    match vf::pick("seek", 3) {
        0 => {
            let x = ceil(e, &q);
            same(ok(c.move_on_key_greater_than_or_equal_to(&q), ">= fails"), e, x, ">= seek");
            vf::reach("ge");
        }
        1 => {
            let x = floor(e, &q);
            same(ok(c.move_on_key_lower_than_or_equal_to(&q), "<= fails"), e, x, "<= seek");
            vf::reach("le");
        }
        _ => {
            let x = e.iter().position(|x| x.0 == q);
            same(ok(c.move_on_key_equal_to(&q), "= fails"), e, x, "= seek");
            vf::reach("eq");
        }
    }
}

fn bound(plen: usize, hi: usize, kind: u64) -> Bound<Vec<u8>> {
    match kind {
        0 => Bound::Unbounded,
        1 => Bound::Included(probe(plen, hi)),
        _ => Bound::Excluded(probe(plen, hi)),
    }
}
fn inside(b: &(Bound<Vec<u8>>, Bound<Vec<u8>>), k: &[u8]) -> bool {
    (match &b.0 {
        Bound::Unbounded => true,
        Bound::Included(x) => &x[..] <= k,
        Bound::Excluded(x) => &x[..] < k,
    }) && (match &b.1 {
        Bound::Unbounded => true,
        Bound::Included(x) => k <= &x[..],
        Bound::Excluded(x) => k < &x[..],
    })
}

/// C04
pub fn c04() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f = cfg.write(&e);
    let r = open(f);
    let plen = vf::param("plen", 0) as usize;
    let hi = vf::param("qhi", 1) as usize;
    let kinds = vf::param("kinds", 9);
    let kinds = if kinds == 9 { vf::pick("kinds", 9) } else { kinds };
    let b = (bound(plen, hi, kinds / 3), bound(plen, hi, kinds % 3));
    let rev = vf::param("rev", 2);
    let rev = if rev == 2 { vf::flip("rev") } else { rev == 1 };
    ranges(r, &e, b, rev);
}

fn ranges(r: Reader<Mem>, e: &[Entry], b: (Bound<Vec<u8>>, Bound<Vec<u8>>), rev: bool) {
    let exp: Vec<usize> = (0..e.len()).filter(|i| inside(&b, &e[*i].0)).collect();
    if rev {
        let mut it = ok(r.into_rev_range_iter::<_, Vec<u8>>(b), "into_rev_range_iter");
        for i in exp.iter().rev() {
            same(ok(it.next(), "next fails"), e, Some(*i), "reverse range");
        }
        same(ok(it.next(), "next fails"), e, None, "reverse range does not end");
        vf::reach("rev");
    } else {
        let mut it = ok(r.into_range_iter::<_, Vec<u8>>(b), "into_range_iter");
        for i in exp.iter() {
            same(ok(it.next(), "next fails"), e, Some(*i), "range");
        }
        same(ok(it.next(), "next fails"), e, None, "range does not end");
        vf::reach("fwd");
    }
    vf::trace_u64(exp.len() as u64);
}

/// C05
pub fn c05() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f = cfg.write(&e);
    let r = open(f);
    let q = probe(vf::param("plen", 0) as usize, vf::param("qhi", 2) as usize);
    let rev = vf::param("rev", 2);
    let rev = if rev == 2 { vf::flip("rev") } else { rev == 1 };
    prefixes(r, &e, q, rev);
}

fn prefixes(r: Reader<Mem>, e: &[Entry], q: Vec<u8>, rev: bool) {
    let exp: Vec<usize> = (0..e.len()).filter(|i| e[*i].0.starts_with(&q)).collect();
    if rev {
        let mut it = ok(r.into_rev_prefix_iter(q), "into_rev_prefix_iter");
        for i in exp.iter().rev() {
            same(ok(it.next(), "next fails"), e, Some(*i), "reverse prefix");
        }
        same(ok(it.next(), "next fails"), e, None, "reverse prefix does not end");
        vf::reach("rev");
    } else {
        let mut it = ok(r.into_prefix_iter(q), "into_prefix_iter");
        for i in exp.iter() {
            same(ok(it.next(), "next fails"), e, Some(*i), "prefix");
        }
        same(ok(it.next(), "next fails"), e, None, "prefix does not end");
        vf::reach("fwd");
    }
    vf::trace_u64(exp.len() as u64);
}

/// C09: the bytes follow the format, and the independent decoder recovers the entries
pub fn c09_format() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f = cfg.write(&e);
    match decode(&f, cfg.interval()) {
        Err(m) => vf::check(false, m),
        Ok(d) => {
            vf::check(d.codec == cfg.codec, "codec id");
            vf::check(d.count == e.len() as u64, "entry count");
            vf::check(d.levels == cfg.levels, "index levels");
            let mut i = 0;
            for b in d.data() {
                for (k, v, _, _) in &d.blocks[*b].entries {
                    vf::check(i < e.len(), "too many entries");
                    vf::check(*k == e[i].0, "key");
                    vf::check(*v == e[i].1, "value");
                    i += 1;
                }
            }
            vf::check(i == e.len(), "missing entries");
            vf::trace_u64(d.blocks.len() as u64);
            vf::trace_u64(d.root);
        }
    }
    vf::trace_u64(f.len() as u64);
    vf::reach("end");
}

fn old_codec(c: u8) -> grenad_0_4::CompressionType {
    match c {
        0 => grenad_0_4::CompressionType::None,
        1 => grenad_0_4::CompressionType::SnappyPre05,
        2 => grenad_0_4::CompressionType::Zlib,
        3 => grenad_0_4::CompressionType::Lz4,
        4 => grenad_0_4::CompressionType::Zstd,
        _ => grenad_0_4::CompressionType::Snappy,
    }
}

/// C09: the 0.4.7 reader on our bytes
pub fn c09_old_reads() {
    let cfg = Cfg::from_params();
    let e = entries();
    let f = cfg.write(&e);
    let r = ok(grenad_0_4::Reader::new(std::io::Cursor::new(f)), "0.4.7 does not open it");
    vf::check(r.len() == e.len() as u64, "0.4.7 len");
    vf::check(r.compression_type() == old_codec(cfg.codec), "0.4.7 codec");
    let mut c = ok(r.into_cursor(), "0.4.7 cursor");
    for i in 0..e.len() {
        same(ok(c.move_on_next(), "0.4.7 next fails"), &e, Some(i), "0.4.7 forward scan");
    }
    vf::check(ok(c.move_on_next(), "0.4.7 next fails").is_none(), "0.4.7 scan does not end");
    // a seek goes through the whole index
    if !e.is_empty() {
        let i = vf::pick("at", e.len() as u64) as usize;
        c.reset();
        same(ok(c.move_on_key_equal_to(&e[i].0), "0.4.7 seek fails"), &e, Some(i), "0.4.7 seek");
        c.reset();
        for i in (0..e.len()).rev() {
            same(ok(c.move_on_prev(), "0.4.7 prev fails"), &e, Some(i), "0.4.7 backward scan");
        }
    }
    vf::reach("end");
}

/// C09: our reader on bytes of the 0.4.7 writer
pub fn c09_reads_old() {
    let cfg = Cfg::from_params();
    let e = entries();
    let mut b = grenad_0_4::Writer::builder();
    b.compression_type(old_codec(cfg.codec)).compression_level(cfg.level).block_size(cfg.block).index_levels(cfg.levels);
    if let Some(i) = std::num::NonZeroUsize::new(cfg.interval) {
        b.index_key_interval(i);
    }
    let mut w = b.memory();
    for (k, v) in &e {
        ok(w.insert(k, v), "0.4.7 insert");
    }
    let f = ok(w.into_inner(), "0.4.7 finish");
    let r = open(f);
    vf::check(r.len() == e.len() as u64, "len");
    vf::check(r.compression_type() == CODECS[cfg.codec as usize], "codec");
    if !e.is_empty() {
        let i = vf::pick("at", e.len() as u64) as usize;
        let mut c = ok(r.clone().into_cursor(), "cursor");
        same(ok(c.move_on_key_equal_to(&e[i].0), "seek fails"), &e, Some(i), "seek");
    }
    scans(r, &e);
    vf::reach("end");
}

/// rewrites the trailer of a single-level file as version 1
pub(crate) fn to_v1(mut f: Vec<u8>) -> Vec<u8> {
    let n = f.len();
    f.truncate(n - 5);
    f.extend_from_slice(&0x76324D4Cu32.to_le_bytes());
    f
}

/// C10: a version-1 file answers every query as the model does
pub fn c10() {
    let mut cfg = Cfg::from_params();
    cfg.levels = 0;
    let e = entries();
    let f = to_v1(cfg.write(&e));
    let r = open(f);
    vf::check(r.file_version() == FileVersion::FormatV1, "version");
    vf::check(r.len() == e.len() as u64, "len");
    vf::check(r.compression_type() == CODECS[cfg.codec as usize], "codec");
    let plen = vf::param("plen", 0) as usize;
    let hi = vf::param("qhi", 1) as usize;
    match vf::pick("query", 8) {
        0 => scans(r, &e),
        k @ 1..=3 => {
            let mut c = ok(r.into_cursor(), "into_cursor");
            let q = probe(plen, hi);
            match k {
                1 => {
                    let x = ceil(&e, &q);
                    same(ok(c.move_on_key_greater_than_or_equal_to(&q), ">= fails"), &e, x, ">= seek")
                }
                2 => {
                    let x = floor(&e, &q);
                    same(ok(c.move_on_key_lower_than_or_equal_to(&q), "<= fails"), &e, x, "<= seek")
                }
                _ => {
                    let x = e.iter().position(|x| x.0 == q);
                    same(ok(c.move_on_key_equal_to(&q), "= fails"), &e, x, "= seek")
                }
            }
        }
        k @ 4..=5 => {
            let b = (bound(plen, hi, vf::pick("lo", 3)), bound(plen, hi, vf::pick("hi", 3)));
            let exp: Vec<usize> = (0..e.len()).filter(|i| inside(&b, &e[*i].0)).collect();
            if k == 4 {
                let mut it = ok(r.into_range_iter::<_, Vec<u8>>(b), "into_range_iter");
                for i in exp.iter() {
                    same(ok(it.next(), "next fails"), &e, Some(*i), "range");
                }
                same(ok(it.next(), "next fails"), &e, None, "range does not end");
            } else {
                let mut it = ok(r.into_rev_range_iter::<_, Vec<u8>>(b), "into_rev_range_iter");
                for i in exp.iter().rev() {
                    same(ok(it.next(), "next fails"), &e, Some(*i), "reverse range");
                }
                same(ok(it.next(), "next fails"), &e, None, "reverse range does not end");
            }
        }
        k => {
            let q = probe(plen, hi);
            let exp: Vec<usize> = (0..e.len()).filter(|i| e[*i].0.starts_with(&q)).collect();
            if k == 6 {
                let mut it = ok(r.into_prefix_iter(q), "into_prefix_iter");
                for i in exp.iter() {
                    same(ok(it.next(), "next fails"), &e, Some(*i), "prefix");
                }
                same(ok(it.next(), "next fails"), &e, None, "prefix does not end");
            } else {
                let mut it = ok(r.into_rev_prefix_iter(q), "into_rev_prefix_iter");
                for i in exp.iter().rev() {
                    same(ok(it.next(), "next fails"), &e, Some(*i), "reverse prefix");
                }
                same(ok(it.next(), "next fails"), &e, None, "reverse prefix does not end");
            }
        }
    }
    vf::reach("end");
}

/// C10: the trailer fields of a version-1 file, whatever they hold
pub fn c10_trailer() {
    let e = entries();
    let mut f = Cfg { codec: 0, level: 0, block: 1024, interval: 0, levels: 0 }.write(&e);
    let n = f.len();
    let body = n - 22;
    f.truncate(body);
    let off = vf::u64("root");
    let codec = vf::u8("codec");
    let count = vf::u64("count");
    f.extend_from_slice(&off.to_le_bytes());
    f.push(codec);
    f.extend_from_slice(&count.to_le_bytes());
    f.extend_from_slice(&0x76324D4Cu32.to_le_bytes());
    match Reader::new(std::io::Cursor::new(f)) {
        Ok(r) => {
            vf::check(codec < 6, "unknown codec accepted");
            vf::check(r.file_version() == FileVersion::FormatV1, "version");
            vf::check(r.len() == count, "len");
            vf::check(r.compression_type() as u8 == codec, "codec");
            vf::reach("opened");
        }
        Err(_) => {
            vf::check(codec >= 6, "valid version-1 trailer rejected");
            vf::reach("rejected");
        }
    }
}

/// C15: without its last entry a block is smaller than the block size; it is not cut before that
pub fn c15() {
    let cfg = Cfg::from_params();
    let n = vf::param("n", 4) as usize;
    let plen = vf::param("plen", 0) as usize;
    // lengths around the cut: base + k*step
    let base = vf::param("base", 0) as usize;
    let step = vf::param("step", 1) as usize;
    let many = vf::param("many", 8);
    let free = vf::param("free", n as u64) as usize;
    let rest = vf::param("rest", 0) as usize;
    let mut w = cfg.builder().memory();
    let mut e: Vec<Entry> = Vec::new();
    for i in 0..n {
        let mut k = vec![b'p'; plen];
        k.extend_from_slice(&(i as u16).to_be_bytes());
        let l = if i < free { base + step * vf::pick("len", many) as usize } else { rest };
        let v = pad(&[i as u8], l);
        ok(w.insert(&k, &v), "insert fails");
        e.push((k, v));
    }
    let f = ok(w.into_inner(), "finish fails");
    let b = cfg.block.max(1024);
    let interval = cfg.interval();
    match decode(&f, interval) {
        Err(m) => vf::check(false, m),
        Ok(d) => {
            let lv = d.tree.len();
            for (l, ids) in d.tree.iter().enumerate() {
                // levels 0 and 1 are only written at the end
                if l < 2 && l + 1 != lv {
                    continue;
                }
                for (j, id) in ids.iter().enumerate() {
                    let x = &d.blocks[*id];
                    let m = x.entries.len();
                    if m > 0 {
                        let tab = (m - 1).div_ceil(interval).max(1);
                        let without = x.payload - x.entries[m - 1].3 + 8 * tab + 4;
                        vf::check(without < b, "a block reached the block size before its last entry");
                    }
                    if j + 1 < ids.len() {
                        vf::check(x.usize_ >= b, "a block is cut before it reaches the block size");
                        vf::reach(if l + 1 == lv { "data cut" } else { "index cut" });
                    }
                    vf::trace_u64(x.usize_ as u64);
                }
            }
            let total: usize = d.data().iter().map(|x| d.blocks[*x].entries.len()).sum();
            vf::check(total == n, "entries");
        }
    }
    vf::reach("end");
}

/// C18: inserts in any order
pub fn c18() {
    let cfg = Cfg::from_params();
    let n = vf::param("n", 4) as usize;
    let plen = vf::param("plen", 0) as usize;
    let (lo, hi) = (vf::param("klo", 1) as usize, vf::param("khi", 1) as usize);
    let vlen = vf::param("vlen", 2) as usize;
    let mut w = cfg.builder().memory();
    let mut prev: Vec<u8> = Vec::new();
    let mut held = false;
    let mut desc = false;
    for i in 0..n {
        let l = lo + vf::pick("klen", (hi - lo + 1) as u64) as usize;
        let mut k = vec![b'p'; plen + l];
        vf::fill("key", &mut k[plen..]);
        let bad = i > 0 && k <= prev;
        desc |= bad;
        vf::panic_ok(desc);
        let vbig = vf::param("vbig", 0) as usize;
        let v = pad(&[i as u8], if vbig > 0 && vf::flip("big") { vbig } else { vlen });
        let before = w.as_ref().len();
        ok(w.insert(&k, &v), "insert fails");
        // the previous key is still in the block under construction
        vf::check(!(bad && held), "a key not greater than its predecessor in the block is accepted");
        held = w.as_ref().len() == before;
        prev = k;
    }
    vf::panic_ok(desc);
    let f = ok(w.into_inner(), "finish fails");
    vf::panic_ok(false);
    match decode(&f, cfg.interval()) {
        Err(m) => vf::check(false, m),
        Ok(d) => {
            for b in &d.blocks {
                for x in b.entries.windows(2) {
                    vf::check(x[0].0 < x[1].0, "a block holds keys out of order");
                }
            }
            vf::trace_u64(d.blocks.len() as u64);
            vf::trace_u64(d.count);
        }
    }
    vf::reach(if desc { "accepted out of order" } else { "accepted in order" });
}

/// C01: as `c01_len`, for compressed files: every value length in a range, concrete content
pub fn c01_lenc() {
    let cfg = Cfg::from_params();
    let lo = vf::param("lo", 0);
    let hi = vf::param("hi", 300);
    let step = vf::param("step", 1);
    let n = (lo + step * vf::pick("len", (hi - lo) / step + 1)) as usize;
    let mut e: Vec<Entry> = (0..3).map(|i| (vec![b'k', i as u8], vec![i as u8; 3])).collect();
    // partly repetitive, partly not
    e[1].1 = (0..n).map(|i| if i % 40 < 20 { 7 } else { (i * i % 251) as u8 }).collect();
    let f = cfg.write(&e);
    vf::trace_u64(f.len() as u64);
    let r = open(f);
    vf::check(r.len() == e.len() as u64, "len");
    scans(r, &e);
    vf::reach("end");
}

/// entries whose keys are prefixes of one another: "", a, aa, aaa ...
fn prefix_entries() -> Vec<Entry> {
    let n = vf::param("n", 6) as usize;
    let vlen = vf::param("vlen", 2) as usize;
    (0..n).map(|i| (vec![b'a'; i], pad(&[i as u8], vlen))).collect()
}
fn flat_probe(hi: usize) -> Vec<u8> {
    let l = vf::pick("plen", hi as u64 + 1) as usize;
    vf::bytes("probe", l)
}

pub fn c02_prefixes() {
    let cfg = Cfg::from_params();
    let e = prefix_entries();
    let f = cfg.write(&e);
    let c = ok(open(f).into_cursor(), "into_cursor");
    seek(c, &e, flat_probe(vf::param("qhi", 7) as usize));
}

pub fn c04_prefixes() {
    let cfg = Cfg::from_params();
    let e = prefix_entries();
    let f = cfg.write(&e);
    let hi = vf::param("qhi", 6) as usize;
    let one = |k: u64| match k {
        0 => Bound::Unbounded,
        1 => Bound::Included(flat_probe(hi)),
        _ => Bound::Excluded(flat_probe(hi)),
    };
    let k = vf::pick("kinds", 9);
    let b = (one(k / 3), one(k % 3));
    ranges(open(f), &e, b, vf::flip("rev"));
}

/// C05: keys around runs of 0xFF and the successors of prefixes
pub fn c05_ff() {
    let cfg = Cfg::from_params();
    let vlen = vf::param("vlen", 2) as usize;
    let keys: [&[u8]; 12] = [
        b"", b"\x00", b"a", b"a\xfe", b"a\xff", b"a\xff\x00", b"a\xff\xff", b"b", b"\xfe\xff\xff", b"\xff", b"\xff\xff", b"\xff\xff\xff\x01",
    ];
    let e: Vec<Entry> = keys.iter().enumerate().map(|(i, k)| (k.to_vec(), pad(&[i as u8], vlen))).collect();
    let f = cfg.write(&e);
    prefixes(open(f), &e, flat_probe(vf::param("qhi", 5) as usize), vf::flip("rev"));
}

/// many entries: more than 16-bit counters, offsets and numbers of blocks hold
pub fn c01_many() {
    let cfg = Cfg::from_params();
    let n = vf::param("n", 70000) as u32;
    let vlen = vf::param("vlen", 1) as usize;
    let step = vf::param("step", 3) as u32;
    let mut v = vec![7u8; vlen];
    vf::fill("val", &mut v[vlen - 1..]);
    let mut w = cfg.builder().memory();
    for i in 0..n {
        let k = (i * step + 1).to_be_bytes();
        v[0] = if vlen > 1 { i as u8 } else { v[0] };
        ok(w.insert(k, &v), "insert");
    }
    let r = open(ok(w.into_inner(), "into_inner"));
    vf::check(r.len() == n as u64, "len");
    let mut c = ok(r.into_cursor(), "into_cursor");
    let mut is = |got: Got, i: u32, what: &str| match got {
        Some((k, x)) => {
            v[0] = if vlen > 1 { i as u8 } else { v[0] };
            vf::check(k == &(i * step + 1).to_be_bytes()[..], what);
            vf::check(x == &v[..], what);
        }
        None => vf::check(false, what),
    };
    if vf::param("scan", 1) == 1 {
        for i in 0..n {
            is(ok(c.move_on_next(), "next"), i, "next");
        }
        vf::check(ok(c.move_on_next(), "next").is_none(), "an entry too many");
        c.reset();
        for i in (0..n).rev() {
            is(ok(c.move_on_prev(), "prev"), i, "prev");
        }
        vf::check(ok(c.move_on_prev(), "prev").is_none(), "an entry too many");
        c.reset();
    }
    if vf::param("seek", 1) == 1 {
        // around an arbitrary place of some regions
        let at = [0, n / 2, n - 40, 65520, 32760, 250][vf::pick("region", 6) as usize] as u32;
        let d = vf::pick("place", 20) as u32;
        let x = (at.min(n - 40) + d) * step;
        let i = x / step;
        let q = (x + vf::pick("off", 3) as u32).to_be_bytes();
        let q = u32::from_be_bytes(q);
        // entry i holds key i * step + 1
        let ge = if q <= i * step + 1 { i } else { i + 1 };
        let le = if q >= i * step + 1 { Some(i) } else { i.checked_sub(1) };
        is(ok(c.move_on_key_greater_than_or_equal_to(q.to_be_bytes()), "ge"), ge, "ge");
        match le {
            Some(j) => is(ok(c.move_on_key_lower_than_or_equal_to(q.to_be_bytes()), "le"), j, "le"),
            None => vf::check(ok(c.move_on_key_lower_than_or_equal_to(q.to_be_bytes()), "le").is_none(), "le"),
        }
        if let Some(j) = le {
            if j > 0 {
                is(ok(c.move_on_prev(), "prev"), j - 1, "prev after a seek");
            }
        }
        vf::reach("seek");
    }
    vf::reach("end");
}

/// what a writer emits once it has emitted `base` bytes and `count` entries, both arbitrary
#[cfg(grenad_verif_writer)]
fn far_file(cfg: &Cfg, e: &[Entry], base: u64, count: u64) -> Vec<u8> {
    let mut w = cfg.builder().memory();
    w.verif_continue(base, count);
    for (k, v) in e {
        ok(w.insert(k, v), "insert");
    }
    ok(w.into_inner(), "into_inner")
}
#[cfg(not(grenad_verif_writer))]
fn far_file(_: &Cfg, _: &[Entry], _: u64, _: u64) -> Vec<u8> {
    vf::check(false, "harness: needs the hook");
    Vec::new()
}

/// a file whose first `base` bytes are never needed
struct Far {
    data: Vec<u8>,
    base: u64,
    at: u64,
}
impl std::io::Read for Far {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let p = self.at.wrapping_sub(self.base);
        vf::check(p <= self.data.len() as u64, "a read outside the entries' blocks");
        let p = vf::concretize(p) as usize;
        let n = b.len().min(self.data.len() - p);
        b[..n].copy_from_slice(&self.data[p..p + n]);
        self.at += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Far {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let len = self.data.len() as u64;
        let to = match p {
            std::io::SeekFrom::Start(x) => x,
            std::io::SeekFrom::End(x) => (self.base + len).wrapping_add(x as u64),
            std::io::SeekFrom::Current(x) => self.at.wrapping_add(x as u64),
        };
        self.at = to;
        Ok(to)
    }
}

/// a file far longer than its entries here: every offset and every count
pub fn far() {
    let cfg = Cfg::from_params();
    let e = entries();
    let (base, before) = if vf::param("edge", 0) == 1 {
        let i = vf::pick("where", 4) as usize;
        ([0xFFFF_FE00, 0x1_0000_0000, 0xFF_FFFF_FFF9, 0x0102_0304_0506_0708][i], [0xFFFF_FFFE, 0x7FFF_FFFF, 0x1_0000_0000, 0x0807_0605_0403_0201][i])
    } else {
        let base = vf::u64("base");
        vf::assume(base < 1 << 62);
        let before = vf::u64("entries before");
        vf::assume(before < u64::MAX - 1000);
        (base, before)
    };
    let mut f = far_file(&cfg, &e, base, before);
    let v1 = vf::param("v1", 0) == 1;
    if v1 {
        f = to_v1(f);
    } else {
        match decode_at(&f, cfg.interval(), base) {
            Err(m) => vf::check(false, m),
            Ok(d) => {
                vf::check(d.count == before + e.len() as u64, "entry count of the trailer");
                vf::check(d.levels == cfg.levels, "index levels");
                let mut i = 0;
                for b in d.data() {
                    for (k, v, _, _) in &d.blocks[*b].entries {
                        vf::check(i < e.len() && *k == e[i].0 && *v == e[i].1, "entry");
                        i += 1;
                    }
                }
                vf::check(i == e.len(), "missing entries");
            }
        }
    }
    let r = ok(Reader::new(Far { data: f, base, at: base }), "open");
    vf::check(r.len() == before + e.len() as u64, "entry count");
    vf::check((r.file_version() == FileVersion::FormatV1) == v1, "version");
    let mut c = ok(r.into_cursor(), "into_cursor");
    for i in 0..e.len() {
        same(ok(c.move_on_next(), "next"), &e, Some(i), "next");
    }
    vf::check(ok(c.move_on_next(), "next").is_none(), "an entry too many");
    c.reset();
    for i in (0..e.len()).rev() {
        same(ok(c.move_on_prev(), "prev"), &e, Some(i), "prev");
    }
    vf::check(ok(c.move_on_prev(), "prev").is_none(), "an entry too many");
    c.reset();
    let q = probe(vf::param("plen", 0) as usize, vf::param("qhi", 1) as usize);
    match vf::pick("seek", 3) {
        0 => same(ok(c.move_on_key_greater_than_or_equal_to(&q), ">="), &e, ceil(&e, &q), ">="),
        1 => same(ok(c.move_on_key_lower_than_or_equal_to(&q), "<="), &e, floor(&e, &q), "<="),
        _ => same(ok(c.move_on_key_equal_to(&q), "="), &e, e.iter().position(|x| x.0 == q), "="),
    }
    vf::reach("end");
}
