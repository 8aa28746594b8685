//! Shared pieces: entries, layouts, an independent decoder of finished files, the reference model.
use crate::vf;
use grenad::{CompressionType, Reader, Writer, WriterBuilder};
use std::io::{Cursor, Read};
use std::num::NonZeroUsize;

pub type Entry = (Vec<u8>, Vec<u8>);
pub type Mem = Cursor<Vec<u8>>;

pub const CODECS: [CompressionType; 6] = [
    CompressionType::None,
    CompressionType::SnappyPre05,
    CompressionType::Zlib,
    CompressionType::Lz4,
    CompressionType::Zstd,
    CompressionType::Snappy,
];

#[derive(Clone, Copy)]
pub struct Cfg {
    pub codec: u8,
    pub level: u32,
    pub block: usize,
    /// 0: left at its default
    pub interval: usize,
    pub levels: u8,
}
impl Cfg {
    pub fn from_params() -> Cfg {
        Cfg {
            codec: vf::param("codec", 0) as u8,
            level: vf::param("level", 0) as u32,
            // any of the 2^64 block sizes, and any of the intervals: the code under test branches on them
            block: if vf::param("symblock", 0) == 1 { vf::u64("block") as usize } else { vf::param("block", 1024) as usize },
            interval: if vf::param("syminterval", 0) == 1 {
                let x = vf::u64("interval") as usize;
                vf::assume(x != 0);
                x
            } else {
                vf::param("interval", 0) as usize
            },
            levels: vf::param("levels", 0) as u8,
        }
    }
    pub fn builder(&self) -> WriterBuilder {
        let mut b = Writer::builder();
        b.compression_type(CODECS[self.codec as usize]);
        b.compression_level(self.level);
        b.block_size(self.block);
        b.index_levels(self.levels);
        if let Some(i) = NonZeroUsize::new(self.interval) {
            b.index_key_interval(i);
        }
        b
    }
    /// an interval without meaning for a file of `n` entries is as good as any other
    pub fn interval(&self) -> usize {
        if vf::param("syminterval", 0) == 1 {
            let n = vf::param("n", 63) as usize + 1;
            let mut i = 1;
            while i < n && self.interval != i {
                i += 1;
            }
            if i == n {
                vf::assume(self.interval >= n);
                1 << 40
            } else {
                // the only value left
                vf::concretize(self.interval as u64) as usize
            }
        } else if self.interval == 0 {
            8
        } else {
            self.interval
        }
    }
    pub fn write(&self, e: &[Entry]) -> Vec<u8> {
        let mut w = self.builder().memory();
        for (k, v) in e {
            if w.insert(k, v).is_err() {
                vf::check(false, "insert into memory fails");
            }
        }
        match w.into_inner() {
            Ok(x) => x,
            Err(_) => {
                vf::check(false, "finishing in memory fails");
                Vec::new()
            }
        }
    }
}

pub fn open(b: Vec<u8>) -> Reader<Mem> {
    match Reader::new(Cursor::new(b)) {
        Ok(r) => r,
        Err(_) => {
            vf::check(false, "a finished file does not open");
            loop {}
        }
    }
}

/// a value of `n` bytes whose first bytes are `id`
pub fn pad(id: &[u8], n: usize) -> Vec<u8> {
    // what is read at a wrong place of a huge value must not look like entries
    let mut v = if n < 1 << 28 { vec![0u8; n] } else { vec![0xff; n] };
    let m = n.min(id.len());
    v[..m].copy_from_slice(&id[..m]);
    v
}

/// strictly ascending keys: a constant prefix of `plen` bytes, then `lo..=hi` arbitrary bytes
pub fn sym_keys(n: usize, plen: usize, lo: usize, hi: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::with_capacity(n);
    for i in 0..n {
        let l = lo + vf::pick("klen", (hi - lo + 1) as u64) as usize;
        let mut k = vec![b'p'; plen + l];
        vf::fill("key", &mut k[plen..]);
        if i > 0 {
            vf::assume(v[i - 1] < k);
        }
        v.push(k);
    }
    v
}
/// strictly ascending concrete keys: constant prefix, then `gap*(i+1)` as two bytes
pub fn con_keys(n: usize, plen: usize, gap: usize) -> Vec<Vec<u8>> {
    (0..n)
        .map(|i| {
            let mut k = vec![b'p'; plen];
            k.extend_from_slice(&(((i + 1) * gap) as u16).to_be_bytes());
            k
        })
        .collect()
}

/// an arbitrary byte string: a shape (which constant prefix) and arbitrary bytes
pub fn probe(plen: usize, hi: usize) -> Vec<u8> {
    if plen == 0 {
        let l = vf::pick("plen", hi as u64 + 1) as usize;
        return vf::bytes("probe", l);
    }
    // full prefix and a suffix, a cut prefix, arbitrary short bytes
    match vf::pick("pshape", 3) {
        0 => {
            let l = vf::pick("plen", hi as u64 + 1) as usize;
            let mut k = vec![b'p'; plen + l];
            vf::fill("probe", &mut k[plen..]);
            k
        }
        1 => {
            let mut k = vec![b'p'; plen - 1 + vf::pick("plen", 2) as usize];
            let n = k.len();
            vf::fill("probe", &mut k[n.saturating_sub(1)..]);
            k
        }
        _ => {
            let l = vf::pick("plen", 3) as usize;
            vf::bytes("probe", l)
        }
    }
}

/// The content of the instance's file: `n` entries (all n up to it when `upto`=1).
pub fn entries() -> Vec<Entry> {
    let mut n = vf::param("n", 3) as usize;
    if vf::param("upto", 0) == 1 {
        n = vf::pick("n", n as u64 + 1) as usize;
    }
    let plen = vf::param("plen", 0) as usize;
    let keys = if vf::param("symk", 1) == 1 {
        sym_keys(n, plen, vf::param("klo", 1) as usize, vf::param("khi", 1) as usize)
    } else {
        con_keys(n, plen, vf::param("gap", 2) as usize)
    };
    let vlen = vf::param("vlen", 2) as usize;
    let vstep = vf::param("vstep", 0) as usize;
    let vbig = vf::param("vbig", 0) as usize;
    let symv = vf::param("symv", 0) == 1;
    keys.into_iter()
        .enumerate()
        .map(|(i, k)| {
            let mut len = vlen + vstep * i;
            // every other value is large
            if vbig != 0 && i % 2 == 1 {
                len = vbig;
            }
            let mut v = pad(&[i as u8 + 1, 0xa5, i as u8], len);
            if symv && len > 0 {
                let m = len.min(2);
                vf::fill("val", &mut v[..m]);
                vf::fill("val", &mut v[len - 1..]);
            }
            (k, v)
        })
        .collect()
}

pub type Got<'a> = Option<(&'a [u8], &'a [u8])>;

/// unwrap without formatting
pub fn ok<T, E>(r: Result<T, E>, msg: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            vf::check(false, msg);
            loop {}
        }
    }
}

pub fn same(got: Got, e: &[Entry], exp: Option<usize>, what: &str) {
    match (got, exp) {
        (None, None) => {}
        (Some((k, v)), Some(i)) => {
            vf::check(k == &e[i].0[..], what);
            vf::check(v == &e[i].1[..], what);
        }
        _ => vf::check(false, what),
    }
    if let Some((k, v)) = got {
        vf::trace(&k[..k.len().min(1 << 22)]);
        vf::trace(&v[..v.len().min(8)]);
    } else {
        vf::trace(b"none");
    }
}

// ---- independent decoder ---------------------------------------------------------------------

pub struct Blk {
    pub start: usize,
    pub end: usize,
    /// key, value, offset in the payload, size with framing
    pub entries: Vec<(Vec<u8>, Vec<u8>, usize, usize)>,
    pub payload: usize,
    pub offsets: Vec<u64>,
    pub usize_: usize,
}
pub struct Dec {
    pub blocks: Vec<Blk>,
    pub root: u64,
    pub codec: u8,
    pub count: u64,
    pub levels: u8,
    /// block numbers per index level (0 = root), then the data blocks
    pub tree: Vec<Vec<usize>>,
}

fn be64(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(b);
    u64::from_be_bytes(x)
}
fn le64(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(b);
    u64::from_le_bytes(x)
}

/// one length, and the bytes it takes
fn len32(b: &[u8]) -> Option<(u64, usize)> {
    let mut x = 0u64;
    for i in 0..5 {
        let c = *b.get(i)? as u64;
        x |= (c & 0x7f) << (7 * i);
        if c & 0x80 == 0 {
            return if x < 1 << 32 && (i == 0 || c != 0) { Some((x, i + 1)) } else { None };
        }
    }
    None
}

pub fn decompress(codec: u8, b: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    match codec {
        0 => o.extend_from_slice(b),
        1 => o = snap::raw::Decoder::new().decompress_vec(b).ok()?,
        2 => drop(flate2::read::ZlibDecoder::new(b).read_to_end(&mut o).ok()?),
        3 => drop(lz4_flex::frame::FrameDecoder::new(b).read_to_end(&mut o).ok()?),
        4 => drop(zstd::stream::read::Decoder::new(b).ok()?.read_to_end(&mut o).ok()?),
        5 => drop(snap::read::FrameDecoder::new(b).read_to_end(&mut o).ok()?),
        _ => return None,
    }
    Some(o)
}

fn block(f: &[u8], start: usize, codec: u8, lim: usize, conc: bool) -> Result<Blk, &'static str> {
    if start + 8 > lim {
        return Err("block header cut");
    }
    let n = be64(&f[start..start + 8]) as usize;
    let end = start.checked_add(8).and_then(|x| x.checked_add(n)).ok_or("block length")?;
    if end > lim {
        return Err("block longer than the file");
    }
    let _ = conc;
    let d;
    let b: &[u8] = if codec == 0 {
        &f[start + 8..end]
    } else {
        d = decompress(codec, &f[start + 8..end]).ok_or("block does not decompress")?;
        &d
    };
    if b.len() < 4 {
        return Err("block without offset count");
    }
    let mut c = [0u8; 4];
    c.copy_from_slice(&b[b.len() - 4..]);
    let n = u32::from_be_bytes(c) as usize;
    let tab = n.checked_mul(8).ok_or("offset count")?;
    let payload = b.len().checked_sub(4 + tab).ok_or("offset table longer than the block")?;
    let offsets: Vec<u64> = (0..n).map(|i| be64(&b[payload + 8 * i..payload + 8 * i + 8])).collect();
    let mut entries = Vec::new();
    let mut p = 0;
    while p < payload {
        let s = p;
        let (kl, a) = len32(&b[p..payload]).ok_or("key length")?;
        p += a;
        let (vl, a) = len32(&b[p..payload]).ok_or("value length")?;
        p += a;
        let (kl, vl) = (kl as usize, vl as usize);
        if kl > payload - p || vl > payload - p - kl {
            return Err("entry longer than the block");
        }
        entries.push((b[p..p + kl].to_vec(), b[p + kl..p + kl + vl].to_vec(), s, 0));
        p += kl + vl;
        entries.last_mut().unwrap().3 = p - s;
    }
    Ok(Blk { start, end, entries, payload, offsets, usize_: b.len() })
}

/// every structural rule of the version-2 format except the order of keys
pub fn decode(f: &[u8], interval: usize) -> Result<Dec, &'static str> {
    decode_at(f, interval, 0)
}
/// the same for the end of a file, from its byte `base` on
pub fn decode_at(f: &[u8], interval: usize, base: u64) -> Result<Dec, &'static str> {
    if f.len() < 22 {
        return Err("no trailer");
    }
    let t = &f[f.len() - 22..];
    let lim = f.len() - 22;
    if t[18..] != 0x6723D4C4u32.to_le_bytes() {
        return Err("magic");
    }
    let (root, codec, count, levels) = (le64(&t[..8]), t[8], le64(&t[9..17]), t[17]);
    if codec > 5 {
        return Err("codec id");
    }
    let mut blocks = Vec::new();
    let mut p = 0;
    while p < lim {
        let b = block(f, p, codec, lim, true)?;
        p = b.end;
        // the offset table
        if b.offsets.is_empty() || b.offsets[0] != 0 {
            return Err("first offset");
        }
        let want = b.entries.len().div_ceil(interval).max(1);
        if b.offsets.len() != want {
            return Err("number of offsets");
        }
        for (i, o) in b.offsets.iter().enumerate() {
            if i > 0 && b.entries[i * interval].2 as u64 != *o {
                return Err("offset of an interval");
            }
        }
        blocks.push(b);
    }
    if p != lim {
        return Err("blocks do not end at the trailer");
    }
    // the tree
    let find = |off: u64| blocks.iter().position(|b| b.start as u64 == off.wrapping_sub(base));
    let mut tree: Vec<Vec<usize>> = Vec::new();
    let r = find(root).ok_or("root offset")?;
    let mut cur = vec![r];
    let mut used = 1;
    for lev in 0..=levels as usize {
        let mut next = Vec::new();
        for &bi in &cur {
            if blocks[bi].entries.is_empty() && !(lev == 0 && blocks.len() == 1) {
                return Err("empty index block");
            }
            for (k, v, _, _) in &blocks[bi].entries {
                if v.len() != 8 {
                    return Err("index value");
                }
                let c = find(be64(v)).ok_or("child offset")?;
                let last = blocks[c].entries.last().ok_or("empty child")?;
                if &last.0 != k {
                    return Err("index key is not the last key of the child");
                }
                next.push(c);
            }
        }
        tree.push(std::mem::take(&mut cur));
        used += next.len();
        cur = next;
        if cur.is_empty() {
            break;
        }
    }
    while tree.len() <= levels as usize {
        tree.push(Vec::new());
    }
    tree.push(cur);
    if used != blocks.len() {
        return Err("a block is unreachable or shared");
    }
    for l in &tree {
        if l.windows(2).any(|w| w[0] >= w[1]) {
            return Err("blocks of a level out of order");
        }
    }
    Ok(Dec { blocks, root, codec, count, levels, tree })
}

impl Dec {
    pub fn data(&self) -> &[usize] {
        self.tree.last().unwrap()
    }
}
