//! Runs one harness against the real code with recorded inputs.
//!   vh-native HARNESS INPUTS OUT [name=value ...]
//! INPUTS: one line per request for symbolic bytes, "name hex".
//! Environment: VF_ALLOC=end|start|odd puts every allocation on its own pages with an inaccessible page
//! after (before) it, never reuses an address and checks layouts; VF_FILL=byte fills fresh memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

static MODE: AtomicUsize = AtomicUsize::new(0);
static FILL: AtomicUsize = AtomicUsize::new(256);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PANIC_OK: AtomicBool = AtomicBool::new(false);

const PAGE: usize = 4096;
const REGION: usize = 1 << 38;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// per first page: size + 1, align (0: none, !0: freed)
static TABLE: AtomicUsize = AtomicUsize::new(0);

/// the longest allocation that succeeds, like in the engine
static LIMIT: AtomicUsize = AtomicUsize::new(0x7000_0000);
const LARGE: usize = 1 << 24;

struct A;
#[global_allocator]
static ALLOC: A = A;

unsafe fn entry(p: usize) -> *mut [usize; 2] {
    (TABLE.load(Relaxed) as *mut [usize; 2]).add((p - BASE.load(Relaxed)) / PAGE)
}
unsafe fn fenced(p: usize) -> bool {
    let b = BASE.load(Relaxed);
    b != 0 && p >= b && p < b + REGION
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Relaxed) {
            return std::ptr::null_mut();
        }
        if l.size() == 0 && MODE.load(Relaxed) != 0 {
            die("ub", "allocation of no bytes");
        }
        let m = MODE.load(Relaxed);
        if m == 0 {
            let p = System.alloc(l);
            if !p.is_null() {
                LIVE.fetch_add(l.size() as u64, Relaxed);
                fill(p, l.size());
            }
            return p;
        }
        let al = l.align().max(1);
        let n = (l.size() + PAGE - 1) / PAGE * PAGE + if al > PAGE { al } else { 0 };
        let n = n.max(PAGE) + if m == 3 { (3 * al + PAGE - 1) / PAGE * PAGE } else { 0 };
        let off = NEXT.fetch_add(n + 2 * PAGE, SeqCst);
        if off + n + 2 * PAGE > REGION {
            die("out_of_region", "");
        }
        let lo = BASE.load(Relaxed) + off + PAGE;
        if libc::mprotect(lo as _, n, libc::PROT_READ | libc::PROT_WRITE) != 0 {
            die("out_of_maps", "");
        }
        let p = match m {
            1 => (lo + n - l.size()) / al * al,
            2 => (lo + al - 1) / al * al,
            // aligned exactly as asked for
            _ => (lo + 2 * al - 1) / (2 * al) * (2 * al) + al,
        };
        *entry(p) = [l.size() + 1, al];
        LIVE.fetch_add(l.size() as u64, Relaxed);
        fill(p as _, l.size());
        p as _
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        // pages of zeros that are only read take no memory
        if MODE.load(Relaxed) == 0 && l.size() >= LARGE && l.size() <= LIMIT.load(Relaxed) {
            let p = System.alloc_zeroed(l);
            if !p.is_null() {
                LIVE.fetch_add(l.size() as u64, Relaxed);
            }
            return p;
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // gigabytes are moved by the system, not copied
        if MODE.load(Relaxed) == 0 && FILL.load(Relaxed) >= 256 && !fenced(p as usize) && l.size().min(n) >= LARGE && n <= LIMIT.load(Relaxed) {
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                LIVE.fetch_add(n as u64, Relaxed);
                LIVE.fetch_sub(l.size() as u64, Relaxed);
            }
            return q;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !fenced(p as usize) {
            LIVE.fetch_sub(l.size() as u64, Relaxed);
            return System.dealloc(p, l);
        }
        let e = entry(p as usize);
        if (*e)[0] == 0 {
            die("bad_free", "not an allocation");
        }
        if (*e)[1] == !0 {
            die("bad_free", "double free");
        }
        if *e != [l.size() + 1, l.align()] {
            die("bad_free", "layout mismatch");
        }
        (*e)[1] = !0;
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        let lo = (p as usize) / PAGE * PAGE;
        let hi = (p as usize + l.size() + PAGE - 1) / PAGE * PAGE;
        libc::madvise(lo as _, (hi - lo).max(PAGE), libc::MADV_DONTNEED);
        libc::mprotect(lo as _, (hi - lo).max(PAGE), libc::PROT_NONE);
    }
}
unsafe fn fill(p: *mut u8, n: usize) {
    let f = FILL.load(Relaxed);
    if f < 256 {
        std::ptr::write_bytes(p, f as u8, n);
    }
}

struct Cell<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Cell<T> {}
struct St {
    inputs: Vec<(String, Vec<u8>)>,
    next: usize,
    params: Vec<(String, u64)>,
    hash: u64,
    tlen: u64,
    reached: Vec<&'static str>,
    out: String,
}
static ST: Cell<Option<St>> = Cell(UnsafeCell::new(None));
static ONCE: Mutex<()> = Mutex::new(());
fn st() -> &'static mut St {
    unsafe { (*ST.0.get()).as_mut().unwrap() }
}
fn die(end: &str, msg: &str) -> ! {
    MODE.store(0, SeqCst);
    let _g = ONCE.try_lock();
    if _g.is_err() {
        unsafe { libc::pause() };
    }
    let s = st();
    let q = |x: &str| format!("{:?}", x.chars().map(|c| if c == '\'' || !(' '..='~').contains(&c) { ' ' } else { c }).collect::<String>());
    let j = format!(
        "{{\"end\":{},\"msg\":{},\"trace_hash\":\"{:016x}\",\"trace_len\":{},\"inputs_used\":{},\"reached\":[{}]}}\n",
        q(end), q(msg), s.hash, s.tlen, s.next, s.reached.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")
    );
    let _ = std::fs::write(&s.out, &j);
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}
extern "C" fn segv(_s: i32, i: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    let a = unsafe { (*i).si_addr() } as usize;
    die("segv", if unsafe { fenced(a) } { "access outside a live allocation" } else { "invalid memory access" })
}

#[no_mangle]
extern "C" fn vf_sym(ptr: *mut u8, len: usize, _n: *const u8, _nl: usize) {
    let s = st();
    let d = unsafe { std::slice::from_raw_parts_mut(ptr, len) };
    match s.inputs.get(s.next) {
        Some((_, b)) if b.len() == len => d.copy_from_slice(b),
        Some(_) => die("input_mismatch", ""),
        None => die("out_of_inputs", ""),
    }
    s.next += 1;
}
#[no_mangle]
extern "C" fn vf_assume(c: bool) {
    if !c {
        die("assumed away", "")
    }
}
#[no_mangle]
extern "C" fn vf_assert(c: bool, msg: *const u8, len: usize) {
    if !c {
        let m = unsafe { std::slice::from_raw_parts(msg, len) };
        die("assert", &String::from_utf8_lossy(m))
    }
}
#[no_mangle]
extern "C" fn vf_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn vf_pick(name: *const u8, nl: usize, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let mut b = [0u8; 8];
    vf_sym(b.as_mut_ptr(), if n <= 256 { 1 } else if n <= 65536 { 2 } else { 8 }, name, nl);
    u64::from_le_bytes(b)
}
#[no_mangle]
extern "C" fn vf_panic_ok(c: bool) {
    PANIC_OK.store(c, SeqCst)
}
#[no_mangle]
extern "C" fn vf_reach(p: *const u8, len: usize) {
    let s = st();
    if s.reached.len() < s.reached.capacity() {
        s.reached.push(unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, len)) });
    }
}
#[no_mangle]
extern "C" fn vf_trace(p: *const u8, len: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, len) };
    let s = st();
    for x in (len as u32).to_le_bytes().iter().chain(b) {
        s.hash = (s.hash ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    s.tlen += len as u64;
    if std::env::var_os("VF_SHOW").is_some() {
        eprintln!("trace {:?}", b);
    }
}
#[no_mangle]
extern "C" fn vf_checkpoint() {}
#[no_mangle]
extern "C" fn vf_param(p: *const u8, len: usize, default: u64) -> u64 {
    let n = unsafe { std::slice::from_raw_parts(p, len) };
    st().params.iter().find(|x| x.0.as_bytes() == n).map(|x| x.1).unwrap_or(default)
}
#[no_mangle]
extern "C" fn vf_live_bytes() -> u64 {
    LIVE.load(SeqCst)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let h = vh::HARNESSES.iter().find(|h| h.0 == a[0]).expect("harness").1;
    let text = std::fs::read_to_string(&a[1]).expect("inputs");
    let inputs = text
        .lines()
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| {
            let (n, x) = l.split_once(' ').unwrap_or((l, ""));
            (n.to_string(), (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect())
        })
        .collect();
    let params: Vec<(String, u64)> = a[3..].iter().map(|p| p.split_once('=').map(|(k, v)| (k.to_string(), v.parse().unwrap())).unwrap()).collect();
    if let Some(gb) = params.iter().find(|x| x.0 == "heapgb") {
        LIMIT.store((gb.1 as usize) << 30, SeqCst);
    }
    let reached = Vec::with_capacity(1 << 16);
    unsafe { *ST.0.get() = Some(St { inputs, next: 0, params, hash: 0xcbf29ce484222325, tlen: 0, reached, out: a[2].clone() }) };
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("unsafe precondition") || m.contains("misaligned pointer") || m.contains("null pointer dereference") || m.contains("cannot unwind") {
            die("ub", &m);
        }
        let over = m.contains("attempt to ") && m.contains("with overflow");
        die(if PANIC_OK.load(SeqCst) && !over { "allowed panic" } else { "panic" }, &m)
    }));
    unsafe {
        let stack = libc::mmap(std::ptr::null_mut(), 1 << 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        libc::sigaltstack(&libc::stack_t { ss_sp: stack, ss_flags: 0, ss_size: 1 << 16 }, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = segv as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        if let Ok(f) = std::env::var("VF_FILL") {
            FILL.store(f.parse().unwrap(), SeqCst);
        }
        let m = match std::env::var("VF_ALLOC").as_deref() {
            Ok("end") => 1,
            Ok("start") => 2,
            Ok("odd") => 3,
            _ => 0,
        };
        if m != 0 {
            let r = |n| libc::mmap(std::ptr::null_mut(), n, 0, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as usize;
            let b = r(REGION);
            let t = r(REGION / PAGE * 16);
            if b == usize::MAX || t == usize::MAX {
                die("no_region", "");
            }
            libc::mprotect(t as _, REGION / PAGE * 16, libc::PROT_READ | libc::PROT_WRITE);
            TABLE.store(t, SeqCst);
            BASE.store(b, SeqCst);
            MODE.store(m, SeqCst);
        }
    }
    h();
    die("completed", "")
}
