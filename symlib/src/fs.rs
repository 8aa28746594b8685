//! The system calls std's `File` makes, on files in memory.
use std::ffi::c_void;

struct F {
    data: Vec<u8>,
    pos: usize,
}
const BASE: i32 = 100;
static mut FILES: Vec<Option<F>> = Vec::new();

#[allow(static_mut_refs)]
fn file(fd: i32) -> &'static mut F {
    unsafe { FILES[(fd - BASE) as usize].as_mut().expect("a file that is closed") }
}

#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn vf_file_new() -> i32 {
    unsafe {
        FILES.push(Some(F { data: Vec::new(), pos: 0 }));
        BASE + FILES.len() as i32 - 1
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut c_void, n: usize) -> isize {
    let f = file(fd);
    let m = n.min(f.data.len().saturating_sub(f.pos));
    std::ptr::copy_nonoverlapping(f.data.as_ptr().add(f.pos.min(f.data.len())), buf as *mut u8, m);
    f.pos += m;
    m as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, n: usize) -> isize {
    let f = file(fd);
    if f.data.len() < f.pos + n {
        f.data.resize(f.pos + n, 0);
    }
    std::ptr::copy_nonoverlapping(buf as *const u8, f.data.as_mut_ptr().add(f.pos), n);
    f.pos += n;
    n as isize
}
#[no_mangle]
pub extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    let f = file(fd);
    let from = match whence {
        0 => 0,
        1 => f.pos as i64,
        _ => f.data.len() as i64,
    };
    f.pos = (from + off) as usize;
    f.pos as i64
}
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn close(fd: i32) -> i32 {
    file(fd);
    unsafe { FILES[(fd - BASE) as usize] = None }
    0
}
/// std asks whether a descriptor is still open before it closes it
#[no_mangle]
pub extern "C" fn fcntl(fd: i32, _cmd: i32) -> i32 {
    file(fd);
    0
}
