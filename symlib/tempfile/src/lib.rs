//! Stands in for the tempfile crate: the file descriptors are those of symlib's files in memory.
use std::fs::File;
use std::io;
use std::os::fd::FromRawFd;

extern "C" {
    fn vf_file_new() -> i32;
}

pub fn tempfile() -> io::Result<File> {
    Ok(unsafe { File::from_raw_fd(vf_file_new()) })
}
