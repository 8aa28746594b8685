mod fs;

#[used]
pub static KEEP: &[(&str, extern "C" fn())] = vh::HARNESSES;
