pub mod vf;
pub mod t0;
pub mod sup;
pub mod files;
pub mod seq;
pub mod env;
pub mod sort;
pub mod io;
harnesses! {
    h_t0_basic => t0::basic,
    h_t0_rt => t0::rt,
    c01 => files::c01,
    c01_len => files::c01_len,
    c01_many => files::c01_many,
    far => files::far,
    c01_lenc => files::c01_lenc,
    c02 => files::c02,
    c02_prefixes => files::c02_prefixes,
    c04_prefixes => files::c04_prefixes,
    c05_ff => files::c05_ff,
    c04 => files::c04,
    c05 => files::c05,
    c09_format => files::c09_format,
    c09_old_reads => files::c09_old_reads,
    c09_reads_old => files::c09_reads_old,
    c10 => files::c10,
    c10_trailer => files::c10_trailer,
    c15 => files::c15,
    c18 => files::c18,
    c03 => seq::c03,
    c03_faults => seq::c03_faults,
    c06 => sort::c06,
    c07 => sort::c07,
    c08 => sort::c08,
    c17 => sort::c17,
    c17_budget => sort::c17_budget,
    c17_merge => sort::c17_merge,
    c17_fails => io::c17_fails,
    c13_tail => io::c13_tail,
    c17_reads => sort::c17_reads,
    c11 => io::c11,
    c12 => io::c12,
    c13 => io::c13,
    c13_long => io::c13_long,
    c13_files => io::c13_files,
    c13_crash => io::c13_crash,
    c14 => io::c14,
    c14_entries => io::c14_entries,
    c14_sorter => sort::c14_sorter,
    c16 => seq::c16,
}
