use crate::vf;
pub fn basic() {
    let x = vf::u8("x");
    let v = vec![1u8, x, 3];
    let s: u32 = v.iter().map(|b| *b as u32).sum();
    if x == 7 { vf::reach("seven"); }
    vf::check(s == x as u32 + 4, "sum");
}
pub fn rt() {
    let n = vf::param("n", 2) as usize;
    let mut w = grenad::Writer::builder().memory();
    let keys: Vec<Vec<u8>> = (0..n).map(|_| vf::bytes("k", 2)).collect();
    for i in 1..n { vf::assume(keys[i] > keys[i-1]); }
    for k in &keys { w.insert(k, b"val").unwrap(); }
    let file = w.into_inner().unwrap();
    let r = grenad::Reader::new(std::io::Cursor::new(file)).unwrap();
    vf::check(r.len() == n as u64, "len");
    let mut c = r.into_cursor().unwrap();
    let mut i = 0;
    while let Some((k, v)) = c.move_on_next().unwrap() {
        vf::check(k == &keys[i][..], "key");
        vf::check(v == b"val", "val");
        i += 1;
    }
    vf::check(i == n, "count");
    vf::reach("end");
}
