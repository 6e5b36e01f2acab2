//! Just enough JSON.
use std::fmt::Write;

pub fn bytes(out: &mut String, b: &[u8]) {
    out.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let _ = write!(out, "{}", x);
    }
    out.push(']');
}

pub fn limbs64(out: &mut String, v: u64) {
    let _ = write!(
        out,
        "[{},{},{},{}]",
        v >> 48,
        (v >> 32) & 0xffff,
        (v >> 16) & 0xffff,
        v & 0xffff
    );
}

pub fn limbs32(out: &mut String, v: u32) {
    let _ = write!(out, "[{},{}]", v >> 16, v & 0xffff);
}
