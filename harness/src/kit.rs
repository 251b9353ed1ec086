//! Pieces shared by the cases.
use crate::spec::{self, Op, Opts};
use crate::sx;

pub static LONG: [(&str, Op); 11] = [
    ("--tvr", Op::Tvr), ("--ccd-iad", Op::Iad), ("--ccd-cvr", Op::Cvr), ("--tsi", Op::Tsi), ("--cvm-results", Op::CvmResults), ("--cvm-list", Op::CvmList),
    ("--identify", Op::Identify), ("--auto-tlv", Op::Auto), ("--ber-tlv", Op::Ber), ("--ingenico-tlv", Op::Ingenico), ("--service-code", Op::ServiceCode),
];
pub fn long(op: Op) -> &'static str { for (n, o) in LONG.iter() { if *o == op { return n; } } "" }
pub fn hex(v: &[u8]) -> Vec<u8> {
    let d = b"0123456789ABCDEF";
    let mut o = Vec::with_capacity(v.len() * 2);
    for x in v { o.push(d[(x >> 4) as usize]); o.push(d[(x & 15) as usize]); }
    o
}
pub fn syms(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(sx::sym()); } v }
/// A symbolic ASCII character an argument can contain.
pub fn ascii() -> u8 { let c = sx::sym(); sx::assume(c >= 1 && c < 0x80); c }
/// A symbolic byte below n.
pub fn below(n: u8) -> u8 { let c = sx::sym(); sx::assume(c < n); c }
pub fn utf8_of(c: u32, o: &mut Vec<u8>) {
    if c < 0x80 { o.push(c as u8) } else if c < 0x800 { o.push(0xC0 | (c >> 6) as u8); o.push(0x80 | (c & 63) as u8) } else { o.push(0xE0 | (c >> 12) as u8); o.push(0x80 | (c >> 6 & 63) as u8); o.push(0x80 | (c & 63) as u8) }
}
/// One invocation; options come from the command line.
pub fn invoke(op: Op, text: &[u8], o: &Opts) -> sx::Res { invoke_as(long(op), text, o, true) }
pub fn invoke_as(name: &str, text: &[u8], o: &Opts, joined: bool) -> sx::Res {
    sx::begin();
    if o.colour { sx::arg(b"--colour"); sx::arg(b"always"); }
    if !o.sort { sx::arg(b"--no-sort"); }
    if o.masks.len() != 1 || o.masks[0] != b'*' as u32 {
        for m in o.masks { sx::arg(b"-m"); let mut t = vec![]; utf8_of(*m, &mut t); sx::arg(&t); }
    }
    if joined { let mut t = name.as_bytes().to_vec(); t.push(b'='); t.extend_from_slice(text); sx::arg(&t); } else { sx::arg(name.as_bytes()); sx::arg(text); }
    sx::run()
}
pub fn sane(r: &sx::Res) {
    if r.code == 1002 { sx::check(false, "the tool does not terminate"); }
    sx::check(r.code != 1001, "the tool crashes");
    sx::check(r.code != 1003, "the tool changes files");
    sx::check(r.code == 0, "the tool does not exit normally");
}
/// The tool must print exactly what the oracle says.
pub fn exact(op: Op, text: &[u8], o: &Opts) {
    let r = invoke(op, text, o);
    judge(op, text, o, &r);
}
pub fn judge(op: Op, text: &[u8], o: &Opts, r: &sx::Res) {
    sane(r);
    let (out, err) = spec::expected(op, text, o);
    sx::eq(&r.out, &out, "the report is not the expected one");
    sx::eq(&r.err, &err, "the error message is not the expected one");
}
/// Hex text, never empty.
pub fn hexg(v: &[u8]) -> Vec<u8> { if v.is_empty() { b"g".to_vec() } else { hex(v) } }
pub fn exact_hex(op: Op, v: &[u8], o: &Opts) { exact(op, &hex(v), o) }
pub fn same(a: &sx::Res, b: &sx::Res, what: &str) {
    sane(a); sane(b);
    sx::eq(&a.out, &b.out, what);
    sx::eq(&a.err, &b.err, what);
}
/// An n-byte value with symbolic windows over a background.
/// p = bg * 2^18 + three 6-bit slots; slot 0 = none, 1..=32 = nibble, 33..=63 = byte.
pub fn window(n: usize, p: u32) -> Vec<u8> {
    let mut v = background(n, p >> 18);
    for k in 0..3 {
        let s = (p >> (6 * k) & 63) as usize;
        if s == 0 { continue; }
        if s >= 33 { v[s - 33] = sx::sym(); continue; }
        let i = s - 1;
        let x = sx::sym();
        sx::assume(x < 16);
        v[i / 2] = if i % 2 == 0 { v[i / 2] & 0x0F | x << 4 } else { v[i / 2] & 0xF0 | x };
    }
    v
}
pub fn background(n: usize, bg: u32) -> Vec<u8> {
    let mut v = vec![0u8; n];
    let mut r = bg.wrapping_mul(2654435761) ^ 0x5bd1e995;
    for x in v.iter_mut() {
        *x = match bg { 0 => 0, 1 => 0xFF, 2 => 0x55, 3 => 0xAA, _ => { r ^= r << 13; r ^= r >> 17; r ^= r << 5; (r >> 11) as u8 } };
    }
    v
}
pub fn wbyte(i: usize) -> u32 { 33 + i as u32 }
pub fn wnib(i: usize) -> u32 { 1 + i as u32 }
pub fn wp(bg: u32, a: u32, b: u32, c: u32) -> u32 { bg << 18 | c << 12 | b << 6 | a }
/// every pair of bytes of an n-byte value
pub fn byte_pairs(n: usize, bgs: &[u32], out: &mut Vec<u32>) { for g in bgs { for i in 0..n { for j in i + 1..n { out.push(wp(*g, wbyte(i), wbyte(j), 0)); } } } }
pub fn byte_singles(n: usize, bgs: &[u32], out: &mut Vec<u32>) { for g in bgs { for i in 0..n { out.push(wp(*g, wbyte(i), 0, 0)); } } }
pub fn nib_pairs(n: usize, bgs: &[u32], out: &mut Vec<u32>) { for g in bgs { for i in 0..2 * n { for j in i + 1..2 * n { out.push(wp(*g, wnib(i), wnib(j), 0)); } } } }
pub fn nib_trios(n: usize, bgs: &[u32], out: &mut Vec<u32>) { for g in bgs { for i in 0..2 * n { for j in i + 1..2 * n { for k in j + 1..2 * n { out.push(wp(*g, wnib(i), wnib(j), wnib(k))); } } } } }

/// Appends a BER-TLV length: form 0 = shortest, 1..=4 = that many bytes; 5 = none, for a length of zero.
pub fn ber_len(o: &mut Vec<u8>, n: usize, form: usize) {
    if form == 0 && n < 128 { o.push(n as u8); return; }
    if form == 5 && n == 0 { o.push(0x80); return; }
    let k = if form == 0 || form == 5 { if n < 256 { 1 } else if n < 65536 { 2 } else { 3 } } else { form };
    o.push(0x80 | k as u8);
    for i in (0..k).rev() { o.push((n >> (8 * i)) as u8); }
}
pub fn tlv(o: &mut Vec<u8>, tag: &[u8], v: &[u8], form: usize) { o.extend_from_slice(tag); ber_len(o, v.len(), form); o.extend_from_slice(v); }
pub fn cat(a: &[u8], b: &[u8]) -> Vec<u8> { let mut o = a.to_vec(); o.extend_from_slice(b); o }
/// An Ingenico entry in hex.
pub fn ing(o: &mut Vec<u8>, tag: &[u8], v: &[u8]) { o.push(b'T'); o.extend_from_slice(&hex(tag)); o.push(b':'); o.extend_from_slice(&ing_len(v.len())); o.extend_from_slice(b":h"); o.extend_from_slice(&hex(v)); }
pub fn ing_len(n: usize) -> Vec<u8> { if n < 256 { hex(&[n as u8]) } else { hex(&[(n >> 8) as u8, n as u8]) } }
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> { let mut i = 0; while i + n.len() <= h.len() { if &h[i..i + n.len()] == n { return Some(i); } i += 1; } None }

// ---- pieces of reports
/// Where a line with exactly this text starts, if there is one.
pub fn line(h: &[u8], n: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        let mut e = i;
        while e < h.len() && h[e] != b'\n' { e += 1; }
        if e - i == n.len() && &h[i..e] == n { return Some(i); }
        i = e + 1;
    }
    None
}
/// Every line that is not empty one level deeper.
pub fn deeper(t: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len() + 64);
    let mut start = true;
    for c in t { if start && *c != b'\n' { o.push(b'\t'); } o.push(*c); start = *c == b'\n'; }
    o
}
/// Without the escape sequences (ESC [ ... m).
pub fn unstyled(t: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len());
    let mut i = 0;
    while i < t.len() {
        if t[i] == 0x1B { while i < t.len() && t[i] != b'm' { i += 1; } i += 1; continue; }
        o.push(t[i]);
        i += 1;
    }
    o
}
/// The tags with an interpretation, their size (0 = any even size from eight) and the option that takes the value alone.
pub static KNOWN: [(&[u8], usize, Option<Op>); 15] = [
    (&[0x95], 5, Some(Op::Tvr)), (&[0x9B], 2, Some(Op::Tsi)), (&[0x9F, 0x34], 3, Some(Op::CvmResults)), (&[0x8E], 0, Some(Op::CvmList)), (&[0x9F, 0x10], 32, Some(Op::Iad)), (&[0x5F, 0x30], 2, Some(Op::ServiceCode)),
    (&[0x8A], 2, None), (&[0x9C], 1, None), (&[0x9F, 0x35], 1, None), (&[0x9F, 0x39], 1, None), (&[0x9F, 0x33], 3, None), (&[0x9F, 0x40], 5, None), (&[0x9F, 0x0D], 5, None), (&[0x9F, 0x0E], 5, None), (&[0x9F, 0x0F], 5, None),
];
/// A valid value for the k-th known tag.
pub fn valid(k: usize) -> Vec<u8> {
    match k {
        0 => vec![0x80, 0x40, 0x04, 0x80, 0x10], 1 => vec![0xE8, 0x00], 2 => vec![0x42, 0x03, 0x02],
        3 => vec![0, 0, 0x03, 0xE8, 0, 0, 0, 7, 0x42, 0x03, 0x1F, 0x06], 4 => { let mut v = vec![0u8; 32]; v[0] = 15; v[1] = 0xA5; v[2] = 1; v[3] = 0x5A; v[4] = 0x31; v[8] = 9; v[16] = 15; v[31] = 0xEE; v }
        5 => vec![0x02, 0x01], 6 => vec![0x30, 0x30], 7 => vec![0x00], 8 => vec![0x22], 9 => vec![0x05], 10 => vec![0xE0, 0xF8, 0xC8], 11 => vec![0xF0, 0x00, 0xF0, 0xA0, 0x01],
        _ => vec![0x04, 0x00, 0x80, 0x08, 0x40],
    }
}
/// A symbolic choice of one of the bytes.
pub fn one_of(c: &[u8]) -> u8 { let i = below(c.len() as u8); c[i as usize] }
/// A tag of n bytes, all symbolic but for what makes it n bytes long.
pub fn sym_tag(n: usize) -> Vec<u8> {
    let mut t = vec![sx::sym()];
    if n == 1 { sx::assume(t[0] & 0x1F != 0x1F); return t; }
    sx::assume(t[0] & 0x1F == 0x1F);
    for i in 1..n { let x = sx::sym(); if i + 1 < n { sx::assume(x & 0x80 != 0) } else { sx::assume(x & 0x80 == 0) } t.push(x); }
    t
}
/// A private, primitive, uncatalogued tag of n bytes.
pub fn plain_tag(n: usize) -> Vec<u8> { let mut t = vec![0xC1]; if n > 1 { t[0] = 0xDF; for i in 1..n { t.push(if i + 1 < n { 0x80 + i as u8 } else { 0x21 }); } } t }
/// At most one of a report and an error message; an error message is one line.
pub fn one_answer(r: &sx::Res) {
    sane(r);
    sx::check(r.out.is_empty() || r.err.is_empty(), "both a report and an error message are printed");
    let mut i = 0;
    while i < r.err.len() { sx::check((r.err[i] == b'\n') == (i + 1 == r.err.len()), "the error message is not one line"); i += 1; }
}
