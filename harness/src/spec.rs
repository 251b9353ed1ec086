//! The oracle: what the tool must print, written from the EMV specifications and the
//! tool's documentation as plain data and plain code, sharing nothing with the tool.
use crate::tables::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op { Tvr, Iad, Cvr, Tsi, CvmResults, CvmList, Identify, Auto, Ber, Ingenico, ServiceCode }
pub struct Opts<'a> { pub colour: bool, pub sort: bool, pub masks: &'a [u32] }
pub const PLAIN: Opts<'static> = Opts { colour: false, sort: true, masks: &[b'*' as u32] };
pub const UNSORTED: Opts<'static> = Opts { colour: false, sort: false, masks: &[b'*' as u32] };
pub const COLOUR: Opts<'static> = Opts { colour: true, sort: true, masks: &[b'*' as u32] };

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum E { Count(u8, usize, usize), Indivisible, Bytes, Number, NonCompliant, NonCcd, Unsupported, Unrecognised }

pub struct Doc { pub b: Vec<u8>, pub colour: bool }
impl Doc {
    pub fn new(colour: bool) -> Doc { Doc { b: Vec::with_capacity(4096), colour } }
    fn s(&mut self, t: &str) { self.b.extend_from_slice(t.as_bytes()); }
    fn c(&mut self, c: u8) { self.b.push(c); }
    fn nl(&mut self) { self.b.push(b'\n'); }
    fn ind(&mut self, n: usize) { for _ in 0..n { self.b.push(b'\t'); } }
    fn esc(&mut self, t: &str) { if self.colour { self.s(t) } }
    fn header(&mut self, t: &str) { self.esc("\x1b[0m\x1b[1m\x1b[36m"); self.s(t); self.esc("\x1b[0m"); }
    /// a header that fills its line: the style is only reset after the line break
    fn header_line(&mut self, t: &str) { self.esc("\x1b[0m\x1b[1m\x1b[36m"); self.s(t); self.nl(); self.esc("\x1b[0m"); }
    fn bold(&mut self, t: &str) { self.esc("\x1b[0m\x1b[1m"); self.s(t); self.esc("\x1b[0m"); }
    fn hex(&mut self, b: u8) { self.c(HEXD[(b >> 4) as usize]); self.c(HEXD[(b & 15) as usize]); }
    pub fn dec(&mut self, n: u64, width: usize) {
        let mut d = [0u8; 20];
        let mut k = 0;
        let mut n = n;
        loop { d[k] = b'0' + (n % 10) as u8; k += 1; n /= 10; if n == 0 { break; } }
        while k < width { d[k] = b'0'; k += 1; }
        while k > 0 { k -= 1; self.c(d[k]); }
    }
    fn dump(&mut self, v: &[u8], ind: usize) {
        let mut i = 0;
        while i < v.len() {
            let n = if v.len() - i < 16 { v.len() - i } else { 16 };
            self.ind(ind);
            for k in 0..16 {
                if k < n { self.hex(v[i + k]); } else { self.s("  "); }
                if k < 15 { self.c(b' '); }
            }
            self.s("  ");
            for k in 0..n { let x = v[i + k]; self.c(if x.wrapping_sub(0x20) < 0x5F { x } else { b'.' }); }
            self.nl();
            i += 16;
        }
    }
    fn hexline(&mut self, v: &[u8], ind: usize) {
        self.ind(ind);
        for (i, x) in v.iter().enumerate() { if i > 0 { self.c(b' '); } self.hex(*x); }
        self.nl();
    }
}
static HEXD: [u8; 16] = *b"0123456789ABCDEF";
/// The value of a hex digit, 0xFF for any other byte.
pub static NIBBLE: [u8; 256] = { let mut t = [0xFFu8; 256]; let mut i = 0; while i < 10 { t[b'0' as usize + i] = i as u8; i += 1; } i = 0; while i < 6 { t[b'a' as usize + i] = 10 + i as u8; t[b'A' as usize + i] = 10 + i as u8; i += 1; } t };

// ---- bit fields
pub const N: u8 = 0; pub const W: u8 = 1; pub const X: u8 = 2;
pub struct Bit { pub byte: usize, pub mask: u8, pub sev: u8, pub text: &'static str }
const fn b(byte: usize, mask: u8, sev: u8, text: &'static str) -> Bit { Bit { byte, mask, sev, text } }
pub static TVR: [Bit; 26] = [
    b(0, 0x80, N, "Offline data authentication was not performed"), b(0, 0x40, X, "SDA (Static Data Authentication) failed"), b(0, 0x20, X, "ICC data missing"),
    b(0, 0x10, X, "Card appears on terminal exception file"), b(0, 0x08, X, "DDA (Dynamic Data Authentication) failed"), b(0, 0x04, X, "CDA (Combined Data Authentication) failed"),
    b(1, 0x80, W, "ICC and terminal have different application versions"), b(1, 0x40, X, "Expired application"), b(1, 0x20, X, "Application not yet effective"),
    b(1, 0x10, X, "Requested service not allowed for card product"), b(1, 0x08, W, "New card"),
    b(2, 0x80, W, "Cardholder verification was not successful"), b(2, 0x40, W, "Unrecognised CVM (Cardholder Verification Method)"), b(2, 0x20, X, "PIN try limit exceeded"),
    b(2, 0x10, X, "PIN entry required and PIN pad not present or not working"), b(2, 0x08, W, "PIN entry required, PIN pad present, but PIN was not entered (PIN bypass)"), b(2, 0x04, N, "Online PIN entered"),
    b(3, 0x80, N, "Transaction exceeds floor limit"), b(3, 0x40, N, "Lower consecutive offline limit exceeded"), b(3, 0x20, N, "Upper consecutive offline limit exceeded"),
    b(3, 0x10, N, "Transaction selected randomly for online processing"), b(3, 0x08, N, "Merchant forced transaction online"),
    b(4, 0x80, N, "Default TDOL (Transaction Certificate Data Object List) used"), b(4, 0x40, X, "Issuer authentication failed"),
    b(4, 0x20, X, "Script processing failed before final GENERATE AC"), b(4, 0x10, X, "Script processing failed after final GENERATE AC"),
];
pub static TSI: [Bit; 6] = [
    b(0, 0x80, N, "Offline data authentication was performed"), b(0, 0x40, N, "Cardholder verification was performed"), b(0, 0x20, N, "Card risk management was performed"),
    b(0, 0x10, N, "Issuer authentication was performed"), b(0, 0x08, N, "Terminal risk management was performed"), b(0, 0x04, N, "Script processing was performed"),
];
pub static CAPS: [Bit; 12] = [
    b(0, 0x80, N, "Manual key entry"), b(0, 0x40, N, "Magnetic stripe (MSR)"), b(0, 0x20, N, "IC with contacts (ICC)"),
    b(1, 0x80, N, "Plaintext PIN for ICC verification"), b(1, 0x40, N, "Enciphered PIN for online verification"), b(1, 0x20, N, "Signature (paper)"),
    b(1, 0x10, N, "Enciphered PIN for offline verification"), b(1, 0x08, N, "No CVM Required"),
    b(2, 0x80, N, "SDA (Static Data Authentication)"), b(2, 0x40, N, "DDA (Dynamic Data Authentication)"), b(2, 0x20, N, "Card capture (ATM retaining the card)"), b(2, 0x08, N, "CDA (Combined Data Authentication)"),
];
pub static ADDCAPS: [Bit; 27] = [
    b(0, 0x80, N, "Cash"), b(0, 0x40, N, "Goods"), b(0, 0x20, N, "Services"), b(0, 0x10, N, "Cashback"),
    b(0, 0x08, N, "Inquiry (request for information about one of the cardholder's accounts)"), b(0, 0x04, N, "Transfer (between cardholder accounts at the same financial institution)"),
    b(0, 0x02, N, "Payment (from a cardholder account to another party)"), b(0, 0x01, N, "Administrative"),
    b(1, 0x80, N, "Cash Deposit (into a bank account related to an application on the card used)"),
    b(2, 0x80, N, "Numeric keys"), b(2, 0x40, N, "Alphabetic and special characters keys"), b(2, 0x20, N, "Command keys"), b(2, 0x10, N, "Function keys"),
    b(3, 0x80, N, "Print, attendant"), b(3, 0x40, N, "Print, cardholder"), b(3, 0x20, N, "Display, attendant"), b(3, 0x10, N, "Display, cardholder"),
    b(3, 0x02, N, "ISO/IEC 8859 Code Table 10"), b(3, 0x01, N, "ISO/IEC 8859 Code Table 9"),
    b(4, 0x80, N, "ISO/IEC 8859 Code Table 8"), b(4, 0x40, N, "ISO/IEC 8859 Code Table 7"), b(4, 0x20, N, "ISO/IEC 8859 Code Table 6"), b(4, 0x10, N, "ISO/IEC 8859 Code Table 5"),
    b(4, 0x08, N, "ISO/IEC 8859 Code Table 4"), b(4, 0x04, N, "ISO/IEC 8859 Code Table 3"), b(4, 0x02, N, "ISO/IEC 8859 Code Table 2"), b(4, 0x01, N, "ISO/IEC 8859 Code Table 1"),
];
/// The single bits of the card verification results; their multi-bit fields are in `cvr`.
pub static CVR: [Bit; 24] = [
    b(0, 0x08, N, "CDA (Combined Data Authentication) performed"), b(0, 0x04, N, "Offline DDA (Dynamic Data Authentication) performed"),
    b(0, 0x02, W, "Issuer authentication not performed"), b(0, 0x01, X, "Issuer authentication failed"),
    b(1, 0x08, N, "Offline PIN verification performed"), b(1, 0x04, X, "Offline PIN verification performed and PIN not successfully verified"),
    b(1, 0x02, X, "PIN try limit exceeded"), b(1, 0x01, W, "Last online transaction not completed"),
    b(2, 0x80, N, "Lower offline transaction count limit exceeded"), b(2, 0x40, N, "Upper offline transaction count limit exceeded"),
    b(2, 0x20, N, "Lower cumulative offline amount limit exceeded"), b(2, 0x10, N, "Upper cumulative offline amount limit exceeded"),
    b(2, 0x08, N, "Issuer-discretionary bit 1"), b(2, 0x04, N, "Issuer-discretionary bit 2"), b(2, 0x02, N, "Issuer-discretionary bit 3"), b(2, 0x01, N, "Issuer-discretionary bit 4"),
    b(3, 0x08, X, "Issuer script processing failed"), b(3, 0x04, W, "Offline data authentication failed on previous transaction"),
    b(3, 0x02, N, "Go online on next transaction"), b(3, 0x01, W, "Unable to go online"),
    b(4, 0, N, ""), b(4, 0, N, ""), b(4, 0, N, ""), b(4, 0, N, ""),
];
/// The bits of each bit field the specification defines.
pub static TVR_USED: [u8; 5] = [0xFC, 0xF8, 0xFC, 0xF8, 0xF0];
pub static TSI_USED: [u8; 2] = [0xFC, 0x00];
pub static CAPS_USED: [u8; 3] = [0xE0, 0xF8, 0xE8];
pub static ADDCAPS_USED: [u8; 5] = [0xFF, 0x80, 0xF0, 0xF3, 0xFF];
pub static CVR_USED: [u8; 5] = [0xFF, 0xFF, 0xFF, 0xFF, 0x00];
pub static CVMR_USED: [u8; 3] = [0x7F, 0xFF, 0xFF];

/// A labelled range of bits: `top` counts from the left of the whole value.
struct Range { top: usize, len: usize, sev: u8, lead: &'static str, tail: &'static str, num: Option<u8> }

fn flags(v: &[u8], bits: &'static [Bit], out: &mut Vec<Range>) {
    for x in bits { if x.mask != 0 && v[x.byte] & x.mask != 0 { out.push(Range { top: x.byte * 8 + x.mask.leading_zeros() as usize, len: 1, sev: x.sev, lead: x.text, tail: "", num: None }); } }
}
/// Draws the digits, the arms and one line per range (ranges given left to right).
fn draw(d: &mut Doc, ind: usize, v: &[u8], used: &[u8], rs: &[Range], severities: bool) {
    d.ind(ind);
    d.esc("\x1b[0m\x1b[1m");
    for (i, x) in v.iter().enumerate() {
        if i > 0 { d.c(b' '); }
        let x = x & used[i];
        for k in 0..8 { d.c(b'0' + (x >> (7 - k) & 1)); }
    }
    d.nl();
    d.esc("\x1b[0m");
    let nbits = v.len() * 8;
    let mut multi = false;
    let mut at = [0u8; 64];
    let mut end = 0;
    for (i, r) in rs.iter().enumerate() { at[r.top] = i as u8 + 1; if r.len > 1 { multi = true; } if r.top + r.len > end { end = r.top + r.len; } }
    if multi {
        d.ind(ind);
        let mut p = 0;
        while p < end {
            if p > 0 && p % 8 == 0 { d.c(b' '); }
            if at[p] == 0 { d.c(b' '); p += 1; continue; }
            let r = &rs[at[p] as usize - 1];
            if r.len == 1 { d.s("\u{2502}"); p += 1; continue; }
            d.s("\u{251c}");
            for _ in 2..r.len { d.s("\u{2500}"); }
            d.s("\u{2518}");
            p += r.len;
        }
        d.nl();
    }
    let _ = nbits;
    for r in rs.iter().rev() {
        d.ind(ind);
        for p in 0..r.top {
            if p > 0 && p % 8 == 0 { d.c(b' '); }
            if at[p] != 0 { d.s("\u{2502}"); } else { d.c(b' '); }
        }
        if r.top > 0 && r.top % 8 == 0 { d.c(b' '); }
        d.s("\u{2514} ");
        if d.colour { d.s("\x1b[0m"); if severities { if r.sev == W { d.s("\x1b[33m"); } if r.sev == X { d.s("\x1b[31m"); } } }
        d.s(r.lead);
        d.s(r.tail);
        if let Some(n) = r.num { d.dec(n as u64, 1); }
        d.nl();
        d.esc("\x1b[0m");
    }
}
fn want(v: &[u8], n: usize) -> Result<(), E> { if v.len() == n { Ok(()) } else { Err(E::Count(1, n, v.len())) } }
pub fn tvr(d: &mut Doc, ind: usize, v: &[u8], severities: bool) -> Result<(), E> {
    want(v, 5)?;
    let mut r = vec![]; flags(v, &TVR, &mut r);
    draw(d, ind, v, &TVR_USED, &r, severities);
    Ok(())
}
pub fn tsi(d: &mut Doc, ind: usize, v: &[u8]) -> Result<(), E> { want(v, 2)?; let mut r = vec![]; flags(v, &TSI, &mut r); draw(d, ind, v, &TSI_USED, &r, true); Ok(()) }
pub fn caps(d: &mut Doc, ind: usize, v: &[u8]) -> Result<(), E> { want(v, 3)?; let mut r = vec![]; flags(v, &CAPS, &mut r); draw(d, ind, v, &CAPS_USED, &r, true); Ok(()) }
pub fn addcaps(d: &mut Doc, ind: usize, v: &[u8]) -> Result<(), E> { want(v, 5)?; let mut r = vec![]; flags(v, &ADDCAPS, &mut r); draw(d, ind, v, &ADDCAPS_USED, &r, true); Ok(()) }
static AC2: [&str; 4] = ["AAC (Application Authentication Cryptogram)", "TC (Transaction Certificate)", "Second GENERATE AC not requested", "RFU (Reserved For Use)"];
static AC1: [&str; 4] = ["AAC (Application Authentication Cryptogram)", "TC (Transaction Certificate)", "ARQC (Authorization Request Cryptogram)", "RFU (Reserved For Use)"];
pub fn cvr(d: &mut Doc, ind: usize, v: &[u8]) -> Result<(), E> {
    want(v, 5)?;
    let mut r = vec![
        Range { top: 0, len: 2, sev: N, lead: "Application cryptogram type returned in 2nd GENERATE AC: ", tail: AC2[(v[0] >> 6) as usize], num: None },
        Range { top: 2, len: 2, sev: N, lead: "Application cryptogram type returned in 1st GENERATE AC: ", tail: AC1[(v[0] >> 4 & 3) as usize], num: None },
    ];
    flags(v, &CVR[0..4], &mut r);
    r.push(Range { top: 8, len: 4, sev: N, lead: "PIN try count: ", tail: "", num: Some(v[1] >> 4) });
    flags(v, &CVR[4..16], &mut r);
    r.push(Range { top: 24, len: 4, sev: N, lead: "Number of successfully processed issuer script commands containing secure messaging: ", tail: "", num: Some(v[3] >> 4) });
    flags(v, &CVR[16..20], &mut r);
    draw(d, ind, v, &CVR_USED, &r, true);
    Ok(())
}
pub fn iad(d: &mut Doc, ind: usize, v: &[u8]) -> Result<(), E> {
    if v.len() != 32 { return Err(E::NonCcd); }
    if v[0] != 15 || v[16] != 15 { return Err(E::NonCcd); }
    let cv = match v[1] { 0xA5 => "Triple DES (3DES)", 0xA6 => "AES", _ => return Err(E::NonCcd) };
    d.ind(ind); d.header_line("Common Core Identifier:");
    let r = [Range { top: 0, len: 4, sev: N, lead: "IAD Format Code: ", tail: "Format A", num: None }, Range { top: 4, len: 4, sev: N, lead: "Cryptogram Version: ", tail: cv, num: None }];
    draw(d, ind + 1, &v[1..2], &[0xFF], &r, true);
    d.ind(ind); d.header("Derivation Key Index:"); d.s(" 0x"); d.hex(v[2]); d.nl();
    d.ind(ind); d.header_line("Card Verification Results:");
    cvr(d, ind + 1, &v[3..8])?;
    d.ind(ind); d.header_line("Counters: (Payment System-Specific)");
    d.hexline(&v[8..16], ind + 1);
    d.ind(ind); d.header_line("Issuer-Discretionary Data");
    d.hexline(&v[17..32], ind + 1);
    Ok(())
}
static METHOD_NAMES: [&str; 10] = [
    "Unknown (likely issuer or payment system-specific)", "Fail CVM processing", "Plaintext PIN verification performed by ICC", "Enciphered PIN verified online",
    "Plaintext PIN verification performed by ICC and signature (paper)", "Enciphered PIN verification performed by ICC", "Enciphered PIN verification performed by ICC and signature (paper)",
    "Signature (paper)", "No CVM required", "No CVM performed",
];
static METHOD: [u8; 64] = { let mut t = [0u8; 64]; let mut i = 0; while i < 6 { t[i] = i as u8 + 1; i += 1; } t[0x1E] = 7; t[0x1F] = 8; t[0x3F] = 9; t };
static CONDITION_NAMES: [&str; 11] = [
    "Always", "If unattended cash", "If not unattended cash and not manual cash and not purchase with cashback", "If terminal supports the CVM", "If manual cash", "If purchase with cashback",
    "If transaction is in the application currency and is under X value", "If transaction is in the application currency and is over X value",
    "If transaction is in the application currency and is under Y value", "If transaction is in the application currency and is over Y value",
    "Unknown (likely payment system-specific)",
];
fn condition(c: u8) -> &'static str { CONDITION_NAMES[if c <= 9 { c as usize } else { 10 }] }
pub fn cvmr(d: &mut Doc, ind: usize, v: &[u8]) -> Result<(), E> {
    want(v, 3)?;
    let (rt, rs) = match v[2] { 0 => ("Unknown", N), 1 => ("Failed", X), 2 => ("Successful", N), _ => return Err(E::NonCompliant) };
    let mut r = vec![];
    if v[0] & 0x40 != 0 { r.push(Range { top: 1, len: 1, sev: N, lead: "Apply succeeding CV Rule if this CVM is unsuccessful", tail: "", num: None }); }
    r.push(Range { top: 2, len: 6, sev: N, lead: "Method: ", tail: METHOD_NAMES[METHOD[(v[0] & 0x3F) as usize] as usize], num: None });
    r.push(Range { top: 8, len: 8, sev: N, lead: "Condition: ", tail: condition(v[1]), num: None });
    r.push(Range { top: 16, len: 8, sev: rs, lead: "Result: ", tail: rt, num: None });
    draw(d, ind, v, &CVMR_USED, &r, true);
    Ok(())
}
fn digits(n: u32) -> usize { let mut k = 1; let mut lim = 10u64; while n as u64 >= lim { k += 1; lim *= 10; } k }
pub fn cvm_list(d: &mut Doc, ind: usize, v: &[u8]) -> Result<(), E> {
    if v.len() < 8 { return Err(E::Count(2, 8, v.len())); }
    if v.len() % 2 != 0 { return Err(E::Indivisible); }
    let be = |k: usize| (v[k] as u32) << 24 | (v[k + 1] as u32) << 16 | (v[k + 2] as u32) << 8 | v[k + 3] as u32;
    let (x, y) = (be(0), be(4));
    let rules = &v[8..];
    let mut show = x != 0 || y != 0;
    let mut i = 1;
    while i < rules.len() && !show { if rules[i] >= 6 && rules[i] <= 9 { show = true; } i += 2; }
    if show {
        let (a, c) = (digits(x), digits(y));
        let w = if a > c { a } else { c };
        let w = if w < 3 { 3 } else { w };
        d.ind(ind); d.header("X Value:"); d.c(b' '); d.dec(x as u64, w); d.s(" (implicit decimal point based on application currency)"); d.nl();
        d.ind(ind); d.header("Y Value:"); d.c(b' '); d.dec(y as u64, w); d.nl();
    }
    d.ind(ind); d.header_line("Cardholder Verification Rules:");
    let mut i = 0;
    while i < rules.len() {
        d.ind(ind); d.esc("\x1b[0m\x1b[1m"); d.s("CVM "); d.dec(i as u64 / 2 + 1, 1); d.s(":\n"); d.esc("\x1b[0m");
        d.ind(ind + 1); d.bold("Method:         "); d.c(b' '); d.s(METHOD_NAMES[METHOD[(rules[i] & 0x3F) as usize] as usize]); d.nl();
        d.ind(ind + 1); d.bold("Condition:      "); d.c(b' '); d.s(condition(rules[i + 1])); d.nl();
        d.ind(ind + 1); d.bold("If Unsuccessful:"); d.s(if rules[i] & 0x40 != 0 { " Next CVM\n" } else { " Fail\n" });
        i += 2;
    }
    Ok(())
}
pub fn service_code(d: &mut Doc, ind: usize, n: u32) -> Result<(), E> {
    if n > 999 { return Err(E::Number); }
    let (p1, p2, p3) = (n / 100, n / 10 % 10, n % 10);
    let inter = match p1 { 1 | 2 => "International", 5 | 6 => "National", 7 => "Private", 9 => "Test", _ => "RFU" };
    let tech = if p1 == 2 || p1 == 6 { "Integrated circuit card (ICC)" } else { "Magnetic stripe only (MSR)" };
    let auth = match p2 { 0 => "Normal", 2 => "By issuer only (no offline authorisation)", 4 => "By issuer only unless an explicit bilateral agreement applies (no offline authorisation)", _ => "RFU" };
    let serv = match p3 { 0 | 1 | 6 => "No restrictions", 2 | 5 | 7 => "Goods and services only", 3 => "ATM only", 4 => "Cash only", _ => "RFU" };
    let pin = match p3 { 0 | 3 | 5 => "PIN required", 6 | 7 => "Prompt for PIN if PIN pad is present", _ => "None" };
    d.ind(ind); d.esc("\x1b[0m\x1b[1m"); d.dec(n as u64, 3); d.nl(); d.esc("\x1b[0m");
    d.ind(ind); d.s("\u{2502}\u{2502}\u{251c} "); d.bold("Allowed Services:"); d.s("         "); d.s(serv); d.nl();
    d.ind(ind); d.s("\u{2502}\u{2502}\u{2514} "); d.bold("PIN Requirements:"); d.s("         "); d.s(pin); d.nl();
    d.ind(ind); d.s("\u{2502}\u{2514}\u{2500} "); d.bold("Authorisation Processing:"); d.c(b' '); d.s(auth); d.nl();
    d.ind(ind); d.s("\u{251c}\u{2500}\u{2500} "); d.bold("Interchange:"); d.s("              "); d.s(inter); d.nl();
    d.ind(ind); d.s("\u{2514}\u{2500}\u{2500} "); d.bold("Technology:"); d.s("               "); d.s(tech); d.nl();
    Ok(())
}
/// The text of a service code: white space around it, an optional plus sign, decimal digits.
pub fn service_code_text(t: &[u8]) -> Result<u32, E> {
    let ws = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    let (mut a, mut z) = (0, t.len());
    while a < z && ws(t[a]) { a += 1; }
    while z > a && ws(t[z - 1]) { z -= 1; }
    if a < z && t[a] == b'+' { a += 1; }
    if a == z { return Err(E::Number); }
    let mut n = 0u32;
    while a < z { let c = t[a]; if c < b'0' || c > b'9' { return Err(E::Number); } n = n * 10 + (c - b'0') as u32; if n > 65535 { return Err(E::Number); } a += 1; }
    Ok(n)
}
fn service_code_bytes(v: &[u8]) -> Result<u32, E> {
    want(v, 2)?;
    let mut n = 0;
    for x in v { let (h, l) = ((x >> 4) as u32, (x & 15) as u32); if h > 9 || l > 9 { return Err(E::Number); } n = n * 100 + h * 10 + l; }
    Ok(n)
}
pub fn name_index(tag: &[u8]) -> u8 {
    match tag.len() {
        1 => TAG1[tag[0] as usize],
        2 => match tag[0] { 0x5F => TAG_5F[tag[1] as usize], 0x9F => TAG_9F[tag[1] as usize], 0xBF => TAG_BF[tag[1] as usize], _ => 0 },
        _ => 0,
    }
}
pub fn name(tag: &[u8]) -> &'static str { NAMES[name_index(tag) as usize] }
pub fn identify(d: &mut Doc, v: &[u8]) -> Result<(), E> {
    if v.is_empty() { return Err(E::Count(2, 1, 0)); }
    d.header("Name:"); d.s("             "); d.s(name(v)); d.nl();
    d.header("Tag:"); d.s("              0x"); d.esc("\x1b[0m\x1b[1m"); for x in v { d.hex(*x); } d.esc("\x1b[0m"); d.nl();
    d.header("Class:"); d.s("            "); d.s(["Universal", "Application", "Context-Specific", "Private"][(v[0] >> 6) as usize]); d.nl();
    d.header("Data Object Type:"); d.c(b' '); d.s(if v[0] & 0x20 != 0 { "Constructed" } else { "Primitive" }); d.nl();
    Ok(())
}

// ---- data objects
pub struct Node { pub tag: Vec<u8>, /// None = masked
    pub data: Option<Vec<u8>>, pub kids: Vec<Node> }
/// Masked: two or more characters, all the same masking character.
pub fn masked(v: &[u8], masks: &[u32]) -> bool {
    if v.len() < 2 { return false; }
    let mut i = 1;
    while i < v.len() { if v[i] != v[0] { return false; } i += 1; }
    let mut m = 0;
    while m < masks.len() { if v[0] as u32 == masks[m] { return true; } m += 1; }
    false
}
pub fn ber(v: &[u8], masks: &[u32]) -> Result<Vec<Node>, E> {
    let mut out = vec![];
    let mut p = 0;
    while p < v.len() {
        let t0 = p;
        p += 1;
        if v[t0] & 0x1F == 0x1F { loop { if p == v.len() { return Err(E::NonCompliant); } p += 1; if v[p - 1] & 0x80 == 0 { break; } } }
        let tag = v[t0..p].to_vec();
        if p == v.len() { return Err(E::NonCompliant); }
        let l0 = v[p];
        p += 1;
        let mut len = l0 as usize;
        if l0 & 0x80 != 0 {
            let k = (l0 & 0x7F) as usize;
            if k > 4 { return Err(E::Unsupported); }
            if v.len() - p < k { return Err(E::NonCompliant); }
            len = 0;
            for _ in 0..k { len = len << 8 | v[p] as usize; p += 1; }
        }
        if v.len() - p < len { return Err(E::NonCompliant); }
        let data = v[p..p + len].to_vec();
        p += len;
        out.push(node(tag, data, None, masks));
    }
    Ok(out)
}
fn node(tag: Vec<u8>, data: Vec<u8>, text_masked: Option<bool>, masks: &[u32]) -> Node {
    let m = match text_masked { Some(m) => m, None => masked(&data, masks) };
    if m { return Node { tag, data: None, kids: vec![] }; }
    let kids = if tag[0] & 0x20 != 0 { match ber(&data, masks) { Ok(k) => k, Err(_) => vec![] } } else { vec![] };
    Node { tag, data: Some(data), kids }
}
fn strict_hex(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 2 != 0 { return None; }
    let mut o = Vec::with_capacity(t.len() / 2);
    let mut i = 0;
    while i < t.len() { let (h, l) = (NIBBLE[t[i] as usize], NIBBLE[t[i + 1] as usize]); if h == 0xFF || l == 0xFF { return None; } o.push(h << 4 | l); i += 2; }
    Some(o)
}
pub fn ingenico(t: &[u8], masks: &[u32]) -> Result<Vec<Node>, E> {
    for c in t { if *c >= 0x80 { return Err(E::NonCompliant); } }
    let bad = Err(E::NonCompliant);
    let mut out = vec![];
    let mut p = 0;
    while p < t.len() {
        let kind = t[p];
        p += 1;
        let field = |p: usize| { let mut q = p; while q < t.len() && t[q] != b':' { q += 1; } q };
        let q = field(p);
        if q == t.len() { return bad; }
        let mut tag = match strict_hex(&t[p..q]) { Some(x) => x, None => return bad };
        if tag.is_empty() { return bad; }
        let mut z = 0;
        while z + 1 < tag.len() && tag[z] == 0 { z += 1; }
        tag = tag[z..].to_vec();
        p = q + 1;
        if p == t.len() { return bad; }
        let q = field(p);
        if q == t.len() { return bad; }
        let lb = match strict_hex(&t[p..q]) { Some(x) => x, None => return bad };
        if lb.is_empty() { return bad; }
        if lb.len() > 4 { return Err(E::Unsupported); }
        let mut len = 0usize;
        for x in &lb { len = len << 8 | *x as usize; }
        p = q + 1;
        if p == t.len() { return bad; }
        let form = t[p];
        p += 1;
        if form != b'a' && form != b'h' { return bad; }
        let chars = if form == b'h' { len * 2 } else { len };
        if t.len() - p < chars { return bad; }
        let body = &t[p..p + chars];
        p += chars;
        let m = masked(body, masks);
        let data = if m { vec![] } else if form == b'a' { body.to_vec() } else { match strict_hex(body) { Some(x) => x, None => return bad } };
        p += 1;
        if kind == b'T' { out.push(node(tag, data, Some(m), masks)); }
    }
    Ok(out)
}
/// Prints the interpretation of a value, if its tag has one.
/// Ok(Some(name)): print the name instead and no interpretation.
fn interpret(d: &mut Doc, ind: usize, tag: &[u8], v: &[u8]) -> Result<Option<&'static str>, E> {
    let k = if tag.len() == 1 { tag[0] as u32 } else if tag.len() == 2 { (tag[0] as u32) << 8 | tag[1] as u32 } else { 0 };
    let code = |d: &mut Doc, idx: &[u8; 256], names: &[&'static str], un: &'static str| -> Result<Option<&'static str>, E> {
        want(v, 1)?;
        let i = idx[v[0] as usize];
        if i == 0 { return Ok(Some(un)); }
        d.ind(ind); d.s(names[i as usize]); d.nl();
        Ok(None)
    };
    match k {
        0x5F30 => { let n = service_code_bytes(v)?; service_code(d, ind, n)?; }
        0x8A => {
            const UN: &str = "Authorisation Response Code (Unrecognised - likely payment system-specific)";
            want(v, 2)?;
            let (a, z) = (v[0], v[1]);
            if a >= 0x80 || z >= 0x80 { return if a >= 0xC2 && a <= 0xDF && z >= 0x80 && z <= 0xBF { Ok(Some(UN)) } else { Err(E::Number) }; }
            if a < b'0' || a > b'9' || z < b'0' || z > b'9' { return Ok(Some(UN)); }
            let t = ARC[((a - b'0') * 10 + (z - b'0')) as usize];
            if t.is_empty() { return Ok(Some(UN)); }
            d.ind(ind); d.s(t); d.nl();
        }
        0x8E => cvm_list(d, ind, v)?,
        0x95 => tvr(d, ind, v, true)?,
        0x9B => tsi(d, ind, v)?,
        0x9C => return code(d, &TXN_IDX, &TXN, "Transaction Type (Unrecognised - likely payment system-specific)"),
        0x9F0D | 0x9F0E | 0x9F0F => {
            want(v, 5)?;
            d.ind(ind);
            d.header_line(match k { 0x9F0D => "If not an online transaction and any of the following match the TVR, reject the transaction:", 0x9F0E => "If any of the following match the TVR, deny the transaction without even going online:", _ => "If any of the following match the TVR, complete the transaction online:" });
            tvr(d, ind, v, false)?;
        }
        0x9F10 => match iad(d, ind, v) { Err(E::NonCcd) => return Ok(Some("Issuer Application Data (Not CCD-Compliant)")), r => r? },
        0x9F33 => caps(d, ind, v)?,
        0x9F34 => cvmr(d, ind, v)?,
        0x9F35 => return code(d, &TERM_IDX, &TERM, "Terminal Type (Unrecognised - likely payment system-specific)"),
        0x9F39 => return code(d, &POS_IDX, &POS, "POS Entry Mode (Unrecognised - likely payment system-specific)"),
        0x9F40 => addcaps(d, ind, v)?,
        _ => {}
    }
    Ok(None)
}
/// Is the tag bigger, so that it sorts after the other one?
fn after(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    while i < a.len() && i < b.len() { if a[i] != b[i] { return a[i] > b[i]; } i += 1; }
    a.len() > b.len()
}
fn sorted(ns: &[Node]) -> Vec<usize> {
    let mut o: Vec<usize> = vec![];
    for i in 0..ns.len() { let mut k = o.len(); while k > 0 && after(&ns[o[k - 1]].tag, &ns[i].tag) { k -= 1; } o.insert(k, i); }
    o
}
/// Every value is looked at in the order of the input, before anything is printed.
fn first_error(ns: &[Node]) -> Result<(), E> {
    let mut scratch = Doc::new(false);
    for n in ns {
        if let Some(v) = &n.data { scratch.b.clear(); interpret(&mut scratch, 0, &n.tag, v)?; }
        first_error(&n.kids)?;
    }
    Ok(())
}
pub fn report(d: &mut Doc, ind: usize, ns: &[Node], sort: bool) {
    let order = if sort { sorted(ns) } else { (0..ns.len()).collect() };
    for (k, i) in order.iter().enumerate() {
        let n = &ns[*i];
        if k > 0 { d.nl(); }
        let mut parsed = Doc::new(d.colour);
        let mut nm = name(&n.tag);
        if let Some(v) = &n.data { match interpret(&mut parsed, ind + 1, &n.tag, v) { Ok(Some(x)) => nm = x, Ok(None) => {} Err(_) => {} } }
        d.ind(ind); d.header("Tag:"); d.s(" 0x"); d.esc("\x1b[0m\x1b[1m"); for x in &n.tag { d.hex(*x); } d.esc("\x1b[0m"); d.s(" - ");
        match &n.data { None => d.s("??"), Some(v) => d.dec(v.len() as u64, 1) }
        d.s(match &n.data { Some(v) if v.len() == 1 => " byte - ", _ => " bytes - " });
        d.s(nm); d.nl();
        match &n.data {
            None => { d.ind(ind); d.header_line("* Masked *"); }
            Some(v) => if !v.is_empty() { d.ind(ind); d.header_line("Raw:"); d.dump(v, ind + 1); }
        }
        if !parsed.b.is_empty() { d.ind(ind); d.header_line("Parsed:"); let p = parsed.b; d.b.extend_from_slice(&p); }
        if !n.kids.is_empty() { d.ind(ind); d.header_line("Constructed Data Object's Child Tags:"); report(d, ind + 1, &n.kids, sort); }
    }
}
pub fn lenient_hex(t: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len() / 2 + 1);
    let mut half = 0xFFu8;
    for c in t { let n = NIBBLE[*c as usize]; if n == 0xFF { continue; } if half == 0xFF { half = n; } else { o.push(half << 4 | n); half = 0xFF; } }
    o
}
fn tlv(d: &mut Doc, format: Option<&str>, ns: Vec<Node>, o: &Opts) -> Result<(), E> {
    first_error(&ns)?;
    if let Some(f) = format { d.header("TLV Format: "); d.s(f); d.s("\n\n"); }
    report(d, 0, &ns, o.sort);
    Ok(())
}
/// What a run must print on (standard output, standard error).
pub fn expected(op: Op, t: &[u8], o: &Opts) -> (Vec<u8>, Vec<u8>) {
    let mut d = Doc::new(o.colour);
    let bytes = || lenient_hex(t);
    let r = match op {
        Op::Tvr => tvr(&mut d, 0, &bytes(), true),
        Op::Iad => iad(&mut d, 0, &bytes()),
        Op::Cvr => cvr(&mut d, 0, &bytes()),
        Op::Tsi => tsi(&mut d, 0, &bytes()),
        Op::CvmResults => cvmr(&mut d, 0, &bytes()),
        Op::CvmList => cvm_list(&mut d, 0, &bytes()),
        Op::Identify => identify(&mut d, &bytes()),
        Op::ServiceCode => service_code_text(t).and_then(|n| service_code(&mut d, 0, n)),
        Op::Ber => ber(&bytes(), o.masks).and_then(|n| tlv(&mut d, None, n, o)),
        Op::Ingenico => ingenico(t, o.masks).and_then(|n| tlv(&mut d, None, n, o)),
        Op::Auto => match ingenico(t, o.masks) {
            Ok(n) if !t.is_empty() => tlv(&mut d, Some("Ingenico"), n, o),
            _ => { let v = bytes(); if v.is_empty() { Err(E::Unrecognised) } else { match ber(&v, o.masks) { Ok(n) => tlv(&mut d, Some("BER-TLV"), n, o), Err(_) => Err(E::Unrecognised) } } }
        },
    };
    match r { Ok(()) => (d.b, vec![]), Err(e) => (vec![], message(e)) }
}
pub fn message(e: E) -> Vec<u8> {
    let mut d = Doc::new(false);
    match e {
        E::Count(kind, want, found) => {
            d.s("The wrong number of bytes were provided for the value. Perhaps you provided the wrong value? Expected: ");
            d.s(if kind == 1 { "exactly" } else { "greater than or equal to" });
            d.c(b' '); d.dec(want as u64, 1); d.s(", Found: "); d.dec(found as u64, 1);
        }
        E::Indivisible => d.s("The number of bytes provided is not divisible into the components of the value. Please check the format of the input data."),
        E::Bytes => d.s("The bytes provided are not valid."),
        E::Number => d.s("The value provided is not a valid number, or is too large."),
        E::NonCompliant => d.s("The value provided isn't compliant with the specifications in some way, or this tool is out of date. If you have reason to believe it's the latter, please make sure you're using the latest version then open an issue on GitHub."),
        E::NonCcd => d.s("The value provided isn't compliant with the EMV Common Core Definitions (CCD) in some way. This isn't a problem necessarily, but it does mean that the value can't be parsed."),
        E::Unsupported => d.s("The value provided is in some way unsupported. If you have genuine need for the unsupported feature, please open an issue on GitHub."),
        E::Unrecognised => d.s("The value provided is in some way unrecognised. This isn't a problem necessarily, but it does mean that the value can't be parsed."),
    }
    d.nl();
    d.b
}
