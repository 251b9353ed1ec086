//! The cases of the checks: case = property * 100 + kind, param = variant.
use crate::{kit::*, spec::*, sx};

pub const OPS: [Op; 11] = [Op::Tvr, Op::Iad, Op::Cvr, Op::Tsi, Op::CvmResults, Op::CvmList, Op::Identify, Op::Auto, Op::Ber, Op::Ingenico, Op::ServiceCode];
pub fn f(p: u32, i: u32) -> usize { (p >> (8 * i) & 0xFF) as usize }
pub fn ascii_text(n: usize) -> Vec<u8> { let mut v = vec![]; for _ in 0..n { v.push(ascii()); } v }
pub fn sort_of(b: usize) -> &'static Opts<'static> { if b == 0 { &PLAIN } else { &UNSORTED } }
pub fn block1(tag: &[u8], v: &[u8]) -> Vec<u8> { let mut b = vec![]; tlv(&mut b, tag, v, 0); b }

pub fn entry(case: u32, p: u32) {
    match case {
        1 => { sx::begin(); sx::arg(b"--tvr"); sx::arg(b"0000000000"); sx::run(); sx::begin(); sx::arg(b"--auto"); sx::arg(b"E103C10141"); sx::run(); sx::begin(); sx::arg(b"--ingenico"); sx::arg(b"T9A:01:h55"); sx::run(); }
        // ---- BER-TLV
        // symbolic tag of f0 bytes, f1 value bytes (f3 of them symbolic), length form f2
        101 => { let t = sym_tag(f(p, 0)); let mut v = syms(f(p, 3)); while v.len() < f(p, 1) { v.push(0x5A ^ v.len() as u8); } let mut b = vec![]; tlv(&mut b, &t, &v, f(p, 2)); exact_hex(Op::Ber, &b, &UNSORTED); }
        // plain tag of f0 bytes, length form f1, f2 + 256*f3 value bytes, the first up to 96 symbolic
        102 => { let t = plain_tag(f(p, 0)); let n = f(p, 2) | f(p, 3) << 8; let mut v = syms(if n < 96 { n } else { 96 }); while v.len() < n { v.push((v.len() * 7) as u8); } if n >= 2 { sx::assume(v[0] != b'*'); } let mut b = vec![]; tlv(&mut b, &t, &v, f(p, 1)); exact_hex(Op::Ber, &b, &PLAIN); }
        // f0 objects, symbolic one-byte private tags, sizes from f1 (2 bits each), symbolic values, length forms from f2, sorted or not
        103 => {
            let mut b = vec![];
            for i in 0..f(p, 0) { let t = 0xC0 | below(0x1F); let n = f(p, 1) >> (2 * i) & 3; let v = syms(n); if n > 1 { sx::assume(v[0] != b'*'); } tlv(&mut b, &[t], &v, (f(p, 2) >> (2 * i) & 3) as usize); }
            exact_hex(Op::Ber, &b, sort_of(f(p, 3)));
        }
        // f0 fully symbolic bytes after prefix f1 and before suffix f2
        104 | 203 => { let mut b = prefix(f(p, 1)); let v = syms(f(p, 0)); b.extend_from_slice(&v); b.extend_from_slice(&suffix(f(p, 2))); exact_hex(Op::Ber, &b, &UNSORTED); }
        // symbolic length bytes: prefix f1, tag, f0 (0 = short, else 0x80+f0) length bytes symbolic (only the last one free to vary over all values when f3), f2 more bytes
        105 => {
            let mut b = prefix(f(p, 1));
            b.push(0xC2);
            let k = f(p, 0);
            if k > 0 { b.push(0x80 | k as u8); }
            for i in 0..k.max(1) { if i + 1 < k.max(1) && f(p, 3) != 0 { b.push(0); } else { b.push(sx::sym()); } }
            for i in 0..f(p, 2) { b.push(if i == 0 { 0x11 } else { 0 }); }
            exact_hex(Op::Ber, &b, &UNSORTED);
        }
        // catalogue: symbolic second byte of a two-byte tag f0, empty or small value
        106 => { let x = sx::sym(); sx::assume(x < 0x80); let v = vec![0x33; f(p, 1)]; exact_hex(Op::Ber, &block1(&[f(p, 0) as u8, x], &v), &UNSORTED); }
        // one interpreted object f0 among plain ones, symbolic plain values
        107 => { let mut b = vec![]; let v = syms(2); sx::assume(v[0] != b'*'); tlv(&mut b, &[0xC4], &v, 0); tlv(&mut b, KNOWN[f(p, 0)].0, &valid(f(p, 0)), f(p, 1)); tlv(&mut b, &[0x9F, 0x7A], &syms(1), 1); exact_hex(Op::Ber, &b, sort_of(f(p, 2))); }
        // ---- malformed BER-TLV
        // template f0 cut after f1 bytes
        201 => { let mut b = template(f(p, 0)); b.truncate(f(p, 1)); exact_hex(Op::Ber, &b, &PLAIN); }
        // prefix f1, tag, length-of-length symbolic (from 0x80 up), f0 symbolic or zero bytes
        202 => { let mut b = prefix(f(p, 1)); b.push(0xC3); let l = sx::sym(); sx::assume(l >= 0x80); b.push(l); for i in 0..f(p, 0) { b.push(if i == 5 && f(p, 2) != 0 { sx::sym() } else { 0 }); } exact_hex(Op::Ber, &b, &PLAIN); }
        // unfinished tag: prefix f1, first byte ..11111, f0 continuation bytes
        204 => { let mut b = prefix(f(p, 1)); let t = sx::sym(); sx::assume(t & 0x1F == 0x1F); b.push(t); for _ in 0..f(p, 0) { let x = sx::sym(); sx::assume(x >= 0x80); b.push(x); } exact_hex(Op::Ber, &b, &PLAIN); }
        // ---- any text, any option: option f0, f1 symbolic ASCII characters after text f2
        301 => { let mut t = odd_text(f(p, 2)); let s = ascii_text(f(p, 1)); t.extend_from_slice(&s); sx::assume(!t.is_empty()); one_answer(&invoke(OPS[f(p, 0)], &t, &PLAIN)); }
        // a symbolic two-byte character (U+80..U+7FF), three-byte for f1 = 1, inside text f2
        302 => {
            let mut t = odd_text(f(p, 2));
            if f(p, 1) == 0 { let (a, b) = (sx::sym(), sx::sym()); sx::assume(a >= 0xC2 && a <= 0xDF && b & 0xC0 == 0x80); t.push(a); t.push(b); } else { let (a, b, c) = (sx::sym(), sx::sym(), sx::sym()); sx::assume(a >= 0xE1 && a <= 0xEC && b & 0xC0 == 0x80 && c & 0xC0 == 0x80); t.push(a); t.push(b); t.push(c); }
            if f(p, 3) != 0 { t.extend_from_slice(b"01"); }
            one_answer(&invoke(OPS[f(p, 0)], &t, &PLAIN));
        }
        // huge declared lengths, BER: 84 and four bytes of which f0 is symbolic, others 0xFF / 0x00
        303 => { let mut b = vec![if f(p, 2) != 0 { 0xE1 } else { 0xC1 }, 0x84]; for i in 0..4 { b.push(if i == f(p, 0) { sx::sym() } else if f(p, 1) != 0 { 0xFF } else { 0 }); } b.extend_from_slice(&[1, 2, 3]); one_answer(&invoke(Op::Ber, &hex(&b), &PLAIN)); }
        // the same, Ingenico: f0 = position of the symbolic digit among eight
        304 => { let mut t = b"TC1:".to_vec(); for i in 0..8 { t.push(if i == f(p, 0) { ascii() } else if f(p, 1) != 0 { b'F' } else { b'0' }); } t.push(b':'); t.push(if f(p, 2) == 0 { b'h' } else { b'a' }); t.extend_from_slice(b"0102"); one_answer(&invoke(Op::Ingenico, &t, &PLAIN)); }
        // deep nesting: f0 + 256*f1 levels around f2 symbolic bytes
        305 => { let b = nest(f(p, 0) | f(p, 1) << 8, &syms(f(p, 2))); one_answer(&invoke(Op::Ber, &hex(&b), &PLAIN)); }
        // bytes of the right or nearly the right size, symbolic window
        306 => { let op = OPS[f(p, 0)]; let n = f(p, 1); let mut v = background(n, f(p, 3) as u32); if n > 0 { let i = f(p, 2); v[i] = sx::sym(); if i + 1 < n && n > 8 && op != Op::CvmList { v[i + 1] = sx::sym(); } } one_answer(&invoke(op, &hex(&v), &PLAIN)); }
        // every interpreted tag with every size and symbolic first and last byte
        307 => { let n = f(p, 1); let mut v = background(n, f(p, 2) as u32); if n > 0 { v[n - 1] = sx::sym(); } one_answer(&invoke(Op::Ber, &hex(&block1(KNOWN[f(p, 0)].0, &v)), &PLAIN)); }
        // text of every option, symbolic at position f1 of f2 characters
        308 => { let n = f(p, 2); let mut t = vec![]; for i in 0..n { t.push(if i == f(p, 1) || i == f(p, 1) + 1 { ascii() } else { b"0T1:9Fa*"[i % 8] }); } one_answer(&invoke(OPS[f(p, 0)], &t, &PLAIN)); }
        // ---- nesting
        // symbolic tag, value = one child, sibling behind
        401 => { let t = sym_tag(f(p, 0)); let inner = block1(&[0xC7], &[sx::sym()]); let mut b = vec![]; tlv(&mut b, &t, &inner, f(p, 1)); tlv(&mut b, &[0xC9], &[7], 0); exact_hex(Op::Ber, &b, &UNSORTED); }
        // chain of f0 + 256*f1 levels around symbolic bytes f2, trailing sibling at each level when f3
        402 => { let mut b = block1(&[0xC5], &syms(f(p, 2))); for i in 0..(f(p, 0) | f(p, 1) << 8) { let mut o = vec![]; tlv(&mut o, if i % 2 == 0 { &[0xE2] } else { &[0xFF, 0x21] }, &b, 0); if f(p, 3) != 0 { tlv(&mut o, &[0xC6], &[i as u8], 0); } b = o; } exact_hex(Op::Ber, &b, &PLAIN); }
        // the value of a constructed object is f0 fully symbolic bytes after prefix f1, then a sibling
        403 => { let mut v = prefix(f(p, 1)); v.extend_from_slice(&syms(f(p, 0))); let mut b = vec![]; tlv(&mut b, if f(p, 2) == 0 { &[0xE3] } else { &[0x70] }, &v, 0); tlv(&mut b, &[0xC1], &[1], 0); exact_hex(Op::Ber, &b, sort_of(f(p, 3))); }
        // children at two levels with symbolic values; constructed bit of the inner tag symbolic
        404 => { let c = below(2) << 5; let mut k = vec![]; tlv(&mut k, &[0xC1 | c], &block1(&[0xC2], &syms(f(p, 0))), 0); tlv(&mut k, &[0xC3], &syms(1), f(p, 1)); let mut b = vec![]; tlv(&mut b, &[0xA5], &k, 0); tlv(&mut b, &[0x61], &block1(&[0x50], b"VISA"), 0); exact_hex(Op::Ber, &b, sort_of(f(p, 2))); }
        // template truncated inside a constructed value at f0
        405 => { let mut v = template(f(p, 0)); v.truncate(f(p, 1)); let b = block1(&[0xE8], &v); exact_hex(Op::Ber, &b, &PLAIN); }
        // constructed value carried by an Ingenico entry
        406 => { let mut v = prefix(f(p, 1)); v.extend_from_slice(&syms(f(p, 0))); let mut t = vec![]; ing(&mut t, &[0xE3], &v); t.push(b'/'); ing(&mut t, &[0xC1], &[1]); exact(Op::Ingenico, &t, &PLAIN); }
        // ---- masking
        // BER: tag f0, n = f1 symbolic bytes, mask set f2
        501 => { let v = syms(f(p, 1)); exact_hex(Op::Ber, &block1(MTAGS[f(p, 0)], &v), &Opts { colour: false, sort: true, masks: MASKS[f(p, 2)] }); }
        // Ingenico, format f3 (0 = h, 1 = a), n = f1 value bytes, symbolic characters
        502 => { let n = f(p, 1); let mut t = cat(b"T", &hex(MTAGS[f(p, 0)])); t.push(b':'); t.extend_from_slice(&ing_len(n)); t.push(b':'); t.push(if f(p, 3) == 0 { b'h' } else { b'a' }); let m = if f(p, 3) == 0 { 2 * n } else { n }; for i in 0..m { t.push(if f(p, 0) == 4 && i < m / 2 { b'*' } else { ascii() }); } exact(Op::Ingenico, &t, &Opts { colour: false, sort: true, masks: MASKS[f(p, 2)] }); }
        // long: n = f1 bytes, all the same symbolic byte but one symbolic at position f3
        503 => { let n = f(p, 1); let c = if f(p, 0) == 4 { b'*' } else { sx::sym() }; let mut v = vec![c; n]; v[f(p, 3)] = sx::sym(); exact_hex(Op::Ber, &block1(MTAGS[f(p, 0)], &v), &Opts { colour: false, sort: true, masks: MASKS[f(p, 2)] }); }
        // masked next to unmasked, and nested
        504 => { let c = sx::sym(); let n = f(p, 0); let mut k = vec![]; tlv(&mut k, &[0x95], &vec![c; n], 0); tlv(&mut k, &[0xC2], &[c], 0); let mut b = vec![]; tlv(&mut b, &[0xE4], &k, 0); tlv(&mut b, &[0xE5], &vec![c; n], 0); tlv(&mut b, &[0x9F, 0x10], &vec![c; n + 1], 0); let r = invoke(Op::Ber, &hex(&b), &PLAIN); judge(Op::Ber, &hex(&b), &PLAIN, &r); }
        // configured by one symbolic masking character
        505 => { let m = ascii(); sx::assume(m > 0x20 && m != b'-'); let v = syms(2); let ms = [m as u32]; sx::begin(); sx::arg(b"--masking"); sx::arg(&[m]); sx::arg(b"--ber-tlv"); let t = hex(&block1(&[0xC1], &v)); sx::arg(&t); let r = sx::run(); judge(Op::Ber, &t, &Opts { colour: false, sort: true, masks: &ms }, &r); }
        // ---- Ingenico
        // tag of f0 symbolic hex digits, f1 leading zero bytes, value f2 bytes
        601 => { let mut t = b"T".to_vec(); for _ in 0..f(p, 1) { t.extend_from_slice(b"00"); } for i in 0..f(p, 0) { t.push(if f(p, 3) >> i & 1 == 0 { one_of(b"0123456789ABCDEFabcdef") } else { b"9f1A"[i] }); } t.extend_from_slice(b":"); t.extend_from_slice(&ing_len(f(p, 2))); t.extend_from_slice(b":h"); for i in 0..f(p, 2) { t.extend_from_slice(&hex(&[0x20 + i as u8])); } exact(Op::Ingenico, &t, &UNSORTED); }
        // kinds and separators: three entries, symbolic kind f0 bits, symbolic separators
        602 => { let mut t = vec![]; for i in 0..3 { let mut e = vec![]; ing(&mut e, &[0xC1 + i as u8], &[0x41 + i as u8, 0x7F]); if f(p, 0) >> i & 1 != 0 { e[0] = ascii(); } t.extend_from_slice(&e); if i < 2 || f(p, 1) != 0 { t.push(if f(p, 0) >> (3 + i) & 1 != 0 { ascii() } else { b',' }); } } exact(Op::Ingenico, &t, sort_of(f(p, 2))); }
        // text value of n = f0 symbolic characters between two entries
        603 => { let n = f(p, 0) | f(p, 1) << 8; let mut t = vec![]; ing(&mut t, &[0x9A], &[0x21, 0x01, 0x02]); t.push(b'\n'); t.extend_from_slice(b"TDF02:"); t.extend_from_slice(&ing_len(n)); t.extend_from_slice(b":a"); let m = if n > 90 { 90 } else { n }; let s = ascii_text(m); if n > 1 { sx::assume(s[0] != b'*'); } t.extend_from_slice(&s); for i in m..n { t.push(b'a' + (i % 26) as u8); } t.push(b';'); ing(&mut t, &[0xC1], &[9]); exact(Op::Ingenico, &t, &PLAIN); }
        // hex value of n = f0 symbolic bytes in lower or upper case digits (f2), length spelled with f3 extra leading zero bytes
        604 => { let n = f(p, 0) | f(p, 1) << 8; let mut t = b"TC3:".to_vec(); for _ in 0..f(p, 3) { t.extend_from_slice(b"00"); } t.extend_from_slice(&ing_len(n)); t.extend_from_slice(b":h"); let m = if n > 24 { 24 } else { n }; let mut v = syms(m); while v.len() < n { v.push(v.len() as u8); } let mut h = hex(&v); if f(p, 2) != 0 { for c in h.iter_mut() { *c = c.to_ascii_lowercase(); } } t.extend_from_slice(&h); exact(Op::Ingenico, &t, &PLAIN); }
        // interpreted tags
        605 => { let mut t = vec![]; ing(&mut t, KNOWN[f(p, 0)].0, &valid(f(p, 0))); t.push(b' '); ing(&mut t, &[0x5A], &syms(2)); exact(Op::Ingenico, &t, sort_of(f(p, 1))); }
        // skipped entry with symbolic content (characters) of n = f0 bytes in format f1
        606 => { let n = f(p, 0); let mut t = vec![]; ing(&mut t, &[0xC1], &[5]); t.push(b','); t.push(one_of(b"ABCDSUVZt0")); t.extend_from_slice(b"9F99:"); t.extend_from_slice(&ing_len(n)); t.push(b':'); if f(p, 1) == 0 { t.push(b'h'); for _ in 0..2 * n { t.push(one_of(b"0123456789ABCDEFabcdef")); } } else { t.push(b'a'); t.extend_from_slice(&ascii_text(n)); } t.push(b','); ing(&mut t, &[0xC2], &[6]); exact(Op::Ingenico, &t, &PLAIN); }
        // ---- malformed Ingenico
        // template f0 cut after f1 characters, one symbolic byte in it
        701 => { let mut t = itemplate(f(p, 0)); t.truncate(f(p, 1)); exact(Op::Ingenico, &t, &PLAIN); }
        // template f0 with characters f1 and f2 (255 = none) replaced by symbolic ones
        702 | 901 => { let mut t = itemplate(f(p, 0)); let n = t.len(); if f(p, 1) < n { t[f(p, 1)] = ascii(); } if f(p, 2) < n { t[f(p, 2)] = ascii(); } if case == 702 { exact(Op::Ingenico, &t, &PLAIN) } else { auto(&t, f(p, 3)) } }
        // template f0 with a symbolic character inserted at f1
        703 => { let mut t = itemplate(f(p, 0)); t.insert(f(p, 1), ascii()); exact(Op::Ingenico, &t, &PLAIN); }
        // template f0 with a non-ASCII character inserted at f1
        704 => { let mut t = itemplate(f(p, 0)); let (a, b) = (sx::sym(), sx::sym()); sx::assume(a >= 0xC2 && a <= 0xDF && b & 0xC0 == 0x80); t.insert(f(p, 1), a); t.insert(f(p, 1) + 1, b); exact(Op::Ingenico, &t, &PLAIN); }
        // template f0 with character f1 removed, a symbolic one elsewhere (f2)
        705 => { let mut t = itemplate(f(p, 0)); t.remove(f(p, 1)); if f(p, 2) < t.len() { t[f(p, 2)] = ascii(); } exact(Op::Ingenico, &t, &PLAIN); }
        // f0 fully symbolic characters
        706 => { let t = ascii_text(f(p, 0)); exact(Op::Ingenico, &t, &PLAIN); }
        // length field of f0 hex digits, symbolic digits at f1 and f2
        707 => { let mut t = b"TC1:".to_vec(); for i in 0..f(p, 0) { t.push(if i == f(p, 1) || i == f(p, 2) { ascii() } else { b'0' }); } t.extend_from_slice(b":h0102"); exact(Op::Ingenico, &t, &PLAIN); }
        // ---- carriers
        // tag f0 of CTAGS, n = f1 symbolic bytes, text or hex
        801 => {
            let n = f(p, 1);
            let text = f(p, 2) != 0;
            let v = if text { ascii_text(n) } else { syms(n) };
            sx::assume(!masked(&v, &[b'*' as u32]));
            let t = CTAGS[f(p, 0)];
            let mut a = vec![]; tlv(&mut a, t, &v, 0); tlv(&mut a, &[0xC9], &[1, 2], 0);
            let mut i = vec![];
            if text { i.push(b'T'); i.extend_from_slice(&hex(t)); i.push(b':'); i.extend_from_slice(&ing_len(n)); i.extend_from_slice(b":a"); i.extend_from_slice(&v); } else { ing(&mut i, t, &v); }
            i.push(b',');
            ing(&mut i, &[0xC9], &[1, 2]);
            same(&invoke(Op::Ber, &hex(&a), &PLAIN), &invoke(Op::Ingenico, &i, &PLAIN), "the report depends on the carrier format");
        }
        // interpreted tag f0 with byte f1 symbolic, three-object block, both carriers, sorted or not
        802 => {
            let k = f(p, 0); let mut v = valid(k); v[f(p, 1)] = sx::sym();
            sx::assume(!masked(&v, &[b'*' as u32]));
            let (mut a, mut i) = (vec![], vec![]);
            tlv(&mut a, &[0xDF, 0x02], &[8], 0); ing(&mut i, &[0xDF, 0x02], &[8]); i.push(b'|');
            tlv(&mut a, KNOWN[k].0, &v, 0); ing(&mut i, KNOWN[k].0, &v); i.push(b'|');
            tlv(&mut a, &[0xE1], &block1(&[0xC1], &[sx::sym()]), 0); let l = a.len(); let inner = a[l - 3..].to_vec(); ing(&mut i, &[0xE1], &inner);
            let o = sort_of(f(p, 2));
            same(&invoke(Op::Ber, &hex(&a), o), &invoke(Op::Ingenico, &i, o), "the report depends on the carrier format");
        }
        // symbolic one- or two-byte tag
        803 => { let t = sym_tag(f(p, 0)); sx::assume(t[0] != 0); let v = vec![0x41; f(p, 1)]; let mut i = vec![]; ing(&mut i, &t, &v); same(&invoke(Op::Ber, &hex(&block1(&t, &v)), &PLAIN), &invoke(Op::Ingenico, &i, &PLAIN), "the report depends on the carrier format"); }
        // ---- detection
        902 => { let mut b = prefix(f(p, 1)); b.extend_from_slice(&syms(f(p, 0))); auto(&hex(&b), f(p, 2)) }
        903 => { let t = ascii_text(f(p, 0)); sx::assume(!t.is_empty()); auto(&t, 0) }
        904 => { let mut b = template(f(p, 0)); b.truncate(f(p, 1)); sx::assume(!b.is_empty()); auto(&hex(&b), 1) }
        905 => { let mut t = itemplate(f(p, 0)); t.truncate(f(p, 1)); auto(&t, 1) }
        // BER text with separators or prefixes in front, symbolic separator
        906 => { let s = ascii(); let mut t = odd_text(f(p, 0)); t.push(s); t.extend_from_slice(b"C1023132"); auto(&t, 1) }
        // ---- spelling of hex
        1001 => {
            // option f0, value of f1 valid bytes; letter case by symbolic choice, symbolic non-hex character inserted at f2 of the digits
            let op = OPS[f(p, 0)];
            let v = spelled(op);
            let h = hex(&v);
            let mut t = vec![];
            let at = f(p, 2);
            for (i, c) in h.iter().enumerate() {
                if i == at || (f(p, 3) != 0 && i == at + f(p, 3)) { let s = ascii(); sx::assume(NIBBLE[s as usize] == 0xFF); t.push(s); }
                if *c >= b'A' && i < 8 { let b = below(2); t.push(*c | b << 5); } else { t.push(*c); }
            }
            if at >= h.len() { let s = ascii(); sx::assume(NIBBLE[s as usize] == 0xFF); t.push(s); }
            if op == Op::Auto { sx::assume(t[0] != b'T'); }
            same(&invoke(op, &h, &PLAIN), &invoke(op, &t, &PLAIN), "the spelling of the hex digits changes the result");
        }
        // symbolic bytes, spelled with spaces, colons, dashes, newlines or lower case
        1002 => { let op = OPS[f(p, 0)]; let mut v = spelled(op); let k = f(p, 1); if k < v.len() { v[k] = sx::sym(); } let h = hex(&v); let mut t = vec![]; match f(p, 2) { 0 => { for (i, c) in h.iter().enumerate() { if i > 0 && i % 2 == 0 { t.push(b' '); } t.push(*c); } } 1 => { t.extend_from_slice(b"x\\x"); for c in h.iter() { t.push(c.to_ascii_lowercase()); } t.push(b'h'); } 2 => { for c in h.iter() { t.push(*c); t.push(b':'); } } 3 => { for (i, c) in h.iter().enumerate() { if i % 4 == 1 { t.push(b'-'); } t.push(*c); if i % 6 == 5 { t.push(b'\n'); } } } _ => { for c in h.iter() { t.extend_from_slice("\u{e9}\u{20ac}".as_bytes()); t.push(*c); } } } same(&invoke(op, &h, &PLAIN), &invoke(op, &t, &PLAIN), "the spelling of the hex digits changes the result"); }
        // an odd digit at the end, exact
        1003 => { let op = OPS[f(p, 0)]; let v = spelled(op); let mut h = hex(&v); let c = ascii(); let at = f(p, 1); if at < h.len() { h.insert(at, c); } else { h.push(c); } exact(op, &h, &PLAIN); }
        // ---- sorting
        1101 => {
            // f0 objects; tag shapes by f1 (2 bits each: 0 = one byte, 1 = two bytes, 2 = constructed, 3 = three bytes)
            let mut b = vec![];
            for i in 0..f(p, 0) {
                match f(p, 1) >> (2 * i) & 3 {
                    0 => tlv(&mut b, &[0xC0 | below(0x1F)], &[i as u8], 0),
                    1 => { let x = sx::sym(); sx::assume(x < 0x80); tlv(&mut b, &[0xDF, x], &[i as u8], 0) }
                    2 => { let mut k = vec![]; tlv(&mut k, &[0xC0 | below(0x1F)], &[0x80 | i as u8], 0); tlv(&mut k, &[0xC0 | below(0x1F)], &[0x40 | i as u8], 0); tlv(&mut b, &[0xE0 | below(4)], &k, 0) }
                    _ => { let x = sx::sym(); sx::assume(x < 0x80); tlv(&mut b, &[0xDF, 0x81, x], &[i as u8], 0) }
                }
            }
            exact_hex(if f(p, 3) == 0 { Op::Ber } else { Op::Auto }, &b, sort_of(f(p, 2)));
        }
        // catalogue tags in a given order with symbolic values, interpretations moving along
        1102 => { let mut b = vec![]; let mut k = f(p, 0); for i in 0..4 { tlv(&mut b, KNOWN[k].0, &valid(k), 0); k = (k * 7 + 4 + i) % 15; } tlv(&mut b, &[0x82], &syms(2), 0); exact_hex(Op::Ber, &b, sort_of(f(p, 1))); }
        // n = f0 objects over few symbolic tags (many equal): stability
        1103 => { let mut b = vec![]; for i in 0..f(p, 0) { let t = if i < 3 { 0xC1 + below(2) } else { 0xC1 + (i as u8 & 1) }; tlv(&mut b, &[t], &[i as u8], 0); } exact_hex(Op::Ber, &b, sort_of(f(p, 1))); }
        // sorting chosen by Ingenico carrier
        1104 => { let mut t = vec![]; for i in 0..f(p, 0) { if i > 0 { t.push(b','); } ing(&mut t, &[0xC0 | below(0x1F)], &[i as u8]); } exact(Op::Ingenico, &t, sort_of(f(p, 1))); }
        // ---- identification
        1201 => { let mut v = syms(f(p, 0)); for i in 0..f(p, 1) { v.push(0x80 | i as u8); } exact_hex(Op::Identify, &v, if f(p, 2) != 0 { &COLOUR } else { &PLAIN }); }
        1202 => { exact_hex(Op::Identify, &[f(p, 0) as u8, sx::sym()], &PLAIN) }
        1203 => { let t = sym_tag(f(p, 0)); let r = invoke(Op::Ber, &hex(&block1(&t, &[])), &PLAIN); judge(Op::Ber, &hex(&block1(&t, &[])), &PLAIN, &r); }
        1204 => { let t = ascii_text(f(p, 0)); sx::assume(!t.is_empty()); exact(Op::Identify, &t, &PLAIN); }
        // ---- a value in a block and alone
        1301 => {
            let k = f(p, 0);
            let op = KNOWN[k].2.unwrap();
            let mut v = valid(k);
            let sz = if f(p, 3) != 0 { f(p, 3) - 1 } else { v.len() };
            v.resize(sz, 0);
            if f(p, 1) < sz { v[f(p, 1)] = sx::sym(); }
            if k == 5 { if f(p, 2) != 255 { v[0] = f(p, 2) as u8; } } else if f(p, 2) < sz { v[f(p, 2)] = sx::sym(); }
            sx::assume(!masked(&v, &[b'*' as u32]));
            let text = if op == Op::ServiceCode { bcd(&v) } else { hexg(&v) };
            let alone = invoke(op, &text, &PLAIN);
            let block = invoke(Op::Ber, &hex(&block1(KNOWN[k].0, &v)), &PLAIN);
            sane(&alone); sane(&block);
            let at = line(&block.out, b"Parsed:");
            if alone.err.is_empty() {
                match at { Some(i) => sx::eq(&block.out[i + 8..], &deeper(&alone.out), "the value reads differently inside a block"), None => sx::check(false, "the value is not interpreted inside a block") }
            } else { sx::check(at.is_none(), "a value its own option refuses is interpreted inside a block"); }
        }
        // the same, nested one level
        1302 => {
            let k = f(p, 0); let op = KNOWN[k].2.unwrap(); let mut v = valid(k); if f(p, 1) < v.len() { v[f(p, 1)] = sx::sym(); }
            sx::assume(!masked(&v, &[b'*' as u32]));
            let text = if op == Op::ServiceCode { bcd(&v) } else { hexg(&v) };
            let alone = invoke(op, &text, &PLAIN);
            let mut i = vec![]; ing(&mut i, &[0x70], &block1(KNOWN[k].0, &v));
            let block = invoke(Op::Auto, &i, &PLAIN);
            sane(&alone); sane(&block);
            let at = line(&block.out, b"\tParsed:");
            if alone.err.is_empty() { match at { Some(i) => sx::eq(&block.out[i + 9..], &deeper(&deeper(&alone.out)), "the value reads differently inside a block"), None => sx::check(false, "the value is not interpreted inside a block") } } else { sx::check(at.is_none(), "a value its own option refuses is interpreted inside a block"); }
        }
        // ---- unrecognised and invalid values among others
        1401 => { let k = f(p, 0); let n = valid(k).len(); let mut v = valid(k); if f(p, 1) < n { v[f(p, 1)] = sx::sym(); } if k == 5 { v[0] = f(p, 2) as u8; } else if f(p, 2) < n { v[f(p, 2)] = sx::sym(); } let mut b = vec![]; tlv(&mut b, &[0xC1], &[0x31], 0); tlv(&mut b, KNOWN[k].0, &v, 0); tlv(&mut b, &[0xDF, 0x01], &[0x32], 0); if f(p, 3) & 2 != 0 { let o = block1(&[0xE9], &b); b = o; } exact_hex(Op::Ber, &b, sort_of(f(p, 3) & 1)); }
        // wrong size f1 for known tag f0
        1402 => { let k = f(p, 0); let n = f(p, 1); let mut v = background(n, 4 + f(p, 2) as u32); if n > 0 { v[0] = sx::sym(); } let mut b = vec![]; tlv(&mut b, &[0xC1], &[sx::sym()], 0); tlv(&mut b, KNOWN[k].0, &v, 0); tlv(&mut b, &[0xC2], &[2], 0); exact_hex(Op::Ber, &b, &PLAIN); }
        // a tag without interpretation: symbolic tag, f1 bytes
        1403 => { let t = sym_tag(f(p, 0)); for k in KNOWN.iter() { if k.0.len() == t.len() { let mut eq = true; for i in 0..t.len() { eq &= t[i] == k.0[i]; } sx::assume(!eq); } } let v = background(f(p, 1), f(p, 2) as u32); let r = invoke(Op::Ber, &hex(&block1(&t, &v)), &PLAIN); judge(Op::Ber, &hex(&block1(&t, &v)), &PLAIN, &r); sx::check(r.err.is_empty(), "a tag without an interpretation is refused"); }
        // ---- bit fields
        1501 => exact_hex(Op::Tvr, &window(5, p), &PLAIN),
        1601 => { let w = window(5, p & 0xFFFFFF); exact_hex(Op::Ber, &block1(KNOWN[12 + (p >> 24) as usize].0, &w), &PLAIN) }
        1602 => { // relation to --tvr
            let k = 12 + (p >> 24) as usize; let w = window(5, p & 0xFFFFFF); sx::assume(!masked(&w, &[b'*' as u32]));
            let a = invoke(Op::Tvr, &hex(&w), &PLAIN); let b = invoke(Op::Ber, &hex(&block1(KNOWN[k].0, &w)), &PLAIN); sane(&a); sane(&b);
            let at = line(&b.out, b"Parsed:");
            match at { Some(i) => { let mut e = b"\t".to_vec(); e.extend_from_slice([&b"If not an online transaction and any of the following match the TVR, reject the transaction:\n"[..], &b"If any of the following match the TVR, deny the transaction without even going online:\n"[..], &b"If any of the following match the TVR, complete the transaction online:\n"[..]][k - 12]); e.extend_from_slice(&deeper(&a.out)); sx::eq(&b.out[i + 8..], &e, "an action code is not explained like terminal verification results") } None => sx::check(false, "an action code is not interpreted") }
        }
        1603 => { let w = window(5, p & 0xFFFFFF); exact_hex(Op::Ber, &block1(KNOWN[12 + (p >> 24) as usize].0, &w), &COLOUR) }
        1701 => exact_hex(Op::Tsi, &window(2, p), &PLAIN),
        1702 => exact_hex(Op::Ber, &block1(&[0x9B], &window(2, p)), &PLAIN),
        1703 => exact_hex(Op::Ber, &block1(&[0x9F, 0x33], &window(3, p)), &PLAIN),
        1704 => exact_hex(Op::Ber, &block1(&[0x9F, 0x40], &window(5, p)), &PLAIN),
        1801 => exact_hex(Op::Cvr, &window(5, p), &PLAIN),
        // inside issuer application data: key index symbolic, byte f0 symbolic, background f1
        1802 => { let mut v = background(32, f(p, 1) as u32); v[0] = 15; v[16] = 15; v[1] = 0xA5; v[2] = sx::sym(); v[3 + f(p, 0)] = sx::sym(); if f(p, 2) == 0 { exact_hex(Op::Iad, &v, &PLAIN) } else { exact_hex(Op::Ber, &block1(&[0x9F, 0x10], &v), &PLAIN) } }
        // ---- issuer application data: background f0, symbolic bytes f1, f2; f3: 0 = compliant otherwise, else untouched background
        1901 => { let mut v = background(32, f(p, 0) as u32); if f(p, 3) == 0 { v[0] = 15; v[16] = 15; v[1] = if f(p, 0) & 1 == 0 { 0xA5 } else { 0xA6 }; } if f(p, 1) < 32 { v[f(p, 1)] = sx::sym(); } if f(p, 2) < 32 { v[f(p, 2)] = sx::sym(); } exact_hex(Op::Iad, &v, &PLAIN); }
        // all free bytes but the verification results symbolic
        1902 => { let mut v = background(32, f(p, 0) as u32); v[0] = 15; v[16] = 15; v[1] = 0xA5; v[2] = sx::sym(); for i in 8..16 { v[i] = sx::sym(); } for i in 17..32 { v[i] = sx::sym(); } exact_hex(Op::Iad, &v, &PLAIN); }
        // size f0
        1903 => { let mut v = background(f(p, 0), f(p, 1) as u32); if v.len() > 0 { v[0] = 15; } if v.len() > 1 { v[1] = 0xA5; } if v.len() > 16 { v[16] = 15; } if v.len() > 2 { v[2] = sx::sym(); } exact(Op::Iad, &hexg(&v), &PLAIN); }
        // the three markers symbolic, in a block
        1904 => { let mut v = background(32, f(p, 0) as u32); v[0] = 15; v[16] = 15; v[1] = 0xA5; v[[0, 1, 16][f(p, 1)]] = sx::sym(); v[[0, 1, 16][f(p, 2)]] = sx::sym(); exact_hex(Op::Ber, &block1(&[0x9F, 0x10], &v), &PLAIN); }
        // verification results inside: nibble windows
        1905 => { let w = window(5, p & 0xFFFFFF); let mut v = background(32, p >> 24); v[0] = 15; v[16] = 15; v[1] = 0xA6; v[3..8].copy_from_slice(&w); exact_hex(Op::Iad, &v, &PLAIN); }
        // ---- cardholder verification
        2001 => exact_hex(Op::CvmResults, &window(3, p), &PLAIN),
        2002 => exact_hex(Op::Ber, &block1(&[0x9F, 0x34], &window(3, p)), &PLAIN),
        // list: f0 rules, rule f1 symbolic, amounts by f2, other rules by f3
        2101 => { let mut v = amounts(f(p, 2)); for i in 0..f(p, 0) { if i == f(p, 1) { v.push(sx::sym()); v.push(sx::sym()); } else { v.push((i * 13 + f(p, 3)) as u8); v.push((i * 5 + f(p, 3)) as u8 % 6); } } exact_hex(Op::CvmList, &v, &PLAIN); }
        // amounts: byte f1 symbolic over background f2 (0, FF, digits), f0 rules
        2102 => { let mut v = match f(p, 2) { 0 => vec![0u8; 8], 1 => vec![0xFF; 8], 2 => vec![0, 0, 0x27, 0x0F, 0, 0, 0x03, 0xE7], _ => vec![0, 0x98, 0x96, 0x7F, 0x05, 0xF5, 0xE1, 0x00] }; v[f(p, 1)] = sx::sym(); for i in 0..f(p, 0) { v.push(0x40 | i as u8); v.push(i as u8); } exact_hex(Op::CvmList, &v, &PLAIN); }
        // size f0 (8 bytes needed, then pairs)
        2103 => { let mut v = background(f(p, 0), f(p, 1) as u32); if let Some(x) = v.last_mut() { *x = sx::sym(); } exact(if f(p, 2) == 0 { Op::CvmList } else { Op::Ber }, &hexg(&if f(p, 2) == 0 { v } else { block1(&[0x8E], &v) }), &PLAIN); }
        // all conditions symbolic, zero amounts: are the amounts shown?
        2104 => { let mut v = amounts(0); for i in 0..f(p, 0) { v.push(0x1F); v.push(if i < 2 { sx::sym() } else { 3 }); } exact_hex(Op::CvmList, &v, &PLAIN); }
        2105 => { let mut v = amounts(f(p, 2)); for _ in 0..f(p, 0) { v.push(0x40 | 2); v.push(sx::sym()); } exact_hex(Op::Ber, &block1(&[0x8E], &v), &PLAIN); }
        // ---- service code
        // text: f0 characters, of which positions f1 and f2 symbolic, the rest the digit f3
        2201 => { let mut t = vec![]; for i in 0..f(p, 0) { t.push(if i == f(p, 1) || i == f(p, 2) { ascii() } else { b'0' + f(p, 3) as u8 }); } exact(Op::ServiceCode, &t, &PLAIN); }
        2202 => { let mut v = vec![f(p, 0) as u8, f(p, 1) as u8]; if f(p, 2) & 1 != 0 { v[0] = sx::sym(); } if f(p, 2) & 2 != 0 { v[1] = sx::sym(); } exact_hex(Op::Ber, &block1(&[0x5F, 0x30], &v), &PLAIN); }
        // digits only: f0 = first digit, two symbolic digits
        2203 => { let (a, b) = (below(10), below(10)); let t = [b'0' + f(p, 0) as u8, b'0' + a, b'0' + b]; exact(Op::ServiceCode, &t, &PLAIN); }
        // ---- coded values
        2301 => { let t = [&[0x9C][..], &[0x9F, 0x35][..], &[0x9F, 0x39][..]][f(p, 0)]; exact_hex(Op::Ber, &block1(t, &[sx::sym()]), if f(p, 1) != 0 { &COLOUR } else { &PLAIN }); }
        2302 => exact_hex(Op::Ber, &block1(&[0x8A], &[sx::sym(), sx::sym()]), &PLAIN),
        // text entries
        2303 => { let mut t = b"T8A:02:a".to_vec(); t.push(ascii()); t.push(ascii()); exact(Op::Ingenico, &t, &PLAIN); }
        // ---- sizes
        2401 => { let mut v = background(f(p, 1), f(p, 2) as u32); if let Some(x) = v.first_mut() { *x = sx::sym(); } let op = OPS[f(p, 0)]; let t = if v.is_empty() { b"g".to_vec() } else { hex(&v) }; exact(op, &t, &PLAIN); }
        2402 => { let k = f(p, 0); let n = f(p, 1); let mut v = background(n, f(p, 2) as u32); if n > 0 { v[n - 1] = sx::sym(); } let b = block1(KNOWN[k].0, &v); exact_hex(Op::Ber, &b, &PLAIN); }
        // ---- reserved bits
        2501 => {
            let (tag, used, op): (&[u8], &[u8], Option<Op>) = match p >> 24 { 0 => (&[0x95], &TVR_USED, Some(Op::Tvr)), 1 => (&[0x9B], &TSI_USED, Some(Op::Tsi)), 2 => (&[0x9F, 0x33], &CAPS_USED, None), 3 => (&[0x9F, 0x40], &ADDCAPS_USED, None), 4 => (&[], &CVR_USED, Some(Op::Cvr)), 5 => (&[0x9F, 0x34], &CVMR_USED, Some(Op::CvmResults)), _ => (KNOWN[6 + (p >> 24) as usize].0, &TVR_USED, None) };
            let mut v = window(used.len(), p & 0xFFFFFF);
            if p >> 24 == 5 { sx::assume(v[2] < 3); }
            for i in 0..v.len() { v[i] &= used[i]; }
            let mut u = v.clone();
            for i in 0..v.len() { if used[i] != 0xFF { let r = sx::sym(); u[i] |= r & !used[i]; } }
            match op {
                Some(o) => same(&invoke(o, &hex(&v), &PLAIN), &invoke(o, &hex(&u), &PLAIN), "a reserved bit changes the report"),
                None => {
                    sx::assume(!masked(&v, &[b'*' as u32]) && !masked(&u, &[b'*' as u32]));
                    let (a, b) = (invoke(Op::Ber, &hex(&block1(tag, &v)), &PLAIN), invoke(Op::Ber, &hex(&block1(tag, &u)), &PLAIN));
                    sane(&a); sane(&b);
                    match (line(&a.out, b"Parsed:"), line(&b.out, b"Parsed:")) { (Some(i), Some(j)) => sx::eq(&a.out[i..], &b.out[j..], "a reserved bit changes the report"), _ => sx::check(false, "a bit field is not interpreted") }
                }
            }
        }
        // reserved bits of rules of a verification list
        2502 => { let mut v = amounts(1); for i in 0..f(p, 0) { v.push(if i == f(p, 1) { sx::sym() & 0x7F } else { 0x42 }); v.push(3); } let mut u = v.clone(); let r = sx::sym() & 0x80; for i in 0..f(p, 0) { u[8 + 2 * i] |= r; } same(&invoke(Op::CvmList, &hex(&v), &PLAIN), &invoke(Op::CvmList, &hex(&u), &PLAIN), "a reserved bit changes the report"); }
        // ---- colour
        2601 => { let (op, t) = colour_input(f(p, 0), f(p, 1), f(p, 2)); let a = invoke(op, &t, &PLAIN); let b = invoke(op, &t, &COLOUR); sane(&a); sane(&b); sx::eq(&unstyled(&b.out), &a.out, "colour changes the text"); sx::eq(&a.err, &b.err, "colour changes the error"); for c in &a.out { sx::check(*c != 0x1B, "an escape sequence without colour"); } judge(op, &t, &COLOUR, &b); }
        2602 => { let (op, t) = colour_input(f(p, 0), f(p, 1), f(p, 2)); sx::begin(); if f(p, 3) > 0 { sx::arg([&b"--color=ansi"[..], b"--colour=ansi", b"--colour=auto", b"--colour=never"][f(p, 3) - 1]); } let mut x = long(op).as_bytes().to_vec(); x.push(b'='); x.extend_from_slice(&t); sx::arg(&x); let r = sx::run(); judge(op, &t, if f(p, 3) == 1 || f(p, 3) == 2 { &COLOUR } else { &PLAIN }, &r); }
        2603 => { let w = window(5, p & 0xFFFFFF); exact_hex([Op::Tvr, Op::Cvr][(p >> 24) as usize], &w, &COLOUR) }
        // ---- settings
        2701 => settings(p),
        2702 => masking_sources(p),
        2703 => spellings(p),
        // ---- what reaches the terminal
        2801 => { let mut b = vec![]; let t = [&[0xC1][..], &[0x50], &[0x5F, 0x20], &[0xE1], &[0xDF, 0x81, 0x01]][f(p, 0)]; let v = syms(f(p, 1)); tlv(&mut b, t, &v, 0); clean(&invoke(Op::Ber, &hex(&b), &PLAIN)); }
        2802 => { let n = f(p, 1); let mut t = vec![]; t.extend_from_slice([&b"TC1:"[..], b"T50:", b"T8A:", b"T5F20:", b"T9C:"][f(p, 0)]); t.extend_from_slice(&ing_len(n)); t.extend_from_slice(b":a"); t.extend_from_slice(&ascii_text(n)); clean(&invoke(Op::Ingenico, &t, &PLAIN)); }
        2803 => { let t = ascii_text(f(p, 1)); sx::assume(!t.is_empty()); clean(&invoke(OPS[f(p, 0)], &t, &PLAIN)); }
        2804 => { let k = f(p, 0); let mut v = valid(k); if f(p, 1) < v.len() { v[f(p, 1)] = sx::sym(); } clean(&invoke(Op::Ber, &hex(&block1(KNOWN[k].0, &v)), &PLAIN)); }
        2805 => { clean(&invoke(Op::Ber, &hex(&block1(&[0x8A], &[sx::sym(), sx::sym()])), &PLAIN)); }
        2806 => { let t = sym_tag(f(p, 0)); clean(&invoke(Op::Ber, &hex(&block1(&t, &[sx::sym()])), &PLAIN)); }
        // ---- raw dumps: n = f0 + 256*f1 bytes, up to 112 symbolic from f2
        2901 => { let n = f(p, 0) | f(p, 1) << 8; let mut v = background(n, 5); let m = if n < 112 { n } else { 112 }; let from = f(p, 2).min(n - m); for i in 0..m { v[from + i] = sx::sym(); } if n > 1 { sx::assume(v[from] != b'*' || n > m); } exact_hex(Op::Ber, &block1(&[0xC1], &v), &PLAIN); }
        2902 => { let n = f(p, 0); let v = syms(n); if n > 1 { sx::assume(v[0] != b'*'); } let inner = block1(&[0xC1], &v); exact_hex(Op::Ber, &block1(&[0xE1], &inner), &PLAIN); }
        2903 => { let n = f(p, 0); let v = ascii_text(n); if n > 1 { sx::assume(v[0] != b'*'); } let mut t = b"TC1:".to_vec(); t.extend_from_slice(&ing_len(n)); t.extend_from_slice(b":a"); t.extend_from_slice(&v); exact(Op::Ingenico, &t, &PLAIN); }

        // ---- sizes: what holds for a handful holds for hundreds
        // a value of SIZES[f0] bytes in length form f1, tag of f2 bytes, three symbolic bytes, a sibling behind
        108 => { let t = plain_tag(f(p, 2)); let v = big(SIZES[f(p, 0)]); let mut b = vec![]; tlv(&mut b, &t, &v, f(p, 1)); tlv(&mut b, &[0xC2], &[sx::sym()], 0); exact_hex(Op::Ber, &b, sort_of(f(p, 3))); }
        // n = f0 + 256*f1 objects, the one at f2 + 256*f3 symbolic
        109 => { let b = many(wide(p, 0), wide(p, 2)); exact_hex(Op::Ber, &b, &UNSORTED); }
        // a declared length of SIZES[f0] in form f1 with only f2 (0: one less; 1: modulo 256; 2: modulo 65536; 3: half) present, the last one symbolic
        205 => { let n = SIZES[f(p, 0)]; let m = short_of(n, f(p, 2)); let mut b = vec![0xC1, 0x01, 0x07, 0xC2]; ber_len(&mut b, n, f(p, 1)); for i in 0..m { b.push(if i + 1 == m { sx::sym() } else { 0x41 }); } exact_hex(Op::Ber, &b, &PLAIN); }
        // n good objects and a malformed tail, its last byte symbolic
        206 => { let mut b = many(wide(p, 0), 0); b.extend_from_slice(match f(p, 2) { 0 => &[0xC1][..], 1 => &[0x9F], 2 => &[0xC1, 0x03, 1], 3 => &[0xC1, 0x82, 0x00], 4 => &[0xC1, 0x85, 0, 0, 0, 0], _ => &[0xE1, 0x03, 0xC1] }); b.push(sx::sym()); exact_hex(Op::Ber, &b, sort_of(f(p, 3))); }
        // Ingenico template f0 cut after f1 characters, the characters before the cut at distance f2 and f3 symbolic
        309 => { let mut t = itemplate(f(p, 0)); t.truncate(f(p, 1)); let n = t.len(); for d in [f(p, 2), f(p, 3)] { if d < n { t[n - 1 - d] = ascii(); } } if n == 0 { return; } one_answer(&invoke(Op::Ingenico, &t, &PLAIN)); }
        // BER-TLV template f0 cut after f1 bytes, the byte at distance f2 from the end symbolic
        310 => { let mut b = template(f(p, 0)); b.truncate(f(p, 1)); let n = b.len(); if f(p, 2) < n { b[n - 1 - f(p, 2)] = sx::sym(); } one_answer(&invoke(if f(p, 3) == 0 { Op::Ber } else { Op::Auto }, &hex(&b), &PLAIN)); }
        // a large value for every option, symbolic at the end
        311 => { let mut v = background(SIZES[f(p, 1)], 5); let n = v.len(); v[n - 1] = sx::sym(); let op = OPS[f(p, 0)]; let t = if op == Op::Ingenico { let mut t = vec![]; ing(&mut t, &[0xC1], &v); t } else { hex(&v) }; one_answer(&invoke(op, &t, &PLAIN)); }
        // n children in a constructed object, the one at f2 + 256*f3 symbolic
        407 => { let k = many(wide(p, 0), wide(p, 2)); let mut b = vec![]; tlv(&mut b, &[0xE1], &k, 0); tlv(&mut b, &[0xC1], &[sx::sym()], 0); exact_hex(Op::Ber, &b, &UNSORTED); }
        // a child of SIZES[f0] bytes inside f1 levels, format f2
        408 => { let v = big(SIZES[f(p, 0)]); let mut b = vec![]; tlv(&mut b, &[0xC3], &v, 0); tlv(&mut b, &[0xC2], &[sx::sym()], 0); for i in 0..f(p, 1) { let mut o = vec![]; tlv(&mut o, if i % 2 == 0 { &[0xBF, 0x0C] } else { &[0xE1] }, &b, 0); b = o; } if f(p, 2) == 0 { exact_hex(Op::Ber, &b, &PLAIN) } else { let mut t = vec![]; ing(&mut t, &[0x77], &b); exact(Op::Ingenico, &t, &PLAIN) } }
        // n good children and a malformed tail: shown raw, without children
        409 => { let mut k = many(wide(p, 0), 0); k.extend_from_slice(match f(p, 2) { 0 => &[0xC1][..], 1 => &[0x9F], 2 => &[0xC1, 0x03, 1], _ => &[0xC1, 0x82, 0x00] }); k.push(sx::sym()); let mut b = vec![]; tlv(&mut b, &[0xE1], &k, 0); tlv(&mut b, &[0xC2], &[sx::sym()], 0); exact_hex(Op::Ber, &b, &UNSORTED); }
        // a constructed object of every tag of f0 bytes with two children, itself a child
        410 => { let t = sym_tag(f(p, 0)); let mut k = vec![]; tlv(&mut k, &[0xC7], &[sx::sym()], 0); tlv(&mut k, &[0xC8], &[], 0); let mut o = vec![]; tlv(&mut o, &t, &k, 0); let b = block1(&[0x6F], &o); exact_hex(Op::Ber, &b, &UNSORTED); }
        // SIZES[f0] equal symbolic bytes, but for the one at f1 (in quarters) when f2
        506 => { let n = SIZES[f(p, 0)]; let c = sx::sym(); let mut v = vec![c; n]; if f(p, 2) != 0 { v[(n - 1) * f(p, 1) / 4] = sx::sym(); } exact_hex(Op::Ber, &block1(if f(p, 3) == 0 { &[0xC1] } else { &[0x9F, 0x10] }, &v), &PLAIN); }
        // Ingenico: SIZES[f0] equal symbolic characters but for one, format f3
        507 => { let n = SIZES[f(p, 0)]; let c = ascii(); let m = if f(p, 3) == 0 { 2 * n } else { n }; let mut t = b"TC1:".to_vec(); t.extend_from_slice(&ing_len(n)); t.push(b':'); t.push(if f(p, 3) == 0 { b'h' } else { b'a' }); let h = t.len(); t.resize(h + m, c); if f(p, 2) != 0 { t[h + (m - 1) * f(p, 1) / 4] = ascii(); } exact(Op::Ingenico, &t, &PLAIN); }
        // many masking characters: f0 of them
        508 => { let ms: Vec<u32> = (0..f(p, 0) as u32).map(|i| [0x23, 0x78, 0x40, 0x2A, 0x58, 0x21, 0xE9, 0x3F, 0x2E, 0x5F, 0x7E, 0x20AC][i as usize]).collect(); let v = vec![sx::sym(), sx::sym(), sx::sym()]; exact_hex(Op::Ber, &block1(&[0xC1], &v), &Opts { colour: false, sort: true, masks: &ms }); }
        // n entries, the one at f2 + 256*f3 symbolic
        607 => { let t = many_entries(wide(p, 0), wide(p, 2)); exact(Op::Ingenico, &t, &UNSORTED); }
        // text (f1 = 1) or hex value of SIZES[f0] bytes between two entries
        608 => { let n = SIZES[f(p, 0)]; let mut t = vec![]; ing(&mut t, &[0xC1], &[5]); t.push(b','); t.extend_from_slice(b"TDF02:"); t.extend_from_slice(&ing_len(n)); t.push(b':'); if f(p, 1) != 0 { t.push(b'a'); let at = t.len(); for i in 0..n { t.push(b'a' + (i % 26) as u8); } for k in 0..4 { t[at + (n - 1) * k / 3] = ascii(); } } else { t.push(b'h'); t.extend_from_slice(&hex(&big(n))); } t.push(b';'); ing(&mut t, &[0xC2], &[sx::sym()]); exact(Op::Ingenico, &t, &PLAIN); }
        // tags of f0 symbolic bytes with f1 zero bytes in front
        609 => { let mut t = b"T".to_vec(); for _ in 0..f(p, 1) { t.extend_from_slice(b"00"); } let g = sym_tag(f(p, 0)); t.extend_from_slice(&hex(&g)); t.extend_from_slice(b":01:h"); t.extend_from_slice(&hex(&[sx::sym()])); exact(Op::Ingenico, &t, &UNSORTED); }
        // a skipped entry of SIZES[f0] bytes, format f1
        610 => { let n = SIZES[f(p, 0)]; let mut t = b"X9F99:".to_vec(); t.extend_from_slice(&ing_len(n)); t.push(b':'); if f(p, 1) != 0 { t.push(b'a'); for i in 0..n { t.push(if i + 1 == n { ascii() } else { b'T' }); } } else { t.push(b'h'); for i in 0..2 * n { t.push(b"9A01"[i % 4]); } } t.push(b','); ing(&mut t, &[0xC2], &[sx::sym()]); exact(Op::Ingenico, &t, &PLAIN); }
        // n good entries and a malformed tail, its last character symbolic
        708 => { let mut t = many_entries(wide(p, 0), 0); t.push(b','); t.extend_from_slice([&b"T"[..], b"TC", b"TC1:", b"TC1:0", b"TC1:01:", b"TC1:01:h", b"TC1:01:h5", b"TC1:02:a1"][f(p, 2)]); t.push(ascii()); exact(Op::Ingenico, &t, &PLAIN); }
        // a declared length of SIZES[f0] with fewer characters (as in 205), format f1
        709 => { let n = SIZES[f(p, 0)]; let m = short_of(n, f(p, 2)); let mut t = b"T9A:03:h210102,TC1:".to_vec(); t.extend_from_slice(&ing_len(n)); t.push(b':'); let k = if f(p, 1) == 0 { t.push(b'h'); 2 * m + f(p, 3) } else { t.push(b'a'); m }; for i in 0..k { t.push(if i + 1 == k { ascii() } else { b'1' }); } exact(Op::Ingenico, &t, &PLAIN); }
        // an odd digit: hex value of f0 bytes with one character at f1 symbolic, after f2 good entries
        710 => { let n = f(p, 0); let mut t = many_entries(f(p, 2), 0); if f(p, 2) > 0 { t.push(b','); } t.extend_from_slice(b"TC1:"); t.extend_from_slice(&ing_len(n)); t.extend_from_slice(b":h"); let h = t.len(); for i in 0..2 * n { t.push(b"0A1f"[i % 4]); } let at = h + f(p, 1); t[at] = ascii(); exact(Op::Ingenico, &t, &PLAIN); }
        // an entry with an empty value cut or followed by a symbolic character
        711 => { let mut t = [&b"TC1:00:h"[..], b"TC1:00:a", b"TC1:0000:h", b"T9A:01:h21,TC1:00:a,TC2:00:h"][f(p, 0)].to_vec(); t.truncate(f(p, 1)); if f(p, 2) != 0 { t.push(ascii()); } if t.is_empty() { return; } exact(Op::Ingenico, &t, &PLAIN); }
        // a length of f0 bytes, all but the lowest symbolic, with f1 bytes present (f2: hex or text), then f3 good entries
        712 => { let (n, m) = (f(p, 0), f(p, 1)); let mut l = syms(n - 1); l.push(m as u8); let mut t = b"TC1:".to_vec(); t.extend_from_slice(&hex(&l)); t.extend_from_slice(if f(p, 2) == 0 { b":h" } else { b":a" }); for i in 0..m * (2 - f(p, 2)) { t.push(b"3132"[i % 4]); } for _ in 0..f(p, 3) { t.extend_from_slice(b",TC2:01:h33"); } exact(Op::Ingenico, &t, &PLAIN); }
        // carriers: a value of SIZES[f0] bytes, hex or text
        804 => { let n = SIZES[f(p, 0)]; let text = f(p, 1) != 0; let v = if text { let mut v = vec![b'q'; n]; v[0] = ascii(); v[n - 1] = ascii(); v[n / 2] = b'r'; v } else { big(n) }; let (mut a, mut i) = (vec![], vec![]); tlv(&mut a, &[0xC1], &v, 0); tlv(&mut a, &[0xC0], &[1, 2], 0); if text { i.extend_from_slice(b"TC1:"); i.extend_from_slice(&ing_len(n)); i.extend_from_slice(b":a"); i.extend_from_slice(&v); } else { ing(&mut i, &[0xC1], &v); } i.push(b','); ing(&mut i, &[0xC0], &[1, 2]); same(&invoke(Op::Ber, &hex(&a), &PLAIN), &invoke(Op::Ingenico, &i, &PLAIN), "the report depends on the carrier format"); }
        // carriers: n objects
        805 => { let (n, at) = (wide(p, 0), wide(p, 2)); let x = sx::sym(); let (mut a, mut i) = (vec![], vec![]); for k in 0..n { let t = [0xC0 + (k % 29) as u8]; let v = [if k == at { x } else { k as u8 }]; tlv(&mut a, &t, &v, 0); if k > 0 { i.push(b'+'); } ing(&mut i, &t, &v); } same(&invoke(Op::Ber, &hex(&a), &PLAIN), &invoke(Op::Ingenico, &i, &PLAIN), "the report depends on the carrier format"); }
        // detection of large blocks: f0 = 0 BER-TLV, 1 Ingenico, 2 BER-TLV with a malformed tail, 3 Ingenico with one
        907 => { let n = wide(p, 1); let t = match f(p, 0) { 0 => hex(&many(n, n / 2)), 1 => many_entries(n, n / 2), 2 => { let mut b = many(n, n / 2); b.push(sx::sym()); hex(&b) } _ => { let mut t = many_entries(n, n); t.push(b','); t.push(b'T'); t.push(ascii()); t } }; auto(&t, 1) }
        908 => { let v = big(SIZES[f(p, 0)]); if f(p, 1) == 0 { auto(&hex(&block1(&[0xC1], &v)), 1) } else { let mut t = vec![]; ing(&mut t, &[0xC1], &v); auto(&t, 1) } }
        // spelling: n = f0 + 256*f1 bytes, one symbolic byte, a symbolic separator after f2 + 256*f3 digits, lower case from there
        1004 => { let n = wide(p, 0); let at = wide(p, 2); let mut v = vec![]; { let k = if n < 131 { n - 2 } else if n < 259 { n - 3 } else { n - 4 }; let mut w: Vec<u8> = (0..k).map(|i| (i * 29 + 0xA3) as u8).collect(); w[k / 2] = sx::sym(); tlv(&mut v, &[0xC1], &w, 0); } let h = hex(&v); let mut t = vec![]; for (i, c) in h.iter().enumerate() { if i == at { let s = ascii(); sx::assume(NIBBLE[s as usize] == 0xFF); t.push(s); } t.push(if i < at { *c } else { c.to_ascii_lowercase() }); } same(&invoke(Op::Ber, &h, &PLAIN), &invoke(Op::Ber, &t, &PLAIN), "the spelling of the hex digits changes the result"); }
        // spelling: f1 separators in a row (one symbolic) after digit f2 of option f0
        1005 => { let op = OPS[f(p, 0)]; let v = spelled(op); let h = hex(&v); let mut t = vec![]; for (i, c) in h.iter().enumerate() { if i == f(p, 2) { for k in 0..f(p, 1) { if k == f(p, 1) / 2 { let s = ascii(); sx::assume(NIBBLE[s as usize] == 0xFF); if op == Op::Auto && f(p, 2) == 0 && k == 0 { sx::assume(s != b'T'); } t.push(s) } else { t.push(b" -_x"[k % 4]); } } } t.push(*c); } same(&invoke(op, &h, &PLAIN), &invoke(op, &t, &PLAIN), "the spelling of the hex digits changes the result"); }
        // sorting: n = f0 + 256*f1 objects in descending order of tag but for two symbolic tags; children in every tenth
        1105 => { let n = wide(p, 0); let mut b = vec![]; for i in 0..n { let t = if i == n / 3 || i + 1 == n { [0xDF, one_of(&[0, 0x50, 0x5F, 0x7F])] } else { [0xDF, (0x7F - i * 0x60 / n) as u8] }; if i % 10 == 4 { let mut k = vec![]; tlv(&mut k, &[0xC9], &[i as u8], 0); tlv(&mut k, &[0xC2], &[1], 0); tlv(&mut b, &[0xFF, t[1]], &k, 0); } else { tlv(&mut b, &t, &[i as u8], 0); } } exact_hex(Op::Ber, &b, sort_of(f(p, 2))); }
        // lone templates f0 deep, around f1 children with symbolic tags
        1106 => { let mut b = vec![]; for i in 0..f(p, 1) { tlv(&mut b, &[0xC0 | below(0x1F)], &[i as u8], 0); } for i in 0..f(p, 0) { let o = block1(if i % 2 == 0 { &[0xE1] } else { &[0xBF, 0x0C] }, &b); b = o; } if f(p, 3) == 0 { exact_hex(Op::Ber, &b, sort_of(f(p, 2))) } else { let mut t = vec![]; ing(&mut t, &[0x6F], &b); exact(Op::Auto, &t, sort_of(f(p, 2))) } }
        // two templates, the children of each in symbolic order, f0 deep
        1107 => { let mut b = vec![]; for r in 0..2u8 { let mut k = vec![]; for i in 0..2u8 { tlv(&mut k, &[0xC0 | below(0x1F)], &[r * 2 + i], 0); } for i in 0..f(p, 0) { let mut o = vec![]; tlv(&mut o, &[0xE8], &k, 0); tlv(&mut o, &[0xC5], &[i as u8], 0); k = o; } tlv(&mut b, &[0xE0 | (1 - r)], &k, 0); } exact_hex(Op::Ber, &b, sort_of(f(p, 1))); }
        // tags of one length sharing f0 leading bytes, last bytes symbolic
        1108 => { let mut b = vec![]; for i in 0..f(p, 1) { let mut t = vec![0xDF]; for _ in 0..f(p, 0) { t.push(0x81); } t.push(below(0x80)); tlv(&mut b, &t, &[i as u8], 0); } exact_hex(Op::Ber, &b, sort_of(f(p, 2))); }
        // identification of long tags: n = f0 + 256*f1 bytes, symbolic at f2
        1205 => { let n = wide(p, 0); let mut v: Vec<u8> = (0..n).map(|i| if i == 0 { 0x9F } else { (i * 7) as u8 | 0x80 }).collect(); v[f(p, 2)] = sx::sym(); exact_hex(Op::Identify, &v, &PLAIN); }
        // a verification list of n rules, alone and in a block
        1303 => { let n = wide(p, 0); let mut v = amounts(f(p, 3)); for i in 0..n { v.push(if i == f(p, 2) { sx::sym() } else { (i * 13) as u8 }); v.push(if i == f(p, 2) { sx::sym() } else { (i * 5) as u8 % 11 }); } let alone = invoke(Op::CvmList, &hex(&v), &PLAIN); let block = invoke(Op::Ber, &hex(&block1(&[0x8E], &v)), &PLAIN); sane(&alone); sane(&block); sx::check(alone.err.is_empty(), "a list of whole rules is refused"); match line(&block.out, b"Parsed:") { Some(i) => sx::eq(&block.out[i + 8..], &deeper(&alone.out), "the value reads differently inside a block"), None => sx::check(false, "the value is not interpreted inside a block") } }
        // known tag f0, its size plus 256 * f1
        1304 => { let k = f(p, 0); let op = KNOWN[k].2.unwrap(); let mut v = valid(k); let n = v.len() + 256 * f(p, 1); v.resize(n, 0x55); v[n - 1] = sx::sym(); let text = if op == Op::ServiceCode { b"x".to_vec() } else { hex(&v) }; let alone = invoke(op, &text, &PLAIN); let block = invoke(Op::Ber, &hex(&block1(KNOWN[k].0, &v)), &PLAIN); sane(&alone); sane(&block); sx::check(!alone.err.is_empty(), "a value of impossible size is accepted"); sx::check(line(&block.out, b"Parsed:").is_none(), "a value its own option refuses is interpreted inside a block"); }
        // an interpreted value f0 (byte f1 symbolic) at place f3 among f2 others
        1404 => { let k = f(p, 0); let mut v = valid(k); v[f(p, 1)] = sx::sym(); if k == 5 { v[0] = 2; } let mut b = vec![]; for i in 0..=f(p, 2) { if i == f(p, 3) { tlv(&mut b, KNOWN[k].0, &v, 0); } else { tlv(&mut b, &[0xC0 + (i % 29) as u8], &[i as u8], 0); } } exact_hex(Op::Ber, &b, &PLAIN); }
        // two interpreted values with a symbolic byte each
        1405 => { let mut b = vec![]; for k in [f(p, 0), f(p, 1)] { let mut v = valid(k); let i = if v.len() > 2 { f(p, 2) % v.len() } else { v.len() - 1 }; v[i] = sx::sym(); tlv(&mut b, KNOWN[k].0, &v, 0); } tlv(&mut b, &[0xC1], &[1], 0); exact_hex(Op::Ber, &b, &PLAIN); }
        // the same inside constructed objects
        1406 => { let k = f(p, 0); let mut v = valid(k); v.resize(f(p, 1), 0x30); if f(p, 1) > 0 { v[f(p, 1) - 1] = sx::sym(); } let mut o = vec![]; tlv(&mut o, &[0xC1], &[1], 0); tlv(&mut o, KNOWN[k].0, &v, 0); let mut b = vec![]; tlv(&mut b, &[0xC2], &[2], 0); tlv(&mut b, &[0x77], &o, 0); exact_hex(Op::Ber, &b, sort_of(f(p, 2))); }
        // n rules, the one at f2 + 256*f3 symbolic
        2106 => { let (n, at) = (wide(p, 0), wide(p, 2)); let mut v = amounts(0); for i in 0..n { if i == at { v.push(sx::sym()); v.push(sx::sym()); } else { v.push((i * 13) as u8); v.push((i * 5) as u8 % 6); } } exact_hex(Op::CvmList, &v, &PLAIN); }
        // both amounts around the powers of ten, low bytes symbolic
        2107 => { let a = [1u32, 99, 999, 1000, 99_999, 1_000_000, 9_999_999, 100_000_000, 4_294_967_295, 0][f(p, 0)]; let c = [1u32, 99, 999, 1000, 99_999, 1_000_000, 9_999_999, 100_000_000, 4_294_967_295, 0][f(p, 1)]; let mut v = a.to_be_bytes().to_vec(); v.extend_from_slice(&c.to_be_bytes()); v[if f(p, 2) == 0 { 3 } else { 7 }] = sx::sym(); v.push(0x42); v.push(0x03); exact_hex(Op::CvmList, &v, &PLAIN); }
        // only rule f1 of f0 refers to the amounts (symbolic condition from 5 up)
        2108 => { let mut v = amounts(0); for i in 0..f(p, 0) { v.push(0x41); v.push(if i == f(p, 1) { sx::sym() } else { 3 }); } exact_hex(if f(p, 2) == 0 { Op::CvmList } else { Op::Ber }, &if f(p, 2) == 0 { v } else { block1(&[0x8E], &v) }, &PLAIN); }
        // service codes spelled long: f0 leading zeros, then text f1 with its last digit symbolic
        2204 => { let mut t = vec![b'0'; f(p, 0)]; t.extend_from_slice([&b"201"[..], b"999", b"1000", b"65535", b"65536", b"65737", b"4294967497", b"18446744073709551817", b"256", b"20.1", b"-201", b"+201", b" 201", b"2 01", b"0x201", b"1e2"][f(p, 1)]); let n = t.len(); if f(p, 2) != 0 { t[n - f(p, 2)] = ascii(); } exact(Op::ServiceCode, &t, &PLAIN); }
        // sizes above 255: f1 + 256 * f2 bytes for option f0; 2404: known tag
        2403 => { let n = f(p, 1) + 256 * f(p, 2); let mut v = background(n, 5); v[n - 1] = sx::sym(); exact_hex(OPS[f(p, 0)], &v, &PLAIN); }
        2404 => { let n = f(p, 1) + 256 * f(p, 2); let mut v = background(n, 5); v[n - 1] = sx::sym(); exact_hex(Op::Ber, &block1(KNOWN[f(p, 0)].0, &v), &PLAIN); }
        // colour over nested, masked, empty and interpreted objects; f0 levels, interpreted tag f1
        2604 => { let mut b = vec![]; let mut v = valid(f(p, 1)); v[0] = if f(p, 1) == 5 { 2 } else { sx::sym() }; tlv(&mut b, KNOWN[f(p, 1)].0, &v, 0); tlv(&mut b, &[0xC1], b"***", 0); tlv(&mut b, &[0xC2], &[], 0); for i in 0..f(p, 0) { let mut o = vec![]; tlv(&mut o, &[0xE4], &b, 0); tlv(&mut o, &[0xC3], &[i as u8], 0); b = o; } let t = hex(&b); let r = invoke(Op::Ber, &t, &COLOUR); judge(Op::Ber, &t, &COLOUR, &r); sx::eq(&unstyled(&r.out), &invoke(Op::Ber, &t, &PLAIN).out, "colour changes the text"); }
        // raw dumps of SIZES[f0] bytes with three symbolic ones; f1: 0 BER-TLV, 1 nested, 2 Ingenico
        2904 => { let v = big(SIZES[f(p, 0)]); match f(p, 1) { 0 => exact_hex(Op::Ber, &block1(&[0xC1], &v), &PLAIN), 1 => exact_hex(Op::Ber, &block1(&[0xE1], &block1(&[0xC1], &v)), &PLAIN), _ => { let mut t = vec![]; ing(&mut t, &[0xC1], &v); exact(Op::Ingenico, &t, &PLAIN) } } }
        // ---- names of options
        3001 => aliases(p),
        _ => crate::more::more(case, p),
    }
}
pub fn wide(p: u32, i: u32) -> usize { f(p, i) | f(p, i + 1) << 8 }
pub static SIZES: [usize; 32] = [1, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 10000, 20000, 32768, 60000, 65400, 65537];
/// n bytes of which the first, the middle and the last are symbolic; never masked.
pub fn big(n: usize) -> Vec<u8> { let mut v: Vec<u8> = (0..n).map(|i| (i * 37 + i / 256 + 11) as u8).collect(); v[n / 2] = sx::sym(); v[0] = sx::sym(); v[n - 1] = sx::sym(); if n == 2 || n == 3 { sx::assume(v[0] != b'*'); } v }
pub fn short_of(n: usize, k: usize) -> usize { match k { 0 => n - 1, 1 => n & 0xFF, 2 => n & 0xFFFF, _ => n / 2 } }
/// n objects with short tags; the value of the one at `at` symbolic.
pub fn many(n: usize, at: usize) -> Vec<u8> { let mut b = vec![]; for i in 0..n { let v = [if i == at { sx::sym() } else { i as u8 }]; if i % 7 == 3 { tlv(&mut b, &[0xDF, (i % 0x7F) as u8], &v, 0) } else { tlv(&mut b, &[0xC0 + (i % 29) as u8], &v, i % 3) } } b }
pub fn many_entries(n: usize, at: usize) -> Vec<u8> { let mut t = vec![]; for i in 0..n { if i > 0 { t.push(b",;\n "[i % 4]); } let s = t.len(); ing(&mut t, &[0xC0 + (i % 29) as u8], &[if i == at { sx::sym() } else { i as u8 }]); if i % 11 == 5 && i != at { t[s] = b'A'; } } t }
pub static MASKS: [&[u32]; 9] = [&[b'*' as u32], &[b'#' as u32], &[b'x' as u32], &[0xE9], &[0x20AC], &[b'0' as u32], &[b'A' as u32, b'*' as u32], &[b'F' as u32, b'f' as u32], &[0x100 + 0x2A]];
pub static MTAGS: [&[u8]; 8] = [&[0xC1], &[0x95], &[0x9F, 0x10], &[0xE1], &[0x5F, 0x30], &[0xDF, 0x81, 0x01], &[0x8A], &[0x9C]];
pub static CTAGS: [&[u8]; 8] = [&[0xC1], &[0x50], &[0xE1], &[0x9F, 0x02], &[0xDF, 0x81, 0x01], &[0x8A], &[0x9C], &[0xFF, 0x02]];
pub fn prefix(k: usize) -> Vec<u8> {
    match k { 0 => vec![], 1 => vec![0xC1, 0x01, 0x31], 2 => vec![0xDF, 0x01, 0x81, 0x02, 0x31, 0x32, 0xC2, 0x00], 3 => { let mut b = vec![]; tlv(&mut b, &[0x95], &[0x80, 0, 0, 0x80, 0], 0); tlv(&mut b, &[0xE1], &[0xC1, 0x01, 0x00], 0); b } _ => vec![0x9A, 0x82, 0x00, 0x03, 0x21, 0x01, 0x02] }
}
pub fn suffix(k: usize) -> Vec<u8> { match k { 0 => vec![], 1 => vec![0x01, 0x31], 2 => vec![0x02, 0x31, 0x32, 0xC3, 0x01, 0x33], 3 => vec![0x00, 0x00, 0x00, 0x00, 0x00, 0x00], _ => vec![0xC1, 0x00] } }
/// Well-formed blocks with symbolic value bytes.
pub fn template(k: usize) -> Vec<u8> {
    let mut b = vec![];
    match k {
        0 => { tlv(&mut b, &[0xC1], &[sx::sym(), 0x41], 0); tlv(&mut b, &[0xDF, 0x21], &[sx::sym()], 1); tlv(&mut b, &[0xDF, 0x81, 0x05], &[sx::sym(), 1, 2], 2); }
        1 => { tlv(&mut b, &[0x9A], &[0x21, 0x01, sx::sym()], 3); tlv(&mut b, &[0xDF, 0x81, 0x82, 0x05], &[sx::sym()], 4); tlv(&mut b, &[0xC4], &[], 0); tlv(&mut b, &[0xC5], &[sx::sym()], 0); }
        2 => { let mut i = vec![]; tlv(&mut i, &[0x50], &[0x56, sx::sym()], 0); tlv(&mut i, &[0xC7], &[sx::sym()], 1); tlv(&mut b, &[0x70], &i, 0); tlv(&mut b, &[0x9F, 0x26], &[1, 2, 3, 4, 5, 6, 7, sx::sym()], 0); }
        _ => { tlv(&mut b, &[0x9F, 0x33], &[0xE0, sx::sym() & 0x18, 0xC8], 0); tlv(&mut b, &[0xC1], &[sx::sym()], 2); tlv(&mut b, &[0x5F, 0x2A], &[0x01, 0x24], 0); }
    }
    b
}
/// Well-formed Ingenico blocks.
pub fn itemplate(k: usize) -> Vec<u8> {
    match k { 0 => b"T9A:03:h210102,TC1:02:aHi".to_vec(), 1 => b"TC1:01:h7F".to_vec(), 2 => b"X9F06:02:aA:;T00DF01:0001:h55 T9C:01:h00".to_vec(), 4 => b"TC1:00:a,TC2:0000:h,T9A:03:a***".to_vec(), _ => b"T0095:05:h0000008000/TC2:00:h/TE1:03:hC10142".to_vec() }
}
pub fn odd_text(k: usize) -> Vec<u8> { match k { 0 => vec![], 1 => b"C1".to_vec(), 2 => b"zz".to_vec(), 3 => b"T9A:01:".to_vec(), 4 => b"00".to_vec(), 5 => b"+1".to_vec(), 6 => b" ".to_vec(), 7 => b"E1".to_vec(), _ => b"T".to_vec() } }
/// E1 objects nested n deep, each complete, around some bytes.
pub fn nest(n: usize, core: &[u8]) -> Vec<u8> {
    // built from the inside, back to front
    let mut r: Vec<u8> = core.iter().rev().copied().collect();
    for _ in 0..n { let mut l = vec![]; ber_len(&mut l, r.len(), 0); for x in l.iter().rev() { r.push(*x); } r.push(0xE1); }
    r.reverse();
    r
}
pub fn spelled(op: Op) -> Vec<u8> {
    match op {
        Op::Tvr | Op::Cvr => vec![0xAB, 0xCD, 0xEF, 0x0A, 0xF0], Op::Iad => { let mut v = valid(4); v[2] = 0xDC; v[20] = 0xBE; v } Op::Tsi => vec![0xEA, 0xBC], Op::CvmResults => vec![0x4E, 0xAF, 0x02], Op::CvmList => vec![0, 0, 0xAB, 0xCD, 0, 0, 0xEF, 0, 0x4E, 0x0A],
        Op::Identify => vec![0xDF, 0xAB, 0x0C], _ => vec![0xCA, 0x02, 0xAB, 0xEF, 0xDF, 0x0D, 0x01, 0xFA],
    }
}
pub fn bcd(v: &[u8]) -> Vec<u8> { if v.len() != 2 { return b"x".to_vec(); } hex(v) }
pub fn amounts(k: usize) -> Vec<u8> { match k { 0 => vec![0; 8], 1 => vec![0, 0, 0, 1, 0, 0, 0, 0], 2 => vec![0, 0, 0x30, 0x39, 0, 0, 0, 7], _ => vec![0xFF; 8] } }
/// Detection: what it must print, and how that relates to the explicit options.
pub fn auto(t: &[u8], relate: usize) {
    let a = invoke(Op::Auto, t, &PLAIN);
    judge(Op::Auto, t, &PLAIN, &a);
    if relate == 0 { return; }
    let i = invoke(Op::Ingenico, t, &PLAIN);
    sane(&i);
    if a.err.is_empty() {
        sx::check(a.out.len() > 13, "an empty success");
        if i.err.is_empty() { let mut e = b"TLV Format: Ingenico\n\n".to_vec(); e.extend_from_slice(&i.out); sx::eq(&a.out, &e, "detection and the Ingenico option disagree"); }
        else { let b = invoke(Op::Ber, t, &PLAIN); sane(&b); sx::eq(&b.err, b"", "detection accepts what the BER-TLV option refuses"); let mut e = b"TLV Format: BER-TLV\n\n".to_vec(); e.extend_from_slice(&b.out); sx::eq(&a.out, &e, "detection and the BER-TLV option disagree"); }
    } else { sx::check(!i.err.is_empty(), "detection refuses what the Ingenico option accepts"); }
}
pub fn colour_input(k: usize, a: usize, b: usize) -> (Op, Vec<u8>) {
    let op = match k { 0 => Op::Tvr, 1 => Op::Cvr, 2 => Op::Iad, 3 => Op::Tsi, 4 => Op::CvmResults, 5 => Op::CvmList, 6 => Op::Identify, 7 => Op::ServiceCode, 8 => Op::Ber, 9 => Op::Auto, _ => Op::Ingenico };
    let t = match op {
        Op::Tvr => { let mut v = background(5, b as u32); v[a] = sx::sym(); hex(&v) }
        Op::Cvr => { let mut v = background(5, b as u32); v[a] = sx::sym(); hex(&v) }
        Op::Iad => { let mut v = valid(4); v[a] = sx::sym(); hex(&v) }
        Op::Tsi => { let mut v = background(2, b as u32); v[a] = sx::sym(); hex(&v) }
        Op::CvmResults => { let mut v = vec![0x42, 0x03, b as u8]; v[a] = sx::sym(); hex(&v) }
        Op::CvmList => { let mut v = valid(3); v[a] = sx::sym(); hex(&v) }
        Op::Identify => hex(&syms(1 + a)),
        Op::ServiceCode => { let mut t = b"201".to_vec(); t[a] = b'0' + below(10); t }
        Op::Ber if b < 15 => { let mut v = valid(b); v[a] = sx::sym(); let mut o = vec![]; tlv(&mut o, KNOWN[b].0, &v, 0); hex(&o) }
        Op::Ber | Op::Auto => { let mut o = vec![]; tlv(&mut o, &[0xE1], &block1(&[0xC1], &syms(2)), 0); tlv(&mut o, &[0xC2], &[], 0); tlv(&mut o, &[0xC0], b"****", 0); hex(&o) }
        _ => { let mut o = vec![]; ing(&mut o, &[0x95], &[0x80, 0x48, 0x20, sx::sym(), 0x40]); o.push(b','); ing(&mut o, &[0xDF, 0x02], &syms(1)); o }
    };
    (op, t)
}
/// Everything printed is printable ASCII, a line break, a tab at the start of a line or one of the drawing characters.
pub fn clean(r: &sx::Res) {
    sane(r);
    for s in [&r.out, &r.err] {
        let (mut i, mut margin) = (0, true);
        while i < s.len() {
            let c = s[i];
            if c == 0xE2 {
                let ok = i + 2 < s.len() && s[i + 1] == 0x94 && (s[i + 2] == 0x82 || s[i + 2] == 0x94 || s[i + 2] == 0x9C || s[i + 2] == 0x98 || s[i + 2] == 0x80);
                sx::check(ok, "a byte that is not the tool's own text is printed");
                i += 3;
                continue;
            }
            let indents = i == 0 || s[i - 1] == b'\n' || s[i - 1] == b'\t' && margin;
            sx::check(c >= 0x20 && c < 0x7F || c == b'\n' || c == b'\t' && indents, "a control or non-ASCII byte is printed");
            margin = indents && c == b'\t';
            i += 1;
        }
    }
}
pub const SBLOCK: &[u8] = b"C2022323C1022A2AC0017F";
pub fn sblock_expected(o: &Opts) -> (Vec<u8>, Vec<u8>) { expected(Op::Ber, SBLOCK, o) }
/// Sources of the three settings: per setting a symbolic choice in each place
/// (0 = not given there). p: which places take part.
pub fn settings(p: u32) {
    // settings: 0 colour (auto, always, never), 1 masks (*, #, both), 2 sort
    let places = f(p, 0); // bit 0 file default section, 1 file selected profile, 2 environment, 3 command line
    let which = f(p, 1); // settings that take part
    let opt = f(p, 2); // 0 pemv.toml, 1 PEMV_CONFIG
    let mut v = [[0u8; 3]; 4];
    for s in 0..3 { if which >> s & 1 == 0 { continue; } for q in 0..4 { if places >> q & 1 != 0 { v[q][s] = below(if s == 2 || f(p, 3) == 0 { 3 } else { 4 }); } } }
    let profile = if places & 2 != 0 { below(if f(p, 3) == 0 { 2 } else { 3 }) } else { 0 };
    let mut t = vec![];
    let section = |t: &mut Vec<u8>, name: &[u8], c: &[u8; 3]| {
        t.push(b'['); t.extend_from_slice(name); t.extend_from_slice(b"]\n");
        if c[0] > 0 { t.extend_from_slice([&b"cli_colour = \"always\"\n"[..], b"cli_colour = \"never\"\n", b"cli_colour = \"auto\"\n"][c[0] as usize - 1]); }
        if c[1] > 0 { t.extend_from_slice([&b"masking_characters = [\"#\"]\n"[..], b"masking_characters = [\"#\", \"*\"]\n", b"masking_characters = [\"*\"]\n"][c[1] as usize - 1]); }
        if c[2] > 0 { t.extend_from_slice(if c[2] == 1 { b"sort_parsed_tags = false\n" } else { b"sort_parsed_tags = true\n" }); }
    };
    sx::begin();
    if places & 3 != 0 {
        if places & 1 != 0 { section(&mut t, b"default", &v[0]); }
        if places & 2 != 0 { section(&mut t, b"other", &v[1]); }
        if opt == 0 { sx::file("pemv.toml", &t); } else { sx::env("PEMV_CONFIG", b"sub/own.toml"); sx::file("sub/own.toml", &t); sx::file("pemv.toml", b"[default]\nsort_parsed_tags = false\ncli_colour = \"always\"\nmasking_characters = [\"*\", \"#\"]\n[other]\nsort_parsed_tags = false\ncli_colour = \"always\"\nmasking_characters = [\"~\"]\n[absent]\nsort_parsed_tags = false\n"); }
    }
    if profile > 0 { sx::env("PEMV_PROFILE", if profile == 1 { b"other" } else { b"absent" }); }
    if v[2][0] > 0 { sx::env("PEMV_CLI_COLOUR", [&b"always"[..], b"never", b"auto"][v[2][0] as usize - 1]); }
    if v[2][1] > 0 { sx::env("PEMV_MASKING_CHARACTERS", [&b"[\"#\"]"[..], b"[\"#\",\"*\"]", b"[\"*\"]"][v[2][1] as usize - 1]); }
    if v[2][2] > 0 { sx::env("PEMV_SORT_PARSED_TAGS", if v[2][2] == 1 { b"false" } else { b"true" }); }
    if v[3][0] > 0 { sx::arg(b"--colour"); sx::arg([&b"always"[..], b"never", b"auto"][v[3][0] as usize - 1]); }
    if v[3][1] > 0 { sx::arg(b"-m"); sx::arg(if v[3][1] == 3 { b"*" } else { b"#" }); if v[3][1] == 2 { sx::arg(b"-m"); sx::arg(b"*"); } }
    if v[3][2] > 0 { sx::arg(if v[3][2] == 1 { b"--no-sort-parsed-tags" } else { b"--sort-parsed-tags" }); }
    sx::arg(b"--ber-tlv"); sx::arg(SBLOCK);
    let r = sx::run();
    let mut e = [0u8; 3];
    for s in 0..3 { for q in 0..4 { if q == 1 && profile != 1 { continue; } if v[q][s] > 0 { e[s] = v[q][s]; } } }
    let both = [b'#' as u32, b'*' as u32];
    let o = Opts { colour: e[0] == 1, sort: e[2] != 1, masks: match e[1] { 0 | 3 => &both[1..], 1 => &both[..1], _ => &both } };
    let (out, err) = sblock_expected(&o);
    sane(&r);
    sx::eq(&r.out, &out, "the settings in force are not the ones that were given");
    sx::eq(&r.err, &err, "the settings in force are not the ones that were given");
}
/// A symbolic masking character from place f0 (0 file, 1 environment, 2 command line, 3 file profile), contradicted by a weaker place.
pub fn masking_sources(p: u32) {
    let m = ascii();
    sx::assume(m > 0x20 && m < 0x7F && m != b'"' && m != b'\\' && m != b'-');
    let x = sx::sym();
    let q = |c: u8| vec![b'[', b'"', c, b'"', b']'];
    sx::begin();
    let mut file = b"[default]\nmasking_characters = ".to_vec();
    file.extend_from_slice(&q(if f(p, 0) == 0 { m } else { b'!' }));
    file.extend_from_slice(b"\nsort_parsed_tags = true\n");
    if f(p, 0) == 3 { file.extend_from_slice(b"[other]\nmasking_characters = "); file.extend_from_slice(&q(m)); file.push(b'\n'); sx::env("PEMV_PROFILE", b"other"); }
    sx::file("pemv.toml", &file);
    if f(p, 0) == 1 { sx::env("PEMV_MASKING_CHARACTERS", &q(m)); }
    if f(p, 0) == 2 { sx::env("PEMV_MASKING_CHARACTERS", b"[\"!\"]"); sx::arg(b"--masking-char"); sx::arg(&[m]); }
    sx::arg(b"-b");
    let t = hex(&block1(&[0xC1], &[x, x]));
    sx::arg(&t);
    let r = sx::run();
    let ms = [m as u32];
    judge(Op::Ber, &t, &Opts { colour: false, sort: true, masks: &ms }, &r);
}
/// Equivalent spellings of the settings on the command line.
pub fn spellings(p: u32) {
    let variants: [(&[&[u8]], bool, bool, usize); 22] = [
        (&[b"--sort"], true, false, 0), (&[b"--sort=true"], true, false, 0), (&[b"--sort=false"], false, false, 0), (&[b"--sort-parsed-tags=false"], false, false, 0), (&[b"--sort-parsed-tags"], true, false, 0),
        (&[b"--no-sort"], false, false, 0), (&[b"--no-sort=true"], false, false, 0), (&[b"--no-sort=false"], true, false, 0), (&[b"--no-sort-parsed-tags=false"], true, false, 0), (&[b"--no-sort-parsed-tags"], false, false, 0),
        (&[b"--color", b"always"], true, true, 0), (&[b"--color=ansi"], true, true, 0), (&[b"--colour=never"], true, false, 0), (&[b"--colour=auto"], true, false, 0), (&[b"--color", b"auto"], true, false, 0),
        (&[b"-m#"], true, false, 1), (&[b"-m", b"#"], true, false, 1), (&[b"--masking-character=#"], true, false, 1), (&[b"--masking-char", b"#"], true, false, 1), (&[b"--masking", b"#", b"*"], true, false, 2), (&[b"-m", b"#", b"-m", b"*"], true, false, 2), (&[b"--masking=#", b"--no-sort", b"--colour=always"], false, true, 1),
    ];
    let (args, sort, colour, m) = variants[f(p, 0)];
    let x = syms(1);
    let mut b = vec![]; tlv(&mut b, &[0xC2], b"##", 0); tlv(&mut b, &[0xC1], b"**", 0); tlv(&mut b, &[0xC0], &x, 0);
    let t = hex(&b);
    sx::begin();
    if f(p, 1) == 0 { for a in args { sx::arg(a); } }
    sx::arg(b"-b"); sx::arg(&t);
    if f(p, 1) != 0 { for a in args { sx::arg(a); } }
    let r = sx::run();
    let both = [b'#' as u32, b'*' as u32];
    judge(Op::Ber, &t, &Opts { colour, sort, masks: match m { 0 => &both[1..], 1 => &both[..1], _ => &both } }, &r);
}
/// Every name of every option, joined with '=' or as the next argument; right or wrong data.
pub static NAMES_OF: [(Op, &[&str]); 11] = [
    (Op::Tvr, &["--tvr", "--95", "--iac", "--tac", "-t"]), (Op::Iad, &["--ccd-iad", "--9F10", "--9f10", "--iad"]), (Op::Cvr, &["--ccd-cvr", "--cvr"]), (Op::Tsi, &["--tsi", "--9B", "--9b"]),
    (Op::CvmResults, &["--cvm-results", "--9F34", "--9f34", "--cvm-result", "-r"]), (Op::CvmList, &["--cvm-list", "--8E", "--8e"]), (Op::Identify, &["--identify", "--id"]), (Op::Auto, &["--auto-tlv", "--auto", "--parse-tlv", "--parse", "-a"]),
    (Op::Ber, &["--ber-tlv", "--ber", "-b"]), (Op::Ingenico, &["--ingenico-tlv", "--ingenico", "-i"]), (Op::ServiceCode, &["--service-code", "--5F30", "--5f30"]),
];
pub fn aliases(p: u32) {
    let (op, names) = NAMES_OF[f(p, 0)];
    let name = names[f(p, 1)];
    let t = match f(p, 2) {
        0 => match op { Op::Ingenico => { let mut o = vec![]; ing(&mut o, &[0xC1], &syms(1)); o } Op::ServiceCode => vec![b'2', b'0' + below(10), b'1'], _ => { let mut v = spelled(op); let n = v.len(); v[if op == Op::CvmResults { 1 } else { n - 1 }] = sx::sym(); hex(&v) } },
        1 => match op { Op::Ingenico => b"T9A:0".to_vec(), Op::Identify => b"zz".to_vec(), _ => { let c = ascii(); sx::assume(c != b'-'); vec![c, b'x'] } },
        _ => vec![ascii()],
    };
    if f(p, 2) == 2 { sx::assume(t[0] != b'-'); }
    sx::begin();
    let short = name.len() == 2;
    if f(p, 3) == 0 { sx::arg(name.as_bytes()); sx::arg(&t); } else { let mut x = name.as_bytes().to_vec(); if !short || f(p, 3) == 2 { x.push(b'='); } x.extend_from_slice(&t); sx::arg(&x); }
    let r = sx::run();
    judge(op, &t, &PLAIN, &r);
    sx::check(r.out.is_empty() || r.err.is_empty(), "a report and an error");
}
