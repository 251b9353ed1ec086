//! Which cases a check runs, and the bounds they amount to.
use crate::kit::*;
use crate::cases::{NAMES_OF, SIZES};
fn p4(a: usize, b: usize, c: usize, d: usize) -> u32 { a as u32 | (b as u32) << 8 | (c as u32) << 16 | (d as u32) << 24 }
pub fn jobs(prop: u32, thorough: bool) -> (Vec<(u32, u32)>, String) {
    let mut j: Vec<(u32, u32)> = vec![];
    let mut w: Vec<u32> = vec![];
    let t = thorough;
    let b: &str;
    let last = SIZES.len() - 2; // the last one only fits as text
    let sz: Vec<usize> = (0..=last).collect();
    let szq: Vec<usize> = if t { sz.clone() } else { vec![7, 8, 10, 13, 14, 15, 18, 23, 25, 26, 29] };
    match prop {
        1 => {
            for n in 1..=if t { 4 } else { 3 } { for form in 0..=4 { for (size, sym) in [(0, 0), (1, 1), (2, 0)] { if n == 3 && form > 1 && !t { continue; } j.push((101, p4(n, size, form, sym))); } } }
            for tag in [1, 2, 3, 5, 8] { for (form, n) in [(0, 0), (0, 1), (0, 2), (0, 15), (0, 16), (0, 17), (0, 40), (0, 127), (0, 128), (0, 255), (0, 256), (0, 300), (1, 0), (1, 5), (1, 128), (2, 0), (2, 3), (2, 256), (3, 0), (3, 33), (4, 0), (4, 20)] { if tag > 2 && n > 40 && !t { continue; } j.push((102, p4(tag, form, n & 255, n >> 8))); } }
            for (n, sizes, forms) in [(2, 0x00, 0x00), (2, 0x09, 0x04), (3, 0x05, 0x00), (3, 0x24, 0x1B), (3, 0x00, 0x39), (4, 0x1B, 0x00)] { for s in 0..2 { j.push((103, p4(n, sizes, forms, s))); } }
            for n in 1..=3 { j.push((104, p4(n, 0, 0, 0))); }
            for n in 1..=2 { for pre in 1..=4 { for suf in 0..=4 { j.push((104, p4(n, pre, suf, 0))); } } }
            for k in 0..=4 { for pre in [0, 2] { for rest in [0, 2, 9] { j.push((105, p4(k, pre, rest, if k > 2 { 1 } else { 0 }))); } } }
            for b0 in [0x5F, 0x9F, 0xBF] { for n in 0..=3 { j.push((106, p4(b0, n, 0, 0))); } }
            for k in 0..15 { for s in 0..2 { j.push((107, p4(k, k % 4, s, 0))); } }
            if t { for pre in 0..=4 { for suf in 0..=4 { j.push((104, p4(3, pre, suf, 0))); } } }
            for i in &szq { for form in [0, 3] { j.push((108, p4(*i, form, 1 + i % 3, form & 1))); } if SIZES[*i] < 65536 { j.push((108, p4(*i, 4, 1, 0))); if t { j.push((108, p4(*i, 2, 2, 1))); } } }
            for n in [10, 17, 64, 100, 128, 255, 256, 257, 300, 1000] { for at in [0, n / 2, n - 1] { j.push((109, p4(n & 255, n >> 8, at & 255, at >> 8))); } }
            for k in 0..6 { for r in 0..10 { j.push((110, p4(k, r, (k + r) % 3, 0))); if t { j.push((110, p4(k, r, (k + r + 1) % 3, 0))); } } }
            for s in 0..22 { for k in vec![0, 8, 16, 24, 32, 40, 64, 1, 2, 3, 4, 5, 26, 36, 72] { j.push((111, p4(s, k, 1, 0))); j.push((111, p4(s, k, 4, 0))); } }
            b = "one object: every tag of 1 to 3 bytes (thorough: 4), every length form, 0 to 2 value bytes; uncatalogued tags of 1, 2, 3, 5, 8 bytes with up to 300 value bytes (the first 96 symbolic)
                sequences of 2 to 4 objects with symbolic one-byte tags and values; all blocks of up to 3 bytes; 1 or 2 (thorough: 3) arbitrary bytes between valid prefixes and suffixes
                symbolic length bytes in every length form; every 5Fxx, 9Fxx, BFxx tag with 0 to 3 value bytes; every interpreted tag among plain ones
                values of up to 65400 bytes (first, middle and last symbolic; quick: a selection of sizes) in every length form; blocks of up to 1000 objects with one symbolic
                the length byte 0x80 in six kinds of object before ten kinds of continuation, flat and nested; the small worlds: every shape of up to four objects and selected deeper ones in which each constructed object has one of two tags, each primitive one one of two tags and one of two values";
        }
        2 => {
            for (k, n) in [(0, 17), (1, 23), (2, 23), (3, 17)] { for c in 1..=n { j.push((201, p4(k, c, 0, 0))); } }
            for pre in 0..=4 { for n in [0, 1, 2, 4, 5, 6, 12] { j.push((202, p4(n, pre, if n > 5 { 1 } else { 0 }, 0))); } }
            for pre in 0..=3 { for n in 0..=4 { j.push((204, p4(n, pre, 0, 0))); } }
            for pre in 0..=4 { for n in 1..=2 { j.push((203, p4(n, pre, 0, 0))); } }
            j.push((203, p4(3, 0, 0, 0)));
            for k in 0..=4 { for pre in [0, 1] { for rest in [0, 1, 3] { j.push((105, p4(k, pre, rest, if k > 2 { 1 } else { 0 }))); } } }
            if t { for pre in 1..=4 { j.push((203, p4(3, pre, 0, 0))); } }
            for i in 0..=last { for k in 0..4 { if k == 1 && SIZES[i] < 256 || k == 2 { continue; } if !t && k == 3 && i % 3 != 0 { continue; } for form in [0, 3] { j.push((205, p4(i, form, k, 0))); } } }
            for form in [0, 4] { j.push((205, p4(last + 1, form, 2, 0))); j.push((205, p4(last + 1, form, 1, 0))); }
            for n in [10, 64, 255, 256, 300, 600] { for k in 0..6 { j.push((206, p4(n & 255, n >> 8, k, k % 2))); } }
            for k in 1..=4 { for n in [0, 1, 2, 5, 17] { for m in 0..3 { for x in 0..k { if k > 1 && x > 0 && (n > 2 || m > 0) { continue; } j.push((207, p4(k, n, m, x))); } } } } for k in [5, 6, 7, 8, 9, 16, 17, 63, 64, 126, 127] { for n in [0, 1, 2, 5, 17] { for m in 0..3 { for x in [0, 1, k - 1] { if x > 0 && (n != 1 || m > 0) { continue; } j.push((207, p4(k, n, m, x))); } } } }
            b = "four templates of well-formed blocks (1 to 4 byte tags, all length forms, nesting) with symbolic values, cut after every byte
                valid prefixes followed by: every length byte from 0x80 up with up to 12 further bytes; every unfinished tag of up to 5 bytes; 1 or 2 (first object: 3) arbitrary bytes; symbolic length bytes in every form
                declared lengths of 1 to 65537 with one byte less, half, or the length modulo 256 or 65536 present; up to 600 good objects before six kinds of malformed tail with a symbolic byte; length fields of up to 127 bytes that begin with zeros, at the end, in the middle and nested";
        }
        3 => {
            for op in 0..11 { for n in 1..=2 { for pre in [0, 1, 3, 5] { if n == 2 && pre > 1 { continue; } j.push((301, p4(op, n, pre, 0))); } } }
            if t { for op in [0, 3, 6, 7, 8, 9] { j.push((301, p4(op, 3, 0, 0))); } for op in [9] { for n in 4..=7 { j.push((301, p4(op, n, 0, 0))); } } }
            for op in 0..11 { for pre in [0, 2, 3, 8] { j.push((302, p4(op, 0, pre, (op + pre) % 2))); } j.push((302, p4(op, 1, 4, 0))); }
            for i in 0..4 { for bg in 0..2 { for c in 0..2 { j.push((303, p4(i, bg, c, 0))); } } }
            for i in 0..8 { for bg in 0..2 { j.push((304, p4(i, bg, i % 2, 0))); if t { j.push((304, p4(i, bg, 1 - i % 2, 0))); } } }
            for n in [1, 3, 100, 127, 255, 256, 257, 300] { j.push((305, p4(n & 255, n >> 8, if n < 50 { 2 } else { 1 }, 0))); }
            for (op, n) in [(0, 5), (2, 5), (3, 2), (4, 3), (5, 8), (5, 12), (1, 32), (6, 3)] { for i in 0..n { for bg in 0..2 { j.push((306, p4(op, n, i, bg))); } } }
            for k in 0..15 { for n in [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 31, 32, 33] { j.push((307, p4(k, n, n % 2, 0))); } }
            for op in [1, 5, 7, 8, 9, 10] { for i in [0, 3, 7] { j.push((308, p4(op, i, 9, 0))); } }
            for (k, n) in [(0, 25), (1, 10), (2, 39), (3, 43), (4, 31)] { for c in 1..=n { j.push((309, p4(k, c, 0, 255))); if c > 1 { j.push((309, p4(k, c, 1, 255))); } if t || c % 2 == 0 { j.push((309, p4(k, c, 0, 1))); } if t { j.push((309, p4(k, c, 0, 2))); j.push((309, p4(k, c, 1, 2))); } } }
            for (k, n) in [(0, 17), (1, 23), (2, 23), (3, 17)] { for c in 1..=n { j.push((310, p4(k, c, 0, c % 2))); if c > 1 { j.push((310, p4(k, c, 1, (c + 1) % 2))); } if t { for d in 2..c { j.push((310, p4(k, c, d, 0))); } } } }
            for op in 0..11 { if op == 10 { continue; } for i in if t { vec![14, 18, 25, 28, 30] } else { vec![14, 25, 30] } { j.push((311, p4(op, i, 0, 0))); } }
            b = "every option: every ASCII text of 1 or 2 characters, the same after other text, every two-byte and most three-byte UTF-8 characters inside text
                declared lengths up to 2^32-1 with each byte or digit symbolic; nesting up to 300 levels around symbolic bytes
                every option at its right size with each byte symbolic; every interpreted tag at sizes 0 to 33 with a symbolic byte
                known finding: the native stack limit is not modelled (see known_findings.json)
                five Ingenico and four BER-TLV templates cut after every character or byte with one symbolic character at or before the cut (Ingenico: also two); values of up to 65400 bytes for every option";
        }
        4 => {
            for n in 1..=2 { for form in 0..2 { j.push((401, p4(n, form, 0, 0))); } }
            for d in [0, 1, 2, 3, 5, 9, 20] { for s in 0..2 { j.push((402, p4(d, 0, 2, s))); } }
            for d in [60, 254, 255, 256, 257, 300] { j.push((402, p4(d & 255, d >> 8, 1, 0))); }
            for n in 0..=2 { for pre in 0..=4 { for x in 0..2 { j.push((403, p4(n, pre, x, (n + pre) % 2))); } } }
            j.push((403, p4(3, 0, 0, 0)));
            for n in 0..=2 { for form in 0..3 { for s in 0..2 { j.push((404, p4(n, form, s, 0))); } } }
            for (k, n) in [(0, 17), (2, 23)] { for c in (0..=n).step_by(if t { 1 } else { 2 }) { j.push((405, p4(k, c, 0, 0))); } }
            for n in 0..=2 { for pre in 0..=3 { j.push((406, p4(n, pre, 0, 0))); } }
            if t { for pre in 1..=4 { j.push((403, p4(3, pre, 0, 0))); } for pre in 0..=3 { j.push((406, p4(3, pre, 0, 0))); } }
            for n in [1, 2, 5, 17, 100, 255, 256, 300] { for at in [0, n - 1] { j.push((407, p4(n & 255, n >> 8, at & 255, at >> 8))); } for k in 0..4 { j.push((409, p4(n & 255, n >> 8, k, 0))); } }
            for i in &szq { for d in [1, 2, 5] { if SIZES[*i] > 65000 && d > 1 { continue; } j.push((408, p4(*i, d, d / 2 % 2, 0))); } }
            for n in 1..=2 { j.push((410, p4(n, 0, 0, 0))); }
            for s in 0..22 { for k in vec![0, 8, 16, 24, 32, 64, 2, 5] { for m in 0..6 { j.push((411, p4(s, k, m, 0))); } } }
            b = "every one- and two-byte tag (constructed or not) around a child; chains of up to 300 levels, with siblings up to 20 levels, symbolic innermost bytes
                constructed values of up to 3 arbitrary bytes, alone and after valid children, in BER-TLV and Ingenico; templates cut inside a constructed value; symbolic constructed bit at the second level
                up to 300 children, one symbolic, with a good or malformed end; children of up to 65400 bytes; every one- and two-byte tag around two children at the second level; the small worlds: every shape of up to four objects and selected deeper ones in which each constructed object has one of two tags, each primitive one one of two tags and one of two values";
        }
        5 => {
            for n in 0..=8 { for m in 0..9 { j.push((501, p4(if m == 0 { n % 8 } else { 0 }, n, m, 0))); } }
            for n in [16, 17, 40, 90] { j.push((501, p4(0, n, 0, 0))); } for n in [4, 5, 16, 40] { for at in [0, n - 1] { j.push((503, p4(3, n, 0, at))); } }
            for k in 1..8 { for n in [1, 2, 3] { j.push((503, p4(k, n, 0, n - 1))); } }
            for n in [2, 3, 7, 15, 16, 127, 128, 200] { for at in [0, 1, n / 2, n - 1] { j.push((503, p4(0, n, 0, at))); } }
            for n in 0..=3 { for m in [0, 1, 3, 5, 6, 7] { for fm in 0..2 { j.push((502, p4(0, n, m, fm))); } } }
            for k in 1..8 { for fm in 0..2 { j.push((502, p4(k, 2, 0, fm))); } }
            for n in 0..=4 { j.push((504, p4(n, 0, 0, 0))); }
            j.push((505, 0));
            for i in 4..=last { let big = SIZES[i] > 2000; for at in if big { vec![0, 4] } else { vec![0, 1, 3, 4] } { if big && !t && i % 2 == 1 && at == 4 { continue; } j.push((506, p4(i, at, 1, at & 1))); if SIZES[i] < 32768 { j.push((507, p4(i, at, 1, i % 2))); } } j.push((506, p4(i, 0, 0, 0))); if SIZES[i] < 32768 { j.push((507, p4(i, 0, 0, 1 - i % 2))); } }
            for n in [2, 3, 4, 8, 12] { j.push((508, p4(n, 0, 0, 0))); }
            for k in [2, 3, 4, 5, 8, 12, 16] { for n in [0, 1, 2, 3, 16] { for c in 0..5 { for at in [0, 1, 2, k / 2, k - 1] { if at >= k || n != 2 && at != k - 1 && !t { continue; } j.push((510, p4(k, n, c, at))); } } } }
            b = "BER-TLV values of 0 to 8, 16, 17, 40, 90 symbolic bytes under nine sets of masking characters; up to 200 equal bytes with one differing at several positions; eight kinds of tag
                Ingenico values of 0 to 3 bytes with all characters symbolic, both formats; masked among unmasked and nested; every ASCII masking character
                1 to 65400 equal symbolic bytes (Ingenico: 20000 characters), whole or with one differing at up to four positions; 2 to 16 masking characters, each of the first three, the middle and the last one symbolic, over 0 to 16 characters in five carriers";
        }
        6 => {
            for n in [2, 4] { for z in 0..3 { for s in 0..=2 { if n == 2 { j.push((601, p4(n, z, s, 0))); } else { for m in if t { &[1, 2, 3, 4, 8, 12][..] } else { &[3, 12][..] } { j.push((601, p4(n, z, s, *m))); } } } } }
            for bits in [1, 2, 4, 8, 16, 9, 18, 7, 24, 10, 20, 12, 17, 27, 31] { for s in 0..2 { j.push((602, p4(bits, 0, s, 0))); } }
            j.push((602, p4(0x20, 1, 0, 0)));
            for n in [0, 1, 2, 3, 8, 16, 17, 40, 90, 127, 255, 256] { j.push((603, p4(n & 255, n >> 8, 0, 0))); }
            for n in [0, 1, 2, 3, 8, 16, 33, 60, 128, 255, 256, 300] { for lc in 0..2 { j.push((604, p4(n & 255, n >> 8, lc, if n < 256 { n % 4 } else { lc }))); } }
            for k in 0..15 { j.push((605, p4(k, k % 2, 0, 0))); }
            for n in 0..=3 { for fm in 0..2 { j.push((606, p4(n, fm, 0, 0))); } }
            for n in [4, 10, 17, 64, 100, 255, 256, 300, 1000] { for at in [0, n - 1] { j.push((607, p4(n & 255, n >> 8, at & 255, at >> 8))); } }
            for i in &szq { j.push((608, p4(*i, 1, 0, 0))); if SIZES[*i] < 60000 { j.push((608, p4(*i, 0, 0, 0))); } for k in 0..2 { if k == 1 || SIZES[*i] < 60000 { j.push((610, p4(*i, k, 0, 0))); } } }
            j.push((608, p4(last + 1, 1, 0, 0))); j.push((610, p4(last + 1, 1, 0, 0)));
            for n in 1..=3 { for z in [0, 1, 2, 5] { if n == 3 && z > 1 && !t { continue; } j.push((609, p4(n, z, 0, 0))); } }
            for a in 1..=4 { for c in 1..=4 { for i in 0..3 { if a == 1 || t || (a + c + i) % 2 == 0 { j.push((611, p4(a, c, i, 255))); } } } } for (i, l) in [(0, 1), (1, 2), (0, 2)] { j.push((611, p4(1, 1, i, l))); j.push((611, p4(2, 2, i, l))); }
            b = "tags of 1 and 2 symbolic bytes in either case with up to 2 leading zero bytes; symbolic entry kinds and separators over three entries
                text values of up to 256 characters (90 symbolic), hex values of up to 300 bytes (60 symbolic), lengths padded to 4 bytes; skipped entries with symbolic content; every interpreted tag
                up to 1000 entries, one symbolic; text of up to 65537 and hex of up to 32768 bytes; skipped entries of that size; tags of 1 to 3 bytes after up to 5 zero bytes; kinds and separators of one to four UTF-8 bytes at once";
        }
        7 => {
            for (k, n) in [(0, 25), (1, 10), (2, 39), (3, 43)] { for c in 1..=n { j.push((701, p4(k, c, 0, 0))); } }
            for (k, n) in [(0, 25), (1, 10), (2, 39), (3, 43)] { for c in 0..n { j.push((702, p4(k, c, 255, 0))); } }
            for c in 0..10 { for d in c + 1..10 { j.push((702, p4(1, c, d, 0))); } }
            for (k, n) in [(0, 25), (1, 10)] { for c in 0..=n { j.push((703, p4(k, c, 0, 0))); j.push((704, p4(k, c, 0, 0))); } }
            for (k, n) in [(0, 25), (1, 10)] { for c in 0..n { j.push((705, p4(k, c, 255, 0))); } }
            for c in 0..10 { j.push((705, p4(1, c, (c + 3) % 9, 0))); }
            for n in 1..=if t { 8 } else { 6 } { j.push((706, p4(n, 0, 0, 0))); }
            for n in [1, 2, 3, 4, 7, 8, 9, 10, 12] { for i in 0..n { if i % 2 == 0 || n < 5 { j.push((707, p4(n, i, 255, 0))); } } }
            j.push((707, p4(0, 255, 255, 0))); j.push((707, p4(2, 0, 1, 0)));
            if t { for c in 0..25 { for d in c + 1..25 { j.push((702, p4(0, c, d, 0))); } } for (k, n) in [(2, 39), (3, 43)] { for c in 0..n { j.push((703, p4(k, c, 0, 0))); j.push((704, p4(k, c, 0, 0))); j.push((705, p4(k, c, 255, 0))); } } }
            for n in [1, 2, 10, 64, 255, 256, 300] { for k in 0..8 { j.push((708, p4(n & 255, n >> 8, k, 0))); } }
            for i in 0..=last { for fm in 0..2 { if fm == 0 && SIZES[i] >= 60000 { continue; } for k in [0, 1, 3] { if k == 1 && SIZES[i] < 256 || !t && k == 3 && i % 3 != 0 { continue; } j.push((709, p4(i, fm, k, 0))); if fm == 0 && k == 0 { j.push((709, p4(i, fm, k, 1))); } } } }
            for fm in 0..2 { for k in 1..3 { j.push((709, p4(last + 1, fm, k, 0))); } }
            for n in 1..=if t { 8 } else { 4 } { for i in 0..2 * n { j.push((710, p4(n, i, 0, 0))); } } for i in [0, 1, 40, 99, 254, 255] { j.push((710, p4(128, i, 2, 0))); }
            for (k, n) in [(0, 8), (1, 8), (2, 10), (3, 26)] { for c in 0..=n { for s in 0..2 { j.push((711, p4(k, c, s, 0))); } } }
            for n in 2..=4 { for m in [0, 1, 2, 7] { for fm in 0..2 { for e in 0..2 { j.push((712, p4(n, m, fm, e))); } } } }
            for c in 0..=31 { if c > 0 { j.push((701, p4(4, c, 0, 0))); } j.push((703, p4(4, c, 0, 0))); if c < 31 { j.push((702, p4(4, c, 255, 0))); j.push((705, p4(4, c, 255, 0))); } }
            for k in 1..=12 { for n in [0, 1, 2, 5, 17] { for m in 3..=4 { for x in [0, 1, k - 1] { if x > 0 && (n != 1 && n != 5) { continue; } j.push((713, p4(k, n, m, x))); } } } }
            b = "all ASCII texts of up to 6 characters (thorough: 8); four templates cut at every position, with a symbolic character in every position (one template: every pair of positions), inserted or removed at every position of two templates; every two-byte UTF-8 character inserted at every position of two templates; length fields of 0 to 12 characters with symbolic digits
                up to 300 good entries before eight kinds of malformed tail with a symbolic character; declared lengths of 1 to 65537 with fewer characters present; every character of hex values of 1 to 4 (and 128) bytes symbolic; entries with empty values cut anywhere
                lengths of 2 to 4 bytes with all but the lowest symbolic and fewer or as many bytes present; length fields of up to 12 bytes that begin with zeros";
        }
        8 => {
            for k in 0..8 { for n in [0, 1, 2] { for x in 0..2 { if k == 2 && n > 1 && x == 1 { continue; } j.push((801, p4(k, n, x, 0))); } } }
            for n in [3, 16, 40] { j.push((801, p4(0, n, 0, 0))); j.push((801, p4(3, n, 1, 0))); }
            for k in 0..15 { let n = [5, 2, 3, 12, 32, 2, 2, 1, 1, 1, 3, 5, 5, 5, 5][k]; for i in 0..n { if k == 4 && i > 8 && i % 4 != 0 && !t { continue; } j.push((802, p4(k, i, (i + k) % 2, 0))); } }
            for n in 1..=2 { for s in 0..=2 { j.push((803, p4(n, s, 0, 0))); } }
            for i in &szq { j.push((804, p4(*i, 1, 0, 0))); if SIZES[*i] < 60000 { j.push((804, p4(*i, 0, 0, 0))); } }
            for n in [4, 10, 64, 255, 256, 300] { for at in [0, n - 1] { j.push((805, p4(n & 255, n >> 8, at & 255, at >> 8))); } }
            for k in 0..6 { for v in 0..6 { for n in if t { vec![0, 1, 2, 3, 16] } else { vec![0, 1, 2] } { if v == 3 && n > 2 { continue; } j.push((806, p4(k, v, n, (k + v) % 6))); if t { j.push((806, p4(k, v, n, 0))); } } } }
            for k in 0..15 { let n = [5usize, 2, 3, 12, 32, 2, 2, 1, 1, 1, 3, 5, 5, 5, 5][k]; for m in [n - 1, n, n + 1] { for at in 0..m { if !t && at > 3 && (at + k) % 3 != 0 { continue; } j.push((807, p4(k, m, at, 255))); } if m > 1 && m == n && k != 5 && k != 11 { j.push((807, p4(k, m, 0, m - 1))); } } }
            for n in 1..=3 { for o in 0..6 { for x in 0..2 { if n == 3 && o > 1 && !t { continue; } j.push((808, p4(n, o, x, 0))); } } }
            for s in 0..22 { for k in vec![0, 8, 16, 24, 32, 64, 2, 5, 6] { for m in 0..2 { j.push((809, p4(s, k, m, 0))); } } }
            b = "eight tags with 0 to 2 (two of them up to 40) symbolic value bytes, as hex and as text; every interpreted tag with one symbolic byte (issuer application data: a selection of its positions) in three-object blocks; every one- and two-byte tag with 0 to 2 value bytes
                values of up to 65400 bytes of text or 32768 of hex; up to 300 objects
                constructed objects transmitted as text (six tags, six layouts of children, 0 to 2 symbolic characters); every interpreted tag with text values of the right size and one off; every tag of 1 to 3 bytes under six sets of options; the small worlds (see P01)";
        }
        9 => {
            for (k, n) in [(0, 25), (1, 10), (2, 39)] { for c in (0..n).step_by(if k == 2 && !t { 2 } else { 1 }) { j.push((901, p4(k, c, 255, 1))); } }
            for n in 1..=2 { for pre in 0..=3 { j.push((902, p4(n, pre, 1, 0))); } }
            j.push((902, p4(3, 0, 0, 0)));
            for n in 1..=if t { 4 } else { 3 } { j.push((903, p4(n, 0, 0, 0))); }
            for (k, n) in [(0, 17), (1, 23)] { for c in (1..=n).step_by(if t { 1 } else { 2 }) { j.push((904, p4(k, c, 0, 0))); } }
            for (k, n) in [(0, 25), (1, 10)] { for c in 1..=n { j.push((905, p4(k, c, 0, 0))); } }
            for k in 0..9 { j.push((906, p4(k, 0, 0, 0))); }
            for n in [3, 17, 100, 255, 256, 300] { for k in 0..4 { j.push((907, p4(k, n & 255, n >> 8, 0))); } }
            for i in &szq { for k in 0..2 { if k == 0 || SIZES[*i] < 60000 { j.push((908, p4(*i, k, 0, 0))); } } }
            for c in 0..=31 { if c > 0 { j.push((905, p4(4, c, 0, 0))); } if c < 31 { j.push((901, p4(4, c, 255, 1))); } }
            for (k, n) in [(0, 25), (1, 10), (2, 39), (4, 31)] { for c in 0..=n { for m in 0..4 { if m == 1 && c == n || !t && k != 1 && (c + m) % 3 != 0 { continue; } j.push((909, p4(k, c, m, c % 2))); } } }
            for k in [0, 1, 4, 10, 11, 12] { for (x, y) in [(1, 0), (0, 1), (2, 0), (0, 2), (1, 1)] { if !t && (x + y > 1) && k != 1 { continue; } if !t && k >= 10 && x > 0 { continue; } j.push((910, p4(k, x, y, 0))); } }
            for (k, n) in [(0, 16), (1, 14)] { for c in 0..n { for m in 0..4 { j.push((911, p4(k, c, m, 0))); } } }
            for k in 0..10 { for c in 0..20 { if t || c < 7 || c % 3 == 0 { j.push((912, p4(k, c, 0, 0))); } } }
            for k in 0..6 { let n = [14, 12, 8, 10, 8, 16][k]; for x in 0..n { for y in x..n { for m in [0, 1, 5, 2, 3] { if !t && m != 0 && m != 1 && (x + y + m) % 4 != 0 { continue; } if (k == 1 || k == 2) && m == 2 && !t { continue; } j.push((913, p4(k, x, y, m))); } } } }
            b = "all ASCII texts of up to 3 characters (thorough: 4); all hex blocks of up to 3 bytes, 1 or 2 bytes after valid prefixes; Ingenico templates with a symbolic character in every position or cut anywhere; BER-TLV templates cut anywhere; BER-TLV text behind other text and a symbolic character
                up to 300 objects or entries, whole or with a malformed tail; values of up to 65400 bytes
                a symbolic character or two-byte UTF-8 character inserted in, removed from, before or after blocks of both formats at every position (quick: a third of the positions of the longer ones); texts that look like the other format; BER-TLV digits with colons at every pair of places";
        }
        10 => {
            for op in 0..9 { let n = [10, 64, 10, 4, 6, 20, 6, 16, 16][op]; for i in 0..=n { if op == 1 && i % 8 != 1 && i != n && !t { continue; } j.push((1001, p4(op, 0, i, if i % 3 == 0 { 0 } else { i % 5 }))); } }
            for op in 0..9 { for s in 0..5 { for k in [0, 2, 255] { if op == 1 && k == 0 { continue; } j.push((1002, p4(op, k, s, 0))); } } }
            for op in 0..9 { for at in [0, 1, 255] { j.push((1003, p4(op, at, 0, 0))); } }
            for n in [16, 64, 127, 128, 130, 255, 256, 300, 1000] { for at in [1, n, 255, 256, 2 * n - 1] { if at < 2 * n { j.push((1004, p4(n & 255, n >> 8, at & 255, at >> 8))); } } }
            for op in 0..9 { for (k, at) in [(2, 0), (3, 1), (4, 2), (5, 3), (8, 0), (17, 1), (64, 2), (250, 0)] { j.push((1005, p4(op, k, at, 0))); } }
            for op in 0..9 { let n = [10, 64, 10, 4, 6, 20, 6, 16, 16][op]; for at in [0, 1, n / 2, n] { for w in 1..=4 { if w == 1 || w == 4 && at > 1 && !t { continue; } j.push((1006, p4(op, w, at, 0))); } } for w in [2, 3] { if t || op % 2 == 0 { j.push((1006, p4(op, w, 1, 5 - w))); } } }
            for op in 0..9 { for (x, y) in [(1, 0), (2, 0), (0, 1), (0, 2), (1, 1)] { if op == 1 && x + y > 1 && !t { continue; } j.push((1007, p4(op, x, y, 0))); } }
            for op in 0..9 { for k in 0..15 { j.push((1008, p4(op, k, 200, 0))); if t || (op + k) % 3 == 0 { j.push((1008, p4(op, k, 2, 0))); } } }
            for op in 0..9 { for l in 0..32 { for g in 0..8 { if !t && g > 1 && (op + l + g) % 4 != 0 { continue; } j.push((1009, p4(op, l, g, if op == 1 && g != 3 { 40 } else { (l + g) % 2 }))); } } }
            b = "nine options: every non-hex ASCII character inserted at one or two positions of the digits, the case of every letter among the first eight digits symbolic; five spellings with separators, prefixes and non-ASCII characters over a symbolic byte; every extra ASCII character at the start, second place or end
                BER-TLV hex of up to 1000 bytes with a symbolic separator at five positions and the rest in lower case; up to 250 separators in a row
                every UTF-8 character of two bytes and most of three and four at several positions; up to two arbitrary ASCII characters before or after the digits; fifteen customary prefixes and separators; thirty-two customary layouts of hex (0x prefixes, C arrays, escapes, dumps) with the digits in eight kinds of groups, also without leading zeros, one byte symbolic";
        }
        11 => {
            for (n, shape) in [(2, 0x00), (3, 0x00), (4, 0x00), (3, 0x15), (3, 0x24), (4, 0x44), (2, 0x0A), (3, 0x08), (3, 0x34), (2, 0x0D)] { for s in 0..2 { for a in 0..2 { if n == 4 && a == 1 { continue; } j.push((1101, p4(n, shape, s, a))); } } }
            for k in 0..15 { for s in 0..2 { j.push((1102, p4(k, s, 0, 0))); } }
            for n in [4, 8, 21, 25, 40] { for s in 0..2 { j.push((1103, p4(n, s, 0, 0))); } }
            for n in 2..=4 { for s in 0..2 { j.push((1104, p4(n, s, 0, 0))); } }
            if t { j.push((1101, p4(5, 0, 0, 0))); j.push((1104, p4(5, 0, 0, 0))); }
            for (n, shape) in [(1, 2), (1, 0), (2, 2), (2, 8), (3, 0x2A), (3, 0x02), (3, 0x20)] { for s in 0..2 { for a in 0..2 { if n == 3 && shape == 0x2A && (a == 1 || !t) { continue; } j.push((1101, p4(n, shape, s, a))); } } }
            for n in [5, 20, 21, 32, 33, 50, 100, 200, 255, 256, 300] { for s in 0..2 { if s == 1 && n % 2 == 1 { continue; } j.push((1105, p4(n & 255, n >> 8, s, 0))); } }
            for d in [1, 2, 3, 4, 8] { for n in 2..=3 { for s in 0..2 { for a in 0..2 { if d > 2 && a == 1 { continue; } j.push((1106, p4(d, n, s, a))); } } } }
            for d in 0..=3 { for s in 0..2 { j.push((1107, p4(d, s, 0, 0))); } }
            for l in [1, 2, 3, 4, 7, 8] { for n in 2..=3 { for s in 0..2 { if s == 1 && n == 3 { continue; } j.push((1108, p4(l, n, s, 0))); } } }
            for s in 0..22 { for k in vec![0, 2, 5, 1, 32] { for m in 0..6 { j.push((1109, p4(s, k, m, 0))); } } }
            b = "2 to 4 (thorough: 5) objects with symbolic tags of one, two or three bytes, nested objects with symbolic tags, sorting on and off, three parsers; up to 40 objects with repeated tags of which three symbolic; mixes of the interpreted tags
                lone objects and templates, templates in templates to depth 8; tags sharing up to 8 leading bytes; up to 300 objects with two symbolic tags (of four values); the small worlds (see P01)";
        }
        12 => {
            for n in 1..=2 { for e in 0..=2 { for c in 0..2 { j.push((1201, p4(n, e, c, 0))); } } }
            for b0 in [0x5F, 0x9F, 0xBF, 0xDF, 0x7F, 0x00] { j.push((1202, p4(b0, 0, 0, 0))); }
            for n in 1..=3 { j.push((1203, p4(n, 0, 0, 0))); }
            for n in 1..=2 { j.push((1204, p4(n, 0, 0, 0))); }
            if t { j.push((1204, p4(3, 0, 0, 0))); j.push((1201, p4(3, 0, 0, 0))); j.push((1201, p4(3, 1, 0, 0))); }
            for n in [3, 4, 5, 8, 16, 17, 100, 255, 256, 300] { for i in [0, 1, 2, if n < 256 { n - 1 } else { 255 }] { j.push((1205, p4(n & 255, n >> 8, i, 0))); } }
            for k in 0..9 { for m in 0..6 { if m == 0 && !t && k % 3 != 1 { j.push((1206, p4(k, 2, 1, 0))); continue; } j.push((1206, p4(k, m, 0, 0))); } }
            b = "all tags of one and two bytes, followed by up to two further bytes (thorough: all of three); all ASCII texts of up to two characters (thorough: three); all tags of one to three bytes in a TLV block
                tags of up to 300 bytes with a symbolic byte at four positions
                nine catalogued tags with two arbitrary bytes behind or one before, or up to four equal bytes behind";
        }
        13 => {
            for k in 0..6 { let n = [5, 2, 3, 12, 32, 2][k]; for i in 0..n { j.push((1301, p4(k, i, 255, 0))); } for s in [0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 31, 33] { if k == 5 && s != 2 { continue; } j.push((1301, p4(k, 0, 255, s + 1))); } }
            j.push((1301, p4(1, 0, 1, 0))); j.push((1301, p4(2, 0, 1, 0))); j.push((1301, p4(2, 1, 2, 0))); for a in [0, 1, 2, 5, 9, 10, 0x10, 0x99, 0xA0, 0xFE] { j.push((1301, p4(5, 1, a, 0))); } j.push((1301, p4(3, 8, 9, 0))); j.push((1301, p4(3, 10, 11, 0))); j.push((1301, p4(4, 0, 1, 0))); j.push((1301, p4(4, 1, 16, 0)));
            for k in 0..6 { let n = [5, 2, 3, 12, 32, 2][k]; for i in 0..n.min(if t { 32 } else { 4 }) { j.push((1302, p4(k, i, 255, 0))); } }
            if t { for i in 0..5 { for l in i + 1..5 { j.push((1301, p4(0, i, l, 0))); } } for i in 3..8 { for l in i + 1..8 { j.push((1301, p4(4, i, l, 0))); } } }
            for n in [0, 1, 2, 3, 4, 5, 9, 10, 11, 60, 121, 122, 124, 127, 128, 255, 256, 300] { for a in [0, 2] { if a == 2 && n > 11 { continue; } j.push((1303, p4(n & 255, n >> 8, (n / 2) & 255, a))); } }
            for k in [0, 1, 2, 4] { for m in 1..=2 { j.push((1304, p4(k, m, 0, 0))); } }
            for d in 0..=3 { for n in 1..=4 { for a in 0..3 { if a == 1 || a == 2 && n > 1 { continue; } j.push((1305, p4(d, n, a, 0))); } } }
            for d in [0, 2] { for (k, n) in [(0, 5), (1, 2), (2, 3), (3, 12)] { for i in 0..n - 1 { if k == 3 && i < 7 && !t { continue; } j.push((1306, p4(k, i, i + 1, d))); } } for a in 0..10 { j.push((1306, p4(5, a, 0, d))); } }
            for k in 0..6 { let n = [5, 2, 3, 12, 32, 2][k]; for i in 0..n { if k == 4 && i > 9 && i % 4 != 1 { continue; } if k == 3 && i < 8 && i != 3 { continue; } for d in 0..3 { for c in 0..2 { if !t && (i > 1 && d != 1 || c == 0 && d == 0) { continue; } j.push((1307, p4(k, i, d, c + 2 * ((i + d) % 2)))); } } } }
            b = "the six values with an option of their own: a valid value with each byte symbolic in turn and selected pairs of bytes; sizes 0 to 33; nested inside an Ingenico entry
                verification lists of up to 300 rules with one symbolic; sizes 256 and 512 above the right one
                verification lists with zero amounts and a fully symbolic last rule, up to 3 levels deep; every pair of neighbouring bytes of the small values, alone against 0 and 2 levels deep; the same up to two levels deep with colour";
        }
        14 => {
            for s in 0..4 { j.push((1401, p4(6, 0, 1, s))); for k in [7, 8, 9] { j.push((1401, p4(k, 0, 255, s))); } }
            for i in [0, 1, 16, 2, 31] { j.push((1401, p4(4, i, 255, i % 4))); }
            j.push((1401, p4(4, 0, 1, 0))); for a in [0, 1, 2, 5, 9, 10, 0x10, 0x99, 0xA0, 0xFE] { j.push((1401, p4(5, 1, a, a % 4))); } j.push((1401, p4(2, 2, 255, 2)));
            for k in 0..15 { for n in 0..=9 { j.push((1402, p4(k, n, 0, 0))); } }
            for n in 1..=2 { for s in [0, 1, 2, 5] { j.push((1403, p4(n, s, 1, 0))); } }
            for s in [31, 32, 33] { j.push((1402, p4(4, s, 1, 0))); }
            for k in 0..15 { let n = [5, 2, 3, 12, 32, 2, 2, 1, 1, 1, 3, 5, 5, 5, 5][k]; j.push((1404, p4(k, 0, 2, 0))); j.push((1404, p4(k, (n - 1) % 16, 2, 2))); if k >= 6 && k < 10 { for (m, at) in [(40, 39), (255, 100), (255, 255)] { j.push((1404, p4(k, 0, m, at))); } } }
            for a in [4, 5, 6, 7, 8, 9, 0, 10] { for c in [6, 7, 8, 9, 4, 1] { if a != c { j.push((1405, p4(a, c, 1, 0))); } } }
            for k in 0..15 { for n in if t { vec![0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 31, 32, 33] } else { vec![0, 1, 2, 3, 5, 6, 9, 32] } { j.push((1406, p4(k, n, n % 2, 0))); } }
            for n in [33, 34, 40, 47, 48, 49, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 300, 512, 600] { for k in 0..15 { if k != 4 && !t && (n + k) % 4 != 0 { continue; } j.push((1407, p4(k, n & 255, n >> 8, k % 2))); } }
            b = "every value of the coded fields (both bytes of the response code) between other objects, sorted or not, nested or not; issuer application data and service codes with symbolic markers and digits; every interpreted tag at sizes 0 to 9; every other one- and two-byte tag with 0 to 5 value bytes
                an interpreted value among up to 255 other objects; two interpreted values with a symbolic byte each; sizes 0 to 32 inside a constructed object; every interpreted tag with twenty sizes of 33 to 600 bytes";
        }
        15 => {
            byte_pairs(5, &[0, 1], &mut w); byte_singles(5, &[2, 3], &mut w);
            if t { nib_trios(5, &[0, 1, 2, 3], &mut w); byte_pairs(5, &[2, 3], &mut w); }
            for p in w.drain(..) { j.push((1501, p)); }
            b = "five bytes: every pair of bytes symbolic over all-zero and all-one backgrounds, every byte over two alternating backgrounds (thorough: every three half-bytes over four backgrounds, every pair over four)";
        }
        16 => {
            for k in 0..3 { byte_singles(5, &[0, 1, 2], &mut w); nib_pairs(5, if t { &[0, 1, 3][..] } else { &[1][..] }, &mut w); byte_pairs(5, if t { &[0, 1] } else { &[0] }, &mut w); for p in w.drain(..) { j.push((1601, p | k << 24)); } byte_singles(5, &[0, 3], &mut w); for p in w.drain(..) { j.push((1602, p | k << 24)); } byte_singles(5, &[1, 2], &mut w); for p in w.drain(..) { j.push((1603, p | k << 24)); } }
            for k in 12..15 { for i in 0..5 { for d in 1..=6 { for c in 0..2 { if !t && d > 3 && c == 0 { continue; } j.push((1604, p4(k, i, d, c))); } } } }
            b = "three action codes: every byte symbolic over three backgrounds, every pair of bytes over zeros, every pair of half-bytes over all-ones (thorough: three backgrounds; every pair of bytes over two), against the oracle and against the report of the same terminal verification results, with and without colour; up to 6 levels deep with colour";
        }
        17 => {
            j.push((1701, wp(0, wbyte(0), wbyte(1), 0))); j.push((1702, wp(0, wbyte(0), wbyte(1), 0)));
            byte_pairs(3, &[0, 1], &mut w); if t { w.push(wp(0, wbyte(0), wbyte(1), wbyte(2))); } for p in w.drain(..) { j.push((1703, p)); }
            byte_singles(5, &[0, 1, 2, 3], &mut w); nib_pairs(5, &[0, 1], &mut w); if t { byte_pairs(5, &[0], &mut w); nib_trios(5, &[0, 1], &mut w); } for p in w.drain(..) { j.push((1704, p)); }
            b = "transaction status: all values; terminal capabilities: every pair of bytes over two backgrounds (thorough: all values); additional capabilities: every byte over four backgrounds, every pair of half-bytes over two (thorough: every pair of bytes, every three half-bytes)";
        }
        18 => {
            byte_singles(5, &[0, 1, 2, 3], &mut w); nib_pairs(5, &[0, 1], &mut w); if t { nib_trios(5, &[0, 1, 2], &mut w); byte_pairs(5, &[0], &mut w); }
            for p in w.drain(..) { j.push((1801, p)); }
            for i in 0..5 { for bg in [0, 1, 2] { j.push((1802, p4(i, bg, (i + bg) % 2, 0))); } }
            b = "five bytes: every byte symbolic over four backgrounds, every pair of half-bytes over two (thorough: every three half-bytes over three, every pair of bytes); each byte together with the key index inside issuer application data";
        }
        19 => {
            for i in 0..32 { for bg in [0, 5] { j.push((1901, p4(bg, i, 255, 0))); } }
            for (a, c) in [(0, 1), (0, 16), (1, 16), (1, 2)] { j.push((1901, p4(4, a, c, 0))); }
            for bg in [1, 6] { for a in [0, 1, 16] { j.push((1901, p4(bg, a, 255, 1))); } }
            for bg in [0, 1, 7] { j.push((1902, p4(bg, 0, 0, 0))); }
            for n in 0..=if t { 64 } else { 40 } { j.push((1903, p4(n, n % 4, 0, 0))); }
            for a in 0..3 { for c in 0..3 { if a <= c { j.push((1904, p4(5, a, c, 0))); } } }
            nib_pairs(5, &[2], &mut w); if t { nib_pairs(5, &[0, 1, 3], &mut w); nib_trios(5, &[2], &mut w); } for p in w.drain(..) { j.push((1905, p | 5 << 24)); }
            for n in [64, 100, 127, 128, 200, 255] { j.push((1903, p4(n, 0, 0, 0))); }
            b = "32 bytes: each byte symbolic over two backgrounds, pairs of the three markers symbolic, all 24 bytes that are only shown symbolic at once; sizes 0 to 40 (thorough: 64); every pair of half-bytes of the verification results (thorough: four backgrounds and every three); alone and in a block
                sizes 64, 100, 127, 128, 200, 255";
        }
        20 => {
            byte_pairs(3, &[0], &mut w); w.push(wp(1, wbyte(2), 0, 0)); for r in [0] { let _ = r; w.push(wp(0, wbyte(0), wbyte(1), wbyte(2))); }
            for p in w.drain(..) { j.push((2001, p)); }
            byte_pairs(3, &[0], &mut w); for p in w.drain(..) { j.push((2002, p)); }
            for a in 0..14 { for c in 0..6 { for m in 0..2 { for x in 0..9 { if !t && (a + c + m + x) % 9 > 1 && x > 0 { continue; } j.push((2003, p4(m, a, c, x))); } } } }
            for a in 0..14 { for c in 0..14 { for x in 0..9 { if !t && (a * 3 + c + x) % 9 > 0 { continue; } j.push((2003, p4(2, a, c, x))); } } }
            b = "all three-byte values alone; every pair of bytes in a block; each byte symbolic with fourteen methods, fourteen conditions and six results in nine contexts (quick: a part of the combinations)";
        }
        21 => {
            for n in 1..=6 { for i in 0..n { j.push((2101, p4(n, i, i % 4, n))); } }
            for n in [0, 9, 10, 11, 40, 122] { j.push((2101, p4(n, n / 2, n % 4, 1))); }
            if t { j.push((2101, p4(99, 98, 2, 3))); j.push((2101, p4(100, 99, 2, 3))); }
            for i in 0..8 { for bg in 0..4 { j.push((2102, p4((i + bg) % 3, i, bg, 0))); } }
            for n in 0..=20 { for x in 0..2 { j.push((2103, p4(n, if n < 8 { 5 } else { n % 2 }, x, 0))); } }
            for n in 1..=5 { j.push((2104, p4(n, 0, 0, 0))); }
            for n in 1..=2 { for a in 0..4 { j.push((2105, p4(n, 0, a, 0))); } }
            for n in [20, 64, 99, 100, 127, 128, 129, 255, 256, 257, 300, 1000] { for at in [0, n - 1] { j.push((2106, p4(n & 255, n >> 8, at & 255, at >> 8))); } }
            for a in 0..10 { for c in 0..10 { if t || (a + 2 * c) % 3 == 0 { j.push((2107, p4(a, c, (a + c) % 2, 0))); if t { j.push((2107, p4(a, c, (a + c + 1) % 2, 0))); } } } }
            for n in [1, 2, 3, 4, 8, 20, 40, 120] { for i in [0, n / 2, n - 1] { for x in 0..2 { j.push((2108, p4(n, i, x, 0))); } } }
            for a in 0..24 { for c in [0, 3, 6, 8, 15, 17, 20] { for m in 0..4 { if !t && (a + c + m) % 2 == 1 { continue; } j.push((2109, p4(a, c, m, 0))); if a != c { j.push((2109, p4(c, a, m, 0))); } } } }

            b = "amounts just below and at every power of ten, low byte symbolic; 0 to 6, 9 to 11, 40 and 122 rules with one fully symbolic rule at each position (of the short lists), four pairs of amounts; each amount byte symbolic over four backgrounds; sizes 0 to 20, alone and in a block; two symbolic conditions with zero amounts
                up to 1000 rules with one symbolic; amounts around the powers of ten with a symbolic low byte (quick: a third of the pairs); lists where one rule of up to 120 refers to the amounts";
        }
        22 => {
            for d in 0..10 { j.push((2203, p4(d, 0, 0, 0))); }
            for n in 1..=6 { for i in 0..n { j.push((2201, p4(n, i, 255, 0))); j.push((2201, p4(n, i, 255, 1 + (n + i) % 6))); } }
            j.push((2201, p4(1, 0, 255, 0))); j.push((2201, p4(2, 0, 1, 0))); if t { for d in [0, 1, 9] { for (a, c) in [(0, 1), (0, 2), (1, 2)] { j.push((2201, p4(3, a, c, d))); } } j.push((2201, p4(4, 0, 3, 0))); j.push((2201, p4(4, 0, 1, 0))); }
            for hi in 0..16 { j.push((2202, p4(hi, 0, 2, 0))); } for lo in [0x00, 0x01, 0x27, 0x99, 0x9A] { j.push((2202, p4(0, lo, 1, 0))); } if t { j.push((2202, p4(0, 0, 3, 0))); }
            for z in [0, 1, 2, 3, 8, 40] { for k in 0..16 { for d in 0..=2 { if z > 1 && (d > 0 || k > 8) && !t { continue; } j.push((2204, p4(z, k, d, 0))); } } }
            for hi in 1..16 { j.push((2205, p4(hi << 4, 0, 0, 0))); }
            b = "all 1000 codes as text; texts of 1 to 6 characters with one symbolic ASCII character at each position, all texts of two characters (thorough: pairs of positions of three); TLV values with each byte symbolic, high bytes 00 to 0F (thorough: all values)
                texts of up to 60 characters: leading zeros, numbers around 2^16, 2^32 and 2^64, signs, spaces and other notations, with one of the last two characters symbolic
                TLV values: all values of both bytes (high bytes 00 to 0F one by one)";
        }
        23 => {
            for k in 0..3 { for c in 0..2 { j.push((2301, p4(k, c, 0, 0))); } }
            j.push((2302, 0)); j.push((2303, 0));
            for k in 0..3 { for x in 0..10 { j.push((2304, p4(k, 0, 0, x))); } }
            for o in 0..2 { for c in (0..256).filter(|c| t || *c < 0x20 && c % 8 == 0 || (0x2F..0x3C).contains(c) || (0x40..0x5C).contains(c) || c % 32 == 1 || *c > 0xFD) { for x in 0..10 { if !t && (c + o + x) % 5 != 0 || x == 9 && (c > 127 || c == 0) { continue; } j.push((2304, p4(3, o, c, x))); } } }
            b = "in ten contexts (alone, nested, repeated, in colour, among others, in each carrier); all values: one byte for transaction type, terminal type and POS entry mode, two bytes (and two text characters) for the authorisation response code";
        }
        24 => {
            for op in [0, 2, 3, 4, 5, 6] { for n in 0..=if t { 40 } else { 12 } { j.push((2401, p4(op, n, n % 2, 0))); } for n in [16, 17, 255] { j.push((2401, p4(op, n, 1, 0))); } }
            for k in 0..15 { if k == 4 { continue; } for n in 0..=if t { 40 } else { 9 } { j.push((2402, p4(k, n, n % 2, 0))); } for n in [127, 128, 200] { j.push((2402, p4(k, n, 4, 0))); } }
            for (op, n) in [(0, 5), (2, 5), (3, 2), (4, 3), (5, 8), (5, 9), (5, 7), (6, 1), (0, 4)] { for m in [1, 2, 3] { j.push((2403, p4(op, n, m, 0))); } }
            for k in 0..15 { if k == 4 { continue; } let n = [5, 2, 3, 12, 32, 2, 2, 1, 1, 1, 3, 5, 5, 5, 5][k]; for m in [1, 2] { j.push((2404, p4(k, n, m, 0))); } if k == 3 { j.push((2404, p4(k, 7, 1, 0))); j.push((2404, p4(k, 9, 1, 0))); } }
            b = "six options and fourteen interpreted tags at sizes 0 to 12 and 0 to 9 (thorough: 40) and a few large ones, one byte symbolic
                sizes 256, 512 and 768 above the right one";
        }
        25 => {
            for (k, n) in [(0, 5), (2, 3), (3, 5), (4, 5), (5, 3), (6, 5), (7, 5), (8, 5)] { byte_singles(n, &[0, 1], &mut w); if t { nib_pairs(n, &[0, 1, 2], &mut w); } if k == 5 { w.push(wp(0, wbyte(0), wbyte(1), wbyte(2))); } for p in w.drain(..) { j.push((2501, p | k << 24)); } }
            j.push((2501, wp(0, wbyte(0), wbyte(1), 0) | 1 << 24));
            for n in 1..=4 { for i in 0..n { j.push((2502, p4(n, i, 0, 0))); } }
            b = "nine bit fields: all reserved bits symbolic while each byte of the defined bits is symbolic over two backgrounds (transaction status and verification results: all values; thorough: every pair of half-bytes over three backgrounds); rules of a verification list";
        }
        26 => {
            for i in 0..5 { for bg in 0..2 { j.push((2601, p4(0, i, bg, 0))); j.push((2601, p4(1, i, bg, 0))); } }
            for i in [1, 2, 3, 4, 5, 6, 7, 8, 31] { j.push((2601, p4(2, i, 0, 0))); }
            j.push((2601, p4(3, 0, 0, 0))); for i in 0..3 { j.push((2601, p4(4, i, i, 0))); } for i in [0, 3, 8, 9, 11] { j.push((2601, p4(5, i, 0, 0))); }
            for i in 0..2 { j.push((2601, p4(6, i, 0, 0))); } for i in 0..3 { j.push((2601, p4(7, i, 0, 0))); }
            for k in 0..15 { j.push((2601, p4(8, if k == 4 { 3 } else { 0 }, k, 0))); } j.push((2601, p4(8, 0, 15, 0))); j.push((2601, p4(9, 0, 0, 0))); j.push((2601, p4(10, 0, 0, 0)));
            for k in [0, 3, 6, 7, 9, 10] { for x in 0..=4 { j.push((2602, p4(k, 0, 0, x))); } }
            nib_pairs(5, &[0], &mut w); if t { nib_pairs(5, &[1, 2], &mut w); } for p in w.drain(..) { for k in 0..2 { j.push((2603, p | k << 24)); } }
            for d in 0..=3 { for k in 0..15 { if k == 4 { continue; } if d > 1 && !t && k % 4 != 0 { continue; } j.push((2604, p4(d, k, 0, 0))); } }
            for k in 0..15 { for n in [2, 5] { j.push((2605, p4(k, n, (k + n) % 2, 0))); } }
            for op in 0..11 { for n in [1, 2] { if n == 2 && op == 10 { continue; } if op == 7 || op == 8 { j.push((2606, p4(op, 2, 0, 0))); continue; } j.push((2606, p4(op, n, 0, 0))); } }
            for s in 0..22 { for k in vec![0, 8, 32, 64, 3, 24 + 3, 6 + 24] { if k == 27 && s > 10 && !t { continue; } j.push((2607, p4(s, k, 3, 0))); } }
            for k in 0..15 { let n = [5, 2, 3, 12, 32, 2, 2, 1, 1, 1, 3, 5, 5, 5, 5][k]; for i in 0..n { if k == 4 && i % 4 != 1 { continue; } if k == 3 && i < 8 && i != 3 { continue; } for d in 1..=6 { if !t && d != 2 && d != 4 && (i + d + k) % 4 != 0 { continue; } j.push((2608, p4(k, i, d, 1 + 2 * (d % 2)))); } } }
            b = "every option and every interpreted tag with one symbolic byte, with colour always, ansi, auto and never; every pair of half-bytes of terminal and card verification results with colour
                every interpreted tag (first byte symbolic) beside masked and empty objects, up to 3 levels deep, with colour
                every interpreted tag masked, with colour; refusals of every option with colour; the small worlds (see P01) with colour; every interpreted tag up to 6 levels deep with colour";
        }
        27 => {
            for pl in 1..16 { for s in 0..3 { j.push((2701, p4(pl, 1 << s, if pl & 3 != 0 { (pl + s) % 2 } else { 0 }, 0))); } }
            for pl in [9, 10, 12, 6, 5, 3] { j.push((2701, p4(pl, 5, 0, 0))); j.push((2701, p4(pl, 3, 0, 0))); j.push((2701, p4(pl, 6, 0, 0))); }
            for k in 0..4 { j.push((2702, p4(k, 0, 0, 0))); }
            for v in 0..22 { for a in 0..2 { j.push((2703, p4(v, a, 0, 0))); } }
            if t { for pl in [9, 10, 12, 6, 5, 3] { j.push((2701, p4(pl, 7, 0, 0))); } for pl in 1..16 { for s in 0..3 { if pl & 3 != 0 { j.push((2701, p4(pl, 1 << s, (pl + s + 1) % 2, 0))); } } } }
            for pl in if t { (1..16).collect() } else { vec![2, 3, 6, 10, 12, 4, 8] } { for s in 0..2 { j.push((2701, p4(pl, 1 << s, 0, 1))); if pl & 3 != 0 { j.push((2701, p4(pl, 1 << s, 1, 1))); } } }
            for pl in 0..3 { for n in [1, 2, 5] { j.push((2704, p4(pl, n, 0, 0))); } for m in 0..4 { j.push((2705, p4(pl, m, 0, 0))); } }
            for s in 0..3 { j.push((2701, p4(2, 1 << s, 1, 1))); j.push((2701, p4(3, 1 << s, 1, 0))); }
            for pl in 0..6 { for k in [1, 2, 3, 4, 5, 6, 8, 12, 16] { for at in [0, k / 2, k - 1] { if !t && at == k / 2 && k > 4 { continue; } j.push((2706, p4(pl, k, at, (pl + k + at) % 2))); } } }
            for a in 0..4 { for s in 0..6 { for o in [8, 9, 7] { j.push((2707, p4(a, s, o, 0))); } } }
            b = "each setting absent or at either of two values in every combination of the four places (default section, selected profile, environment, command line), the profile selected or not, the file found by name or through the environment; two settings at once over six pairs of places; every ASCII masking character from each place; 22 spellings on the command line
                each setting also at its default value given explicitly, a selected profile that the file does not have, and a second file that must not be read; an empty set of masking characters; four non-ASCII ones; 1 to 16 masking characters from six places, one symbolic; a file named by the environment that is missing, empty or has another profile beside a file with the usual name";
        }
        28 => {
            for k in 0..5 { for n in [1, 2, 3, 16, 17] { if k == 3 && n > 2 { continue; } j.push((2801, p4(k, n, 0, 0))); } }
            j.push((2801, p4(0, 60, 0, 0)));
            for k in 0..5 { for n in [1, 2, 3, 16] { j.push((2802, p4(k, n, 0, 0))); } }
            for op in 0..11 { for n in 1..=2 { j.push((2803, p4(op, n, 0, 0))); } }
            for k in 0..15 { let n = [5, 2, 3, 12, 32, 2, 2, 1, 1, 1, 3, 5, 5, 5, 5][k]; for i in 0..n { if i > 8 && !t { continue; } j.push((2804, p4(k, i, 0, 0))); } }
            j.push((2805, 0));
            for n in 1..=2 { j.push((2806, p4(n, 0, 0, 0))); }
            for k in 0..6 { for n in [1, 2, 5, 8, 15, 16, 17, 20, 26, 32, 40] { for at in [0, 1, 4, 7, 14, 15, 16, n - 1] { if at >= n || !t && (k + n + at) % 2 == 1 && k != 0 { continue; } j.push((2807, p4(k, n, at, (k + at) % 3))); } } }
            b = "printable values of up to 40 bytes with one or two symbolic ones in any of eight places, six carriers; values of up to 60 symbolic bytes in BER-TLV and 16 symbolic characters in Ingenico, five tags each; every option with every ASCII text of up to 2 characters; every interpreted tag with one symbolic byte; all response codes; every one- and two-byte tag";
        }
        29 => {
            for n in 0..=if t { 112 } else { 50 } { j.push((2901, p4(n, 0, 0, 0))); }
            for n in [63, 64, 65, 79, 80, 81, 96, 111, 112] { j.push((2901, p4(n, 0, 0, 0))); }
            for (n, from) in [(127, 0), (127, 15), (128, 16), (200, 80), (255, 0), (255, 143), (256, 0), (256, 144), (257, 145), (512, 250), (1000, 255)] { j.push((2901, p4(n & 255, n >> 8, from, 0))); }
            for n in [0, 1, 2, 15, 16, 17, 33] { j.push((2902, p4(n, 0, 0, 0))); j.push((2903, p4(n, 0, 0, 0))); }
            for i in 4..=last { for k in 0..3 { if SIZES[i] > 60000 && k == 1 || SIZES[i] >= 60000 && k == 2 || !t && i % 3 != k && k > 0 { continue; } j.push((2904, p4(i, k, 0, 0))); } }
            for d in 0..14 { for n in [0, 1, 2, 3, 7, 15, 16, 17] { j.push((2905, p4(d, n, (d + n) % 2, 0))); } }

            b = "short values up to 13 levels deep; values of 0 to 50 and up to 112 bytes, all symbolic (thorough: every size to 112); up to 1000 bytes with a window of 112 symbolic bytes; nested and as Ingenico text
                33 sizes up to 65400 bytes with the first, middle and last byte symbolic";
        }
        30 => {
            for (i, (_, names)) in NAMES_OF.iter().enumerate() { for n in 0..names.len() { for d in 0..3 { j.push((3001, p4(i, n, d, (n + d) % 2))); if names[n].len() == 2 { j.push((3001, p4(i, n, d, 2))); } if t { j.push((3001, p4(i, n, d, (n + d + 1) % 2))); } } } }
            for (i, (op, names)) in NAMES_OF.iter().enumerate() { if i < 7 || i > 9 { continue; } let _ = op; for n in 0..names.len() { for k in 0..4 { if names[n].len() == 2 || n == 0 || t { for x in 0..if i == 7 { 3 } else { 2 } { j.push((3002, p4(i, n, k, x))); } } } } }
            b = "every documented name and alias of the eleven data options, separate and joined values, right data with a symbolic byte, wrong data with symbolic characters
                well-formed blocks whose content is refused, for the three TLV options, flat and nested";
        }
        31 => {
            for ka in 0..9 { for kb in 0..9 { for (na, nb) in [(1, 2), (2, 1)] { if (ka == 2 || kb == 2) && na == 2 { continue; } if !t && ka == 5 && (kb == 5 || kb == 2) { continue; } let na = if ka == 2 { (kb * 2) % 15 } else if ka == 5 { 5 } else { na }; let nb = if kb == 2 { (ka * 2 + 1) % 15 } else if kb == 5 { 4 + nb % 2 } else { nb }; j.push((3101, p4(ka, na, kb, nb))); } } }
            for k in 0..15 { j.push((3101, p4(2, k, 1, 1))); j.push((3101, p4(2, k, 0, 1))); j.push((3101, p4(1, 1, 2, k))); if t { for l in 0..15 { j.push((3101, p4(2, k, 2, l))); } } }
            for ka in 1..7 { for kb in 0..7 { if !t && ka == 5 && (kb == 5 || kb == 2) { continue; } let na = if ka == 2 { kb * 2 } else if ka == 5 { 5 } else { 2 }; let nb = if kb == 2 { ka * 2 + 1 } else if kb == 5 { 4 + ka % 2 } else { 1 + ka % 2 }; j.push((3102, p4(ka, na, kb, nb))); } }
            for k in 0..15 { j.push((3102, p4(2, k, 1, 1))); j.push((3102, p4(1, 1, 2, k))); }
            for k in 0..9 { for c in 0..6 { for n in [1, 2] { if k == 2 && n == 2 { continue; } let n = if k == 2 { c * 2 + 1 } else if k == 5 { 3 + n } else { n }; j.push((3103, p4(k, n, c, (k + c) % 3))); } } }
            for k in 0..15 { for o in 0..3 { j.push((3103, p4(2, k, (k + o) % 6, o))); } }
            for (ka, na, kb, nb) in [(1, 2, 0, 2), (3, 1, 1, 2), (2, 0, 5, 4), (2, 0, 5, 5), (1, 1, 8, 2), (4, 2, 6, 2), (2, 3, 2, 4), (1, 1, 2, 6)] { j.push((3104, p4(ka, na, kb, nb))); }
            for k in 0..9 { for r in 0..6 { let n = if k == 2 { r * 2 } else if k == 5 { 5 } else { 1 + r % 2 }; j.push((3105, p4(k, n, r, (k + r) % 2))); } }
            for k in 0..15 { for r in 0..6 { if !t && (k + r) % 2 == 1 && r > 1 { continue; } j.push((3105, p4(2, k, r, if r == 0 { k % 2 } else { 0 }))); } j.push((3106, p4(2, k, 0, 0))); }
            for k in [0, 1, 3, 4, 5, 6] { j.push((3106, p4(k, if k == 5 { 5 } else { 2 }, 0, 0))); }
            if t { for k in 0..9 { j.push((3101, p4(0, 3, k, if k == 2 { 6 } else { 1 }))); j.push((3101, p4(k, if k == 2 { 7 } else { 1 }, 0, 3))); j.push((3103, p4(0, 3, k % 6, k % 3))); } }
            for n in [2usize, 12, 100, 199, 255, 256, 300] { for (k, o) in [(0, 0), (3, 1), (7, 0), (15, 0), (15, 1), (15, 2), (15, 3), (8, 2), (1, 3)] { if !t && n < 199 && o > 1 { continue; } j.push((3107, p4(n & 255, n >> 8, k, o))); } }
            for a in 0..22 { for c in 0..22 { let k = [0, 32, 64, 8, 2, 3][(a + c) % 6]; let k = if k == 3 && a.max(c) > 6 { 0 } else { k }; j.push((3108, p4(a, k, c, (a + c) % 3))); } }
            for n in [600usize, 1000, 2100, 5000, 9000, 20000, 33000, 60000] { for k in 0..3 { if !t && k > 0 && n > 6000 { continue; } j.push((3109, p4(k, n & 255, n >> 8, 0))); } }

            b = "two values of up to 60000 bytes each; pairs of nine kinds of BER-TLV block (1 or 2 arbitrary bytes, one object, each interpreted tag, constructed objects, several objects, refused values) and of seven kinds of Ingenico block, each with symbolic content, in one run against two; each kind of block inside a constructed object under six tags, sorted, unsorted and coloured, against the block alone; eight pairs under automatic detection; each kind of block repeated in six arrangements; up to 300 catalogued objects before or behind one; pairs of small worlds (see P01)";
        }
        32 => {
            for a in 0..11 { for c in 0..11 { if a != c { j.push((3201, p4(a, c, (a + c) % 2, 0))); if t { j.push((3201, p4(a, c, (a + c + 1) % 2, 0))); } } } }
            for (i, (_, names)) in NAMES_OF.iter().enumerate() { for n in 0..names.len() { j.push((3202, p4(i, n, 0, 0))); } }
            for op in [0, 1, 2, 3, 4, 5, 6, 10] { for s in 0..6 { j.push((3203, p4(op, s, (op + s) % 2, 0))); if t { j.push((3203, p4(op, s, (op + s + 1) % 2, 0))); } } }
            for op in 7..=9 { for s in 0..13 { if s < 10 { j.push((3204, p4(op, s, 0, 0))); } if t || op == 8 || s >= 10 { j.push((3204, p4(op, s, 1, 0))); } } }
            for op in [0, 6, 7, 8, 9, 10] { for k in 0..6 { for x in 0..2 { if x == 1 && k == 4 { continue; } j.push((3205, p4(op, k, x, 0))); } } }
            for (i, (_, names)) in NAMES_OF.iter().enumerate() { for n in 0..names.len() { for k in 0..4 { if names[n].len() == 2 && k == 2 { continue; } j.push((3206, p4(i, n, k, 0))); } } }
            for op in 0..11 { for at in [0, 1, 2] { j.push((3207, p4(op, at, 0, 0))); } }
            for i in 0..crate::extra::names().len() { for at in 0..20 { for m in 0..6 { if !t && m > 0 && m != 2 && (i + at) % 2 == 1 { continue; } j.push((3208, p4(i, at, m, (i + at + m) % 4))); if m == 0 { j.push((3208, p4(i, at, m, (i + at + 1) % 4))); } } } } for n in 2..=3 { for fm in 0..7 { for x in 0..2 { j.push((3209, p4(n, fm, x, (n + fm + x) % 3))); } } }
            b = "every pair of data options, every option repeated under each of its names, every TLV setting with every option that is not a TLV option, thirteen contradictory or unusable settings with the TLV options, six kinds of stray argument, missing and empty data for every name; a symbolic digit or character in each; text that is not Unicode at three positions; every name cut after any character, with a symbolic character in place of or before any, with two exchanged, in another case; masking characters of two or three symbolic characters in seven forms";
        }
        33 => {
            for k in 0..16 { for fo in 0..64 { if !t && k > 0 && fo % 5 != k % 5 || k > 0 && fo > 15 { continue; } j.push((3301, p4(k, fo, fo % 2, 0))); } }
            for k in 16..25 { for fo in 0..16 { if !t && fo % 3 != k % 3 { continue; } j.push((3301, p4(k, fo, fo % 2, 0))); } }
            for z in [0, 1, 2, 3, 7] { for l in 0..=3 { for c in 0..3 { for x in 0..2 { if !t && (z + l + c + x) % 2 == 1 { continue; } j.push((3302, p4(z, l, c, x))); } } } }
            for pl in 0..3 { for fm in 0..2 { for n in 0..=3 { j.push((3303, p4(pl, fm, n, 0))); } } }
            for k in 0..6 { for o in 1..=4 { for (m, i) in [(0, 0), (1, 2), (2, 1), (3, 4), (4, 0), (0, 3), (2, 2), (1, 1)] { if !t && (k + o + m + i) % 2 == 1 && k > 1 { continue; } j.push((3304, p4(k, o, m, i))); } } }
            for k in 0..6 { for r in 0..10 { for c in 0..3 { if c == 1 { continue; } j.push((3305, p4(k, r, c, 0))); } } }
            b = "BER-TLV blocks of three objects, of every interpreted tag and of values of 17 to 20000 bytes in every combination of length forms (quick: a selection); Ingenico blocks with up to 7 zero bytes before a tag, up to 3 before a length, lower case digits and symbolic separators; skipped entries of up to 3 symbolic bytes with a symbolic kind at three places; six constructed blocks in every outer length form with others inside; empty objects whose length byte is 0x80 before ten kinds of continuation";
        }
        34 => {
            for v in 0..24 { for k in 0..8 { if !t && (v + k) % 2 == 1 && v > 2 { continue; } j.push((3401, p4(v, k, 0, 0))); j.push((3401, p4(v, k, 1 + 2 * (k % 2), 0))); } }
            for k in 0..=25 { for op in [0, 7, 8, 9, 10] { if !t && k > 13 && op % 4 != 0 && op != 9 { continue; } j.push((3402, p4(k, op, 0, 0))); } }
            for v in 0..24 { for k in 0..8 { j.push((3401, p4(v, k, k & 1, 0))); } }
            for op in 0..11 { for k in 0..=17 { if !t && k > 0 && (k + op) % 2 == 1 && op != 8 && op != 9 && op != 0 { continue; } j.push((3403, p4(op, k, k % 2, 0))); if op == 8 || op == 0 || t { j.push((3403, p4(op, k, 1 - k % 2, 0))); } } }
            for op in 0..11 { for k in 0..=13 { for e in 0..4 { if !t && (k + e + op) % 3 != 0 && op != 8 && op != 9 { continue; } j.push((3406, p4(op, k, k % 2, e))); } } }
            for n in 0..=20 { for (op, k) in [(8, 1), (9, 6), (0, 3)] { if !t && (n + op) % 2 == 1 && n > 8 { continue; } j.push((3404, p4(op, k, n % 2, n))); if n > 0 && n < 17 { j.push((3405, p4(op, k, n % 2, n))); } } }
            for k in 0..12 { for e in 4..8 { for c in 1..4 { j.push((3410, p4(k + (k + e + c) % 4 * 16, (k + e + c) % 2 * 2, c, e))); } } }
            for o in 0..11 { for k in 0..10 { for e in 0..8 { if !t && (o + k + e) % 2 == 1 { continue; } j.push((3411, p4(o, k, e, (o + k + e) / 2 % 4))); } } }
            for o in 0..11 { for e in 0..8 { for c in 0..4 { j.push((3411, p4(o, 10, e, c))); } } }

            b = "data that could name a file, standard input or a variable, with any content there; five names of the program; 24 environment variables that are not settings with eight kinds of value (one symbolic), without and with colour; every variable the program asks for by name and that is not a setting, at once, with twelve values and symbolic values of up to six characters; variables of up to 20 symbolic letters, with and without the prefix; every file the program looks for that is not called pemv.toml, at once, with eleven contents and symbolic contents of up to three characters; twenty-five arrangements of files that are not the configuration or configure nothing; two symbolic bytes in the data";
        }
        35 => {
            for o in 0..24 { for s in 1..8 { for op in 7..=9 { if !t && s != 7 && (o + s + op) % 3 != 0 { continue; } j.push((3501, p4(o, s, op, 0))); } } }
            for k in 0..26 { for op in 7..=9 { j.push((3502, p4(k, op, 0, 0))); } }
            b = "twenty-six command lines giving masking characters in one to three places, everything else in between; every order of the three settings and the data option, every subset of the settings (quick: a third of the combinations, all of the full set), three symbolic bytes";
        }
        36 => {
            for k in 0..=48 { for op in [0, 7, 8, 9, 10] { if !t && k > 14 && (k + op) % 5 > 2 { continue; } j.push((3601, p4(k, op, 0, 0))); } }
            for k in 0..4 { for at in 0..40 { for m in 0..2 { if at > [33, 13, 38, 2][k] { continue; } if !t && (at + m) % 3 != 0 && k != 3 { continue; } j.push((3602, p4(k, at, m, [8, 0, 9, 10, 7][(at + k) % 5]))); } } }
            b = "forty-nine unusable values of settings in the file and the environment (two with a symbolic character), with five options; files that are not UTF-8, the wrong byte (two) symbolic and in any place";
        }
        37 => {
            for op in 0..11 { for fds in 0..8 { for c in 0..13 { for e in 0..12 { if !t && (op + fds + c + e) % 5 != 0 && (op != 8 || e > 4 || c > 6) { continue; } j.push((3701, p4(op, fds, c, e))); } } } }
            for op in 0..11 { for fds in [2, 7, 4, 5] { for c in [0, 2, 4, 6, 7] { if !t && (op + fds + c) % 2 == 1 { continue; } j.push((3701, p4(op + 16, fds, c, 0))); } } }
            for k in 0..12 { for fds in 0..8 { for c in 0..5 { for e in 0..3 { let o = (k + fds + c + e) % 4 * 16; if !t && (k + fds + c + e) % 2 == 1 { continue; } j.push((3702, p4(k + o, fds, c, e))); if t { for o in 0..4 { j.push((3702, p4(k + 16 * o, fds, c, e))); } } } } } }
            b = "eleven options, every subset of standard input, output and error being terminals, thirteen sources of the colour choice, twelve settings of TERM, NO_COLOR and their like (quick: a fifth of the combinations, most for BER-TLV), a symbolic byte in the data, symbolic terminal names and values; refused data for each option; twelve rich blocks (long values, all interpreted tags, nesting) on every subset of terminals";
        }
        38 => {
            for a in 0..5 { j.push((3801, p4(a, 0, 0, 0))); for at in 1..=3 { for op in 0..11 { for x in 0..20 { if !t && (a + at + op + x) % 4 != 0 { continue; } j.push((3801, p4(a, at, op, x))); } } } }
            for k in 0..3 { j.push((3802, k)); }
            b = "five ways of asking, alone, before, behind or between each of the eleven options under its names and a setting (quick: a quarter of the combinations), the last character of the data symbolic";
        }
        _ => { b = "none"; }
    }
    let mut b = b.to_string();
    if (15..20).contains(&prop) {
        let fields: &[usize] = match prop { 15 => &[0], 16 => &[1, 2, 3], 17 => &[4, 5, 6], 18 => &[7], _ => &[8, 9, 10] };
        for &k in fields { let n = match k { 4 => 2, 5 => 3, _ => 5 }; for m in 1..1usize << n { if m.count_ones() < 2 { continue; } for bg in [0, 1] { for c in 0..2 { j.push((prop * 100 + 6, p4(k, m, bg, c))); } } } }
        b += "; one symbolic byte, as it is or complemented in turn, in every set of places over zeros and ones";
    }
    let mut seen = std::collections::HashSet::new();
    j.retain(|x| seen.insert(*x));
    (j, b)
}
