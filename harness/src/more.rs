//! More cases (see cases.rs for the numbering).
use crate::{cases::*, kit::*, spec::*, sx};

/// A symbolic UTF-8 character of n bytes.
pub fn utf8(n: usize) -> Vec<u8> {
    let v = syms(n);
    if n == 1 { sx::assume(v[0] >= 1 && v[0] < 0x80); return v; }
    for i in 1..n { sx::assume(v[i] & 0xC0 == 0x80); }
    match n {
        2 => sx::assume(v[0] >= 0xC2 && v[0] <= 0xDF),
        3 => sx::assume(v[0] >= 0xE1 && v[0] <= 0xEC),
        _ => sx::assume(v[0] >= 0xF1 && v[0] <= 0xF3),
    }
    v
}
pub fn put(t: &mut Vec<u8>, at: usize, s: &[u8]) { let at = at.min(t.len()); let tail = t.split_off(at); t.extend_from_slice(s); t.extend_from_slice(&tail); }
pub fn masked_as(v: &[u8]) -> bool { masked(v, &[b'*' as u32]) }
/// An Ingenico entry with its value as text.
pub fn ing_text(o: &mut Vec<u8>, tag: &[u8], v: &[u8]) { o.push(b'T'); o.extend_from_slice(&hex(tag)); o.push(b':'); o.extend_from_slice(&ing_len(v.len())); o.extend_from_slice(b":a"); o.extend_from_slice(v); }
const CON: [&[u8]; 6] = [&[0x61], &[0x70], &[0xE1], &[0xBF, 0x0C], &[0x7F, 0x49], &[0xFF, 0x81, 0x01]];
fn opt_of(k: usize) -> Opts<'static> { match k { 0 => PLAIN, 1 => UNSORTED, 2 => COLOUR, 3 => Opts { colour: true, sort: false, masks: MASKS[1] }, 4 => Opts { colour: false, sort: true, masks: MASKS[6] }, _ => Opts { colour: false, sort: false, masks: MASKS[3] } } }
const DATA: [(&[u8], &[u8]); 11] = [
    (b"--tvr", b"8000000000"), (b"--ccd-iad", b"0FA50100000000000000000000000000000F000000000000000000000000000000"), (b"--ccd-cvr", b"0000000000"), (b"--tsi", b"E800"), (b"--cvm-results", b"420302"), (b"--cvm-list", b"00000000000000004203"),
    (b"--identify", b"9F02"), (b"--auto-tlv", b"C10131"), (b"--ber-tlv", b"C10131"), (b"--ingenico-tlv", b"TC1:01:h31"), (b"--service-code", b"201"),
];
/// A command line the tool must refuse: nothing on standard output, an error, no report.
pub fn refused(r: &sx::Res) {
    if r.code == 1002 { sx::check(false, "the tool does not terminate"); }
    sx::check(r.code != 1001, "the tool crashes");
    sx::eq(&r.out, b"", "a contradictory or unusable command line produces a report");
    sx::check(!r.err.is_empty(), "a contradictory or unusable command line is not reported");
    sx::check(r.code != 0, "a contradictory or unusable command line counts as success");
}
const TLV_SETTINGS: [&[&[u8]]; 6] = [&[b"-m", b"#"], &[b"--masking", b"*"], &[b"--sort"], &[b"--no-sort"], &[b"--sort=false"], &[b"--no-sort-parsed-tags=true"]];
/// Every line after the header of a constructed object.
const KIDS: &[u8] = b"Constructed Data Object's Child Tags:";

/// BER-TLV block number k with n symbolic bytes.
fn block(k: usize, n: usize) -> Vec<u8> {
    match k {
        0 => syms(n),
        1 => block1(&[0xC1], &syms(n)),
        2 => block1(KNOWN[n].0, &{ let mut v = valid(n); let i = if n == 5 || n == 3 { 1 } else { v.len() - 1 }; v[i] = sx::sym(); v }),
        3 => { let mut k = vec![]; tlv(&mut k, &[0xC9], &syms(n), 0); tlv(&mut k, &[0x9F, 0x35], &[0x22], 0); block1(&[0xE2], &k) }
        4 => cat(&block1(&[0xDF, 0x21], &syms(n)), &block1(&[0xC1], &[])),
        5 => { let mut v = background(n, 4); v[0] = sx::sym(); if n != 5 { v[n - 1] = sx::sym(); } block1(&[0x95], &v) }
        6 => block1(&[0xE5], &syms(n)),
        7 => many(10 * n, n),
        _ => cat(&block1(&[0x5F, 0x2A], &[0x01, 0x24]), &syms(n)),
    }
}
/// Ingenico block number k.
fn iblock(k: usize, n: usize) -> Vec<u8> {
    let mut t = vec![];
    match k {
        0 => t = ascii_text(n),
        1 => ing(&mut t, &[0xC1], &syms(n)),
        2 => { let b = block(2, n); let h = KNOWN[n].0.len(); ing(&mut t, KNOWN[n].0, &b[h + 1..]) }
        3 => { let b = block(3, n); ing(&mut t, &[0xE2], &b[2..]) }
        4 => { ing_text(&mut t, &[0x50], &ascii_text(n)); t.push(b';'); ing(&mut t, &[0xC2], &[]); }
        5 => { t.extend_from_slice(b"A9F99:02:h0102 "); let b = block(5, n); ing(&mut t, &[0x95], &b[2..]); }
        _ => { t.extend_from_slice(b"TC1:01:h"); t.extend_from_slice(&ascii_text(n)); }
    }
    t
}
const JOIN: &str = "the report of a block is not made of the reports of its parts";
/// The report of two blocks together is made of their reports.
pub fn parts(op: Op, a: &[u8], b: &[u8], whole: &[u8], o: &Opts) {
    let ra = invoke(op, a, o);
    sane(&ra);
    if !ra.err.is_empty() { return; }
    let rb = invoke(op, b, o);
    let rw = invoke(op, whole, o);
    sane(&rb); sane(&rw);
    if rb.err.is_empty() {
        let mut e = ra.out;
        if !e.is_empty() && !rb.out.is_empty() { e.push(b'\n'); }
        e.extend_from_slice(&rb.out);
        sx::eq(&rw.out, &e, JOIN);
        sx::eq(&rw.err, b"", JOIN);
    } else { sx::eq(&rw.out, b"", JOIN); sx::eq(&rw.err, &rb.err, JOIN); }
}
/// What is seen of coloured text: each visible character's style, given where it changes and anew on each line.
fn painted(t: &[u8]) -> Vec<u8> {
    const RESET: &[u8] = b"\x1b[0m";
    let mut o = Vec::with_capacity(t.len());
    let (mut style, mut seen): (Vec<u8>, Option<Vec<u8>>) = (vec![], None);
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c == 0x1B {
            let mut e = i;
            while e + 1 < t.len() && t[e] != b'm' { e += 1; }
            if &t[i..=e] == RESET { style.clear() } else { style.extend_from_slice(&t[i..=e]) }
            i = e + 1;
            continue;
        }
        if c == b'\n' { seen = None } else if c != b'\t' && c != b' ' {
            let same = match &seen { Some(s) => *s == style, None => false };
            if !same { o.extend_from_slice(RESET); o.extend_from_slice(&style); seen = Some(style.clone()); }
        }
        o.push(c);
        i += 1;
    }
    o
}
/// Which settings are given, in one of several orders.
fn ordered(p: u32) {
    // f0: permutation number, f1: subset of settings, f2: operation 7..=9
    let v = syms(2);
    let x = sx::sym();
    let mut b = vec![]; tlv(&mut b, &[0xC2], &v, 0); tlv(&mut b, &[0xC1], &[x, x], 0);
    let t = if f(p, 2) == 9 { let mut t = vec![]; ing(&mut t, &[0xC2], &v); t.push(b','); ing(&mut t, &[0xC1], &[x, x]); t } else { hex(&b) };
    let pieces: [&[&[u8]]; 4] = [&[b"--colour", b"always"], &[b"-m", b"#", b"x"], &[b"--no-sort"], &[]];
    let mut order = [0usize, 1, 2, 3];
    let mut k = f(p, 0);
    for i in 0..3 { let j = i + k % (4 - i); k /= 4 - i; order.swap(i, j); }
    let run = |order: &[usize; 4]| {
        sx::begin();
        for i in order { if *i == 3 { sx::arg(long(OPS[f(p, 2)]).as_bytes()); sx::arg(&t); } else if f(p, 1) >> *i & 1 != 0 { for a in pieces[*i] { sx::arg(a); } } }
        sx::run()
    };
    let r = run(&order);
    let ms = [b'#' as u32, b'x' as u32];
    judge(OPS[f(p, 2)], &t, &Opts { colour: f(p, 1) & 1 != 0, sort: f(p, 1) & 4 == 0, masks: if f(p, 1) & 2 != 0 { &ms } else { &PLAIN.masks } }, &r);
}
const UNRELATED: [&str; 24] = ["NO_COLOR", "TERM", "COLUMNS", "LINES", "LANG", "LC_ALL", "HOME", "PWD", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "RUST_LOG", "PEMV", "PEMV_", "PEMV_OTHER", "PEMV_MASKING", "PEMV_SORT", "PEMV_COLOUR", "PEMV_CLI_COLOUR_", "XPEMV_SORT_PARSED_TAGS", "SORT_PARSED_TAGS", "CLI_COLOUR", "MASKING_CHARACTERS"];
fn unrelated(p: u32) {
    // f0 variable, f1 kind of value, f2 operation and colour
    let name = UNRELATED[f(p, 0)];
    let value: Vec<u8> = match f(p, 1) { 0 => vec![], 1 => b"1".to_vec(), 2 => b"never".to_vec(), 3 => b"always".to_vec(), 4 => b"false".to_vec(), 5 => b"[\"#\"]".to_vec(), 6 => { let c = ascii(); sx::assume(c < 0x7F && (c == b'0' || c.is_ascii_alphabetic())); vec![c] } _ => b"dumb".to_vec() };
    sx::begin();
    sx::env(name, &value);
    let colour = f(p, 2) & 1 != 0;
    if colour { sx::arg(if f(p, 2) & 2 == 0 { b"--colour=always" } else { b"--colour=ansi" }); }
    let v = syms(2);
    let mut b = vec![]; tlv(&mut b, &[0xC2], &v, 0); tlv(&mut b, &[0xC1], b"##", 0); tlv(&mut b, &[0xC0], b"**", 0); tlv(&mut b, &[0x95], &[0x80, 0x48, 0, 0, 0], 0);
    let t = hex(&b);
    sx::arg(b"--ber-tlv"); sx::arg(&t);
    let r = sx::run();
    judge(Op::Ber, &t, &Opts { colour, sort: true, masks: &PLAIN.masks }, &r);
}
fn unrelated_files(p: u32) {
    let text = b"[default]\ncli_colour = \"always\"\nmasking_characters = [\"#\"]\nsort_parsed_tags = false\n";
    let op = OPS[f(p, 1)];
    sx::begin();
    match f(p, 0) {
        0 => sx::file("pemv.toml.bak", text), 1 => sx::file("sub/pemv.toml", text), 2 => sx::file("Pemv.toml", text), 3 => sx::file("pemv.json", b"{}"), 4 => sx::file(".pemv.toml", text), 5 => sx::file("pemv", text),
        6 => sx::file("pemv.toml", b""), 7 => sx::file("pemv.toml", b"[other]\ncli_colour = \"always\"\nsort_parsed_tags = false\n"), 8 => sx::file("pemv.toml", b"[default]\nunknown = 3\n"), 9 => sx::file("config.toml", text),
        10 => { sx::env("PEMV_CONFIG", b"empty.toml"); sx::file("empty.toml", b"# nothing\n"); sx::file("pemv.toml", text); }
        11 => { sx::env("PEMV_CONFIG", b"missing.toml"); sx::file("pemv.toml", text); }
        k if k >= 13 => {
            for (v, d) in [("HOME", &b"."[..]), ("XDG_CONFIG_HOME", b".config"), ("XDG_CONFIG_DIRS", b".config"), ("APPDATA", b"."), ("USERPROFILE", b".")] { sx::env(v, d); }
            sx::file([".config/pemv.toml", ".config/pemv/pemv.toml", ".config/pemv/config.toml", ".config/.pemv.toml", ".pemv/config.toml", ".pemvrc", ".config/pemv", "config/pemv.toml", "pemv/pemv.toml", "pemv.local.toml", "pemv.conf", "pemv.ini", "ParseEMV.toml"][k - 13], text);
        }
        _ => {}
    }
    let x = sx::sym();
    let t = match op { Op::Ingenico => { let mut t = vec![]; ing(&mut t, &[0xC2], &[x, x]); t.push(b','); ing(&mut t, &[0xC1], b"##"); t } Op::ServiceCode => b"201".to_vec(), Op::Tvr => hex(&[x, 0, 0, 0, 0]), _ => { let mut b = vec![]; tlv(&mut b, &[0xC2], &[x, x], 0); tlv(&mut b, &[0xC1], b"##", 0); hex(&b) } };
    sx::arg(long(op).as_bytes()); sx::arg(&t);
    let r = sx::run();
    judge(op, &t, &PLAIN, &r);
}
/// A setting with an unusable value: no report, one error message, no crash.
fn bad_setting(p: u32) {
    let op = OPS[f(p, 2)];
    let x = sx::sym();
    sx::begin();
    match f(p, 0) {
        0 => { let c = ascii(); sx::assume(c >= b'a' && c <= b'z'); sx::env("PEMV_CLI_COLOUR", &[c, b'u', b't', b'x']) }
        1 => sx::env("PEMV_SORT_PARSED_TAGS", b"maybe"),
        2 => { let c = ascii(); sx::assume(c > b'9' && c < 0x7F && c.is_ascii_alphabetic()); sx::env("PEMV_MASKING_CHARACTERS", &[c]) }
        3 => sx::env("PEMV_MASKING_CHARACTERS", b"[\"##\"]"),
        4 => sx::env("PEMV_MASKING_CHARACTERS", b"[1]"),
        5 => sx::env("PEMV_SORT_PARSED_TAGS", b"1"),
        6 => sx::file("pemv.toml", b"[default]\ncli_colour = \"sometimes\"\n"),
        7 => sx::file("pemv.toml", b"[default]\nsort_parsed_tags = \"yes\"\n"),
        8 => sx::file("pemv.toml", b"[default]\nmasking_characters = \"*\"\n"),
        9 => sx::file("pemv.toml", b"[default]\nmasking_characters = [\"\"]\n"),
        10 => sx::file("pemv.toml", b"[default\n"),
        11 => sx::file("pemv.toml", b"sort_parsed_tags = false\n"),
        12 => sx::file("pemv.toml", b"[default]\nsort_parsed_tags = 0\n"),
        13 => sx::env("PEMV_CLI_COLOUR", b"3"),
        k if k >= 15 => {
            const E: [(&str, &[u8]); 22] = [("PEMV_CLI_COLOUR", b""), ("PEMV_SORT_PARSED_TAGS", b""), ("PEMV_MASKING_CHARACTERS", b""), ("PEMV_CLI_COLOUR", b"Always"), ("PEMV_CLI_COLOUR", b"NEVER"), ("PEMV_CLI_COLOUR", b"true"), ("PEMV_CLI_COLOUR", b"[\"never\"]"), ("PEMV_CLI_COLOUR", b"alwaysansi"),
                ("PEMV_SORT_PARSED_TAGS", b"yes"), ("PEMV_SORT_PARSED_TAGS", b"no"), ("PEMV_SORT_PARSED_TAGS", b"0"), ("PEMV_SORT_PARSED_TAGS", b"on"), ("PEMV_SORT_PARSED_TAGS", b"[false]"), ("PEMV_SORT_PARSED_TAGS", b"\"false\""),
                ("PEMV_MASKING_CHARACTERS", b"[\"\"]"), ("PEMV_MASKING_CHARACTERS", b"[\"*\", \"##\"]"), ("PEMV_MASKING_CHARACTERS", b"\"*\""), ("PEMV_MASKING_CHARACTERS", b"[[\"*\"]]"), ("PEMV_MASKING_CHARACTERS", b"true"), ("PEMV_MASKING_CHARACTERS", b"*#"), ("PEMV_MASKING_CHARACTERS", b"[true]"), ("PEMV_MASKING_CHARACTERS", b"*,#")];
            const F: [&[u8]; 12] = [b"[default]\ncli_colour = \"\"\n", b"[default]\ncli_colour = true\n", b"[default]\ncli_colour = \"Auto\"\n", b"[default]\ncli_colour = [\"auto\"]\n", b"[default]\nsort_parsed_tags = \"\"\n", b"[default]\nsort_parsed_tags = \"true\"\n", b"[default]\nmasking_characters = []\nsort_parsed_tags = 1\n", b"[default]\nmasking_characters = [\"ab\"]\n", b"[default]\nmasking_characters = [1]\n", b"[default]\nmasking_characters = true\n", b"[default]\nmasking_characters = [\"*\", \"\"]\n", b"default = 1\n"];
            if k < 15 + E.len() { let (n, v) = E[k - 15]; sx::env(n, v); } else { sx::file("pemv.toml", F[k - 15 - E.len()]); }
        }
        _ => { sx::env("PEMV_PROFILE", b"other"); sx::file("pemv.toml", b"[default]\nsort_parsed_tags = true\n[other]\nsort_parsed_tags = [true]\n"); }
    }
    let t = match op { Op::Ingenico => { let mut t = vec![]; ing(&mut t, &[0xC2], &[x]); t } Op::ServiceCode => b"201".to_vec(), Op::Tvr => hex(&[x, 0, 0, 0, 0]), _ => hex(&[0xC1, 1, x]) };
    sx::arg(long(op).as_bytes()); sx::arg(&t);
    let r = sx::run();
    if r.code == 1002 { sx::check(false, "the tool does not terminate"); }
    sx::check(r.code != 1001, "an unusable setting makes the tool crash");
    sx::eq(&r.out, b"", "a report is printed in spite of an unusable setting");
    sx::check(!r.err.is_empty(), "an unusable setting is not reported");
}

pub fn more(case: u32, p: u32) {
    match case {
        // ---- carriers: a constructed object of tag f0 whose value is transmitted as text; f1 = shape, f2 = number of symbolic characters
        806 => {
            let tag = CON[f(p, 0)];
            let n = f(p, 2);
            if n == 0 && f(p, 1) != 2 && f(p, 1) != 3 { return; } // an argument cannot contain a zero byte
            let v: Vec<u8> = match f(p, 1) {
                0 => { let mut v = vec![b'P', n as u8]; v.extend_from_slice(&ascii_text(n)); v }
                1 => { let mut v = vec![b'P', 1]; v.push(ascii()); v.extend_from_slice(&[b'W', n as u8]); v.extend_from_slice(&ascii_text(n)); v }
                2 => { let mut v = vec![b'P', ascii()]; v.extend_from_slice(&ascii_text(n)); v }
                3 => ascii_text(n),
                4 => { let mut v = vec![b'a', n as u8 + 2, b'P', n as u8]; v.extend_from_slice(&ascii_text(n)); v }
                _ => { let mut v = vec![b'_', b'-', n as u8]; v.extend_from_slice(&ascii_text(n)); v }
            };
            sx::assume(!masked_as(&v));
            let o = opt_of(f(p, 3));
            if f(p, 3) > 1 { sx::assume(!masked(&v, o.masks)); }
            let (mut a, mut i) = (vec![], vec![]);
            tlv(&mut a, tag, &v, 0); tlv(&mut a, &[0xC9], &[1, 2], 0);
            ing_text(&mut i, tag, &v); i.push(b','); ing(&mut i, &[0xC9], &[1, 2]);
            same(&invoke(Op::Ber, &hex(&a), &o), &invoke(Op::Ingenico, &i, &o), "the report depends on the carrier format");
        }
        // carriers: known tag f0 with f1 text characters, of which f2 symbolic
        807 => {
            let n = f(p, 1);
            let mut v: Vec<u8> = (0..n).map(|i| b"201A4z"[i % 6]).collect();
            for k in [f(p, 2), f(p, 3)] { if k < n { v[k] = ascii(); } }
            sx::assume(!masked_as(&v));
            let t = KNOWN[f(p, 0)].0;
            let (mut a, mut i) = (vec![], vec![]);
            tlv(&mut a, &[0xC0], &[3], 0); tlv(&mut a, t, &v, 0);
            ing(&mut i, &[0xC0], &[3]); i.push(b','); ing_text(&mut i, t, &v);
            same(&invoke(Op::Ber, &hex(&a), &PLAIN), &invoke(Op::Ingenico, &i, &PLAIN), "the report depends on the carrier format");
        }
        // carriers: every tag of f0 bytes around a child, options f1
        808 => {
            let t = sym_tag(f(p, 0)); sx::assume(t[0] != 0);
            let o = opt_of(f(p, 1));
            let v = if f(p, 2) == 0 { block1(&[0xC1], &[sx::sym()]) } else { vec![0x23, 0x23] };
            let (mut a, mut i) = (vec![], vec![]);
            tlv(&mut a, &t, &v, 0); tlv(&mut a, &[0xC0], &[9], 0);
            ing(&mut i, &t, &v); i.push(b'\n'); ing(&mut i, &[0xC0], &[9]);
            if f(p, 2) != 0 { sx::assume(!masked(&v, o.masks)); }
            same(&invoke(Op::Ber, &hex(&a), &o), &invoke(Op::Ingenico, &i, &o), "the report depends on the carrier format");
        }
        // ---- detection: Ingenico template f0 with a symbolic character inserted (f2 = 0), removed and another replaced (1), or a two- or three-byte one inserted (2, 3) at f1
        909 => {
            let mut t = itemplate(f(p, 0));
            let at = f(p, 1);
            match f(p, 2) { 0 => t.insert(at, ascii()), 1 => { t.remove(at); if at < t.len() && f(p, 3) != 0 { t[at] = ascii(); } } k => { let c = utf8(k); put(&mut t, at, &c) } }
            if t.is_empty() { return; }
            auto(&t, 1)
        }
        // f1 symbolic characters before and f2 after an Ingenico (f0) or BER-TLV (f0 - 10) block
        910 => {
            let body = if f(p, 0) >= 10 { hex(&template(f(p, 0) - 10)) } else { itemplate(f(p, 0)) };
            let mut t = ascii_text(f(p, 1));
            t.extend_from_slice(&body);
            t.extend_from_slice(&ascii_text(f(p, 2)));
            auto(&t, 1)
        }
        // BER-TLV text with a symbolic character inserted at f1 (f2 = 0), or a digit replaced by one (1), a two- or three-byte one inserted (2, 3)
        911 => {
            let mut t = hex(&[&[0xC1, 0x02, 0x31, 0x32, 0x9F, 0x35, 0x01, 0x22][..], &[0xE1, 0x03, 0xC1, 0x01, 0x07, 0xC0, 0x00]][f(p, 0)]);
            match f(p, 2) { 0 => t.insert(f(p, 1), ascii()), 1 => t[f(p, 1)] = ascii(), k => { let c = utf8(k); put(&mut t, f(p, 1), &c) } }
            auto(&t, 1)
        }
        // looks like the other format: f0 = text, one symbolic character at f1
        912 => {
            let mut t = [&b"TC1:01:h9F"[..], b"T C10141", b"TC10141", b"T9A:03:", b"C1:01:41", b"0xC10141", b"T:C1:01:41", b"[C10141]", b"AC1:01:h31", b"TC1:01:h31TC2:01:h32"][f(p, 0)].to_vec();
            if f(p, 1) < t.len() { t[f(p, 1)] = ascii(); } else { t.push(ascii()); }
            auto(&t, 1)
        }
        // ---- spelling: a symbolic character of f1 bytes inserted at digit f2 of option f0
        1006 => {
            let op = OPS[f(p, 0)];
            let h = hex(&spelled(op));
            let mut t = h.clone();
            let c = utf8(f(p, 1));
            put(&mut t, f(p, 2), &c);
            if f(p, 3) != 0 { let c = utf8(f(p, 3)); put(&mut t, f(p, 2), &c); }
            same(&invoke(op, &h, &PLAIN), &invoke(op, &t, &PLAIN), "the spelling of the hex digits changes the result");
        }
        // f1 symbolic ASCII characters before and f2 after the digits, judged by the digits among them
        1007 => {
            let op = OPS[f(p, 0)];
            let mut t = ascii_text(f(p, 1));
            t.extend_from_slice(&hex(&spelled(op)));
            t.extend_from_slice(&ascii_text(f(p, 2)));
            exact(op, &t, &PLAIN);
        }
        // customary prefixes and separators around symbolic digits
        1008 => {
            let op = OPS[f(p, 0)];
            let v = spelled(op);
            let h = hex(&v);
            let (pre, sep, post): (&[u8], &[u8], &[u8]) = [(&b"0X"[..], &b""[..], &b""[..]), (b"x", b"", b""), (b"\\x", b"\\x", b""), (b"#", b"", b""), (b"h'", b"", b"'"), (b"[", b", ", b"]"), (b" ", b":", b" "), (b"\t", b"\r\n", b"\n"), (b"{", b";", b"}"), (b"", b"_", b"h"), (b"$", b"-", b"."), (b"\xC2\xA0", b"\xE2\x80\x89", b"\xEF\xBC\x90"), (b"(", b"\x7F", b")"), (b"\x01", b"\x0B", b"\x1F"), (b"\xD9\xA1", b"\xF0\x9D\x9F\x98", b"\xC2\xB2")][f(p, 1)];
            let mut t = pre.to_vec();
            if f(p, 1) == 0 { t = vec![b'X']; }
            for i in (0..h.len()).step_by(2) { if i > 0 { t.extend_from_slice(sep); } t.push(h[i]); if i == f(p, 2) && f(p, 2) < h.len() { let c = ascii(); sx::assume(NIBBLE[c as usize] == 0xFF); t.push(c); } t.push(h[i + 1]); }
            t.extend_from_slice(post);
            if op == Op::Auto { sx::assume(t[0] != b'T'); }
            same(&invoke(op, &h, &PLAIN), &invoke(op, &t, &PLAIN), "the spelling of the hex digits changes the result");
        }
        // ---- identification: a known tag f0 with two symbolic bytes behind (f1 = 0) or before (1), or f1 - 2 equal bytes behind
        1206 => {
            let t = [&[0x95][..], &[0x9F, 0x02], &[0x5F, 0x2A], &[0x50], &[0x9F, 0x10], &[0x82], &[0x9F, 0x34], &[0xBF, 0x0C], &[0x8E]][f(p, 0)];
            let mut v = t.to_vec();
            match f(p, 1) { 0 => v.extend_from_slice(&syms(2)), 1 => { v = syms(1); v.extend_from_slice(t) } k => { let c = sx::sym(); for _ in 0..k - 1 { v.push(c) } } }
            exact_hex(Op::Identify, &v, if f(p, 2) == 0 { &PLAIN } else { &COLOUR });
        }
        // ---- in a block and alone: verification list with zero amounts, one symbolic rule, nested f0 deep, f1 rules, amounts f2
        1305 => {
            let mut v = amounts(f(p, 2));
            for i in 0..f(p, 1) { if i + 1 == f(p, 1) { v.push(sx::sym()); v.push(sx::sym()); } else { v.push(0x42); v.push(3); } }
            nested_same(3, &v, f(p, 0));
        }
        // known tag f0, bytes f1 and f2 symbolic, nested f3 deep
        1306 => { let k = f(p, 0); let mut v = valid(k); for i in [f(p, 1), f(p, 2)] { if i < v.len() { v[i] = sx::sym(); } } if k == 5 { v[0] = (f(p, 1) & 0x0F) as u8; v[1] = sx::sym(); } nested_same(k, &v, f(p, 3)); }
        // ---- service codes: every value of both bytes
        2205 => { let v = [f(p, 0) as u8 | below(16), sx::sym()]; exact_hex(Op::Ber, &block1(&[0x5F, 0x30], &v), &PLAIN); }
        // ---- colour: masked known tag f0 with f1 characters, beside a normal one
        2605 => {
            let mut b = vec![];
            let c = sx::sym();
            tlv(&mut b, KNOWN[f(p, 0)].0, &vec![b'*'; f(p, 1)], 0);
            tlv(&mut b, &[0xC1], &[c, c], 0);
            let t = hex(&b);
            let o = Opts { colour: true, sort: f(p, 2) == 0, masks: &PLAIN.masks };
            let r = invoke(Op::Ber, &t, &o);
            judge(Op::Ber, &t, &o, &r);
            let q = invoke(Op::Ber, &t, &Opts { colour: false, sort: f(p, 2) == 0, masks: &PLAIN.masks });
            sx::eq(&unstyled(&r.out), &q.out, "colour changes the text");
        }
        // refusals in colour: option f0 with f1 bytes of data
        2606 => { let op = OPS[f(p, 0)]; let v = syms(f(p, 1)); let t = if op == Op::Ingenico { cat(b"TC1:05:h", &hex(&v)) } else { hexg(&v) }; exact(op, &t, &COLOUR); }
        // ---- settings: no masking character at all (f0: 0 file, 1 environment, 2 profile), f1 equal symbolic bytes
        2704 => {
            let c = sx::sym();
            let t = hex(&block1(&[0xC1], &vec![c; f(p, 1)]));
            sx::begin();
            match f(p, 0) { 0 => sx::file("pemv.toml", b"[default]\nmasking_characters = []\n"), 1 => sx::env("PEMV_MASKING_CHARACTERS", b"[]"), _ => { sx::env("PEMV_PROFILE", b"p"); sx::file("pemv.toml", b"[default]\nmasking_characters = [\"*\"]\n[p]\nmasking_characters = []\n") } }
            sx::arg(b"-b"); sx::arg(&t);
            let r = sx::run();
            judge(Op::Ber, &t, &Opts { colour: false, sort: true, masks: &[] }, &r);
        }
        // a non-ASCII masking character from the file, the environment or the command line; BER-TLV or Ingenico
        2705 => {
            let (m, u): (&[u8], u32) = [(&b"\xC3\xA9"[..], 0xE9), (b"\xE2\x82\xAC", 0x20AC), (b"\xC4\xAA", 0x12A), (b"\xF0\x9F\x98\x80", 0x1F600)][f(p, 1)];
            let c = sx::sym();
            let t = hex(&block1(&[0xC1], &vec![c; 3]));
            let list = { let mut l = b"[\"".to_vec(); l.extend_from_slice(m); l.extend_from_slice(b"\"]"); l };
            sx::begin();
            match f(p, 0) { 0 => { let mut x = b"[default]\nmasking_characters = ".to_vec(); x.extend_from_slice(&list); x.push(b'\n'); sx::file("pemv.toml", &x) } 1 => sx::env("PEMV_MASKING_CHARACTERS", &list), _ => { sx::arg(b"-m"); sx::arg(m) } }
            sx::arg(b"-b"); sx::arg(&t);
            let r = sx::run();
            judge(Op::Ber, &t, &Opts { colour: false, sort: true, masks: &[u] }, &r);
        }
        // ---- well-formed block, refused content: option and name as in 3001, kind f2
        3002 => {
            let (op, names) = NAMES_OF[f(p, 0)];
            let name = names[f(p, 1)];
            let mut v = vec![]; let mut k = 0;
            match f(p, 2) { 0 => { v = syms(4) } 1 => { v = background(32, 5); v[0] = sx::sym(); k = 4 } 2 => { v = vec![sx::sym(), 0x31, 0x32]; k = 6 } _ => { v.push(sx::sym()); v.push(0x99); k = 5 } }
            let good = block1(&[0xC1], &[0x31]);
            let (mut b, mut t) = (good.clone(), vec![]);
            tlv(&mut b, KNOWN[k].0, &v, 0);
            if f(p, 3) != 0 { let mut o = vec![]; tlv(&mut o, &[0xE1], &b, 0); b = o; }
            if op == Op::Ingenico || f(p, 3) == 2 { ing(&mut t, &[0xC1], &[0x31]); t.push(b','); if f(p, 3) == 0 { ing(&mut t, KNOWN[k].0, &v) } else { let inner = b[2..].to_vec(); ing(&mut t, &[0xE1], &inner) } } else { t = hex(&b) }
            sx::begin(); sx::arg(name.as_bytes()); sx::arg(&t);
            let r = sx::run();
            one_answer(&r);
            judge(op, &t, &PLAIN, &r);
        }
        // ---- parts and wholes: blocks f0 (n = f1) and f2 (n = f3), BER-TLV unsorted
        3101 => { let a = block(f(p, 0), f(p, 1)); let b = block(f(p, 2), f(p, 3)); if a.is_empty() || b.is_empty() { return; } parts(Op::Ber, &hex(&a), &hex(&b), &hex(&cat(&a, &b)), &UNSORTED) }
        // Ingenico
        3102 => { let a = iblock(f(p, 0), f(p, 1)); let b = iblock(f(p, 2), f(p, 3)); if a.is_empty() || b.is_empty() { return; } let mut w = a.clone(); w.push(b','); w.extend_from_slice(&b); parts(Op::Ingenico, &a, &b, &w, &UNSORTED) }
        // a block in an object of tag CON[f2]: its report, one level deeper; f3: sorted, unsorted, colour
        3103 => {
            let a = block(f(p, 0), f(p, 1));
            if a.is_empty() { return; }
            sx::assume(!masked_as(&a));
            let o = opt_of(f(p, 3));
            let mut ra = invoke(Op::Ber, &hex(&a), &o);
            let mut rw = invoke(Op::Ber, &hex(&block1(CON[f(p, 2)], &a)), &o);
            sane(&ra); sane(&rw);
            if o.colour { ra.out = painted(&ra.out); rw.out = painted(&rw.out); }
            let kids = if o.colour { cat(b"\x1b[0m\x1b[1m\x1b[36m", KIDS) } else { KIDS.to_vec() };
            let at = line(&rw.out, &kids);
            if ra.err.is_empty() { match at { Some(i) => sx::eq(&rw.out[i + kids.len() + 1..], &deeper(&ra.out), "a block reads differently inside a constructed object"), None => sx::check(false, "a constructed object is not expanded") } }
            else { sx::check(at.is_none(), "a block that is refused alone is reported inside a constructed object"); if !rw.err.is_empty() { sx::eq(&rw.err, &ra.err, "a block is refused differently inside a constructed object"); } }
        }
        // automatic detection
        3104 => { let a = block(f(p, 0), f(p, 1)); let b = block(f(p, 2), f(p, 3)); let (ra, rb) = (invoke(Op::Auto, &hex(&a), &UNSORTED), invoke(Op::Auto, &hex(&b), &UNSORTED)); let rw = invoke(Op::Auto, &hex(&cat(&a, &b)), &UNSORTED); sane(&ra); sane(&rb); sane(&rw); if !ra.err.is_empty() { return; } if rb.err.is_empty() { let h = 21; let mut e = ra.out; e.push(b'\n'); e.extend_from_slice(&rb.out[h..]); sx::eq(&rw.out, &e, JOIN); } else { sx::eq(&rw.out, b"", JOIN); sx::eq(&rw.err, &rb.err, JOIN); } }
        // a block and itself again: f2 = arrangement
        3105 => {
            let a = block(f(p, 0), f(p, 1));
            if a.is_empty() { return; }
            sx::assume(!masked_as(&a));
            let t = block1(&[0xE3], &a);
            let (x, y) = match f(p, 2) { 0 => (a.clone(), a), 1 => (a, t), 2 => (t, a), 3 => (t.clone(), t), 4 => (cat(&a, &[0xC3, 0]), a), _ => (cat(&a, &a), a) };
            parts(Op::Ber, &hex(&x), &hex(&y), &hex(&cat(&x, &y)), &if f(p, 3) == 0 { UNSORTED } else { Opts { colour: true, sort: false, masks: &PLAIN.masks } });
        }
        3106 => { let a = iblock(f(p, 0), f(p, 1)); if a.is_empty() { return; } let mut w = a.clone(); w.push(b','); w.extend_from_slice(&a); parts(Op::Ingenico, &a, &a, &w, &UNSORTED) }
        // ---- unusable command lines
        // two operations
        3201 => { let (a, b) = (DATA[f(p, 0)], DATA[f(p, 1)]); let mut t = a.1.to_vec(); let n = t.len(); t[n - 1] = b'0' + below(10); sx::begin(); if f(p, 2) == 0 { sx::arg(a.0); sx::arg(&t); sx::arg(b.0); sx::arg(b.1); } else { let mut x = b.0.to_vec(); x.push(b'='); x.extend_from_slice(b.1); sx::arg(&x); sx::arg(a.0); sx::arg(&t); } refused(&sx::run()) }
        // one operation twice, under two of its names
        3202 => { let (op, names) = NAMES_OF[f(p, 0)]; let d = DATA.iter().find(|d| d.0 == long(op).as_bytes()).unwrap(); let mut t = d.1.to_vec(); let n = t.len(); t[n - 1] = b'0' + below(10); sx::begin(); sx::arg(names[0].as_bytes()); sx::arg(d.1); sx::arg(names[f(p, 1)].as_bytes()); sx::arg(&t); refused(&sx::run()) }
        // a TLV setting without a TLV option
        3203 => { let s: &[&[u8]] = TLV_SETTINGS[f(p, 1)]; let d = DATA[f(p, 0)]; let mut t = d.1.to_vec(); let n = t.len(); t[n - 1] = b'0' + below(10); sx::begin(); if f(p, 2) == 0 { for a in s { sx::arg(a); } } sx::arg(d.0); sx::arg(&t); if f(p, 2) != 0 { for a in s { sx::arg(a); } } refused(&sx::run()) }
        // contradictory or unusable settings with a TLV option
        3204 => {
            let c = ascii(); sx::assume(c > 0x20 && c < 0x7F && c != b'-');
            let s: Vec<Vec<u8>> = match f(p, 1) {
                0 => vec![b"--sort".to_vec(), b"--no-sort".to_vec()], 1 => vec![b"--no-sort=false".to_vec(), b"--sort=true".to_vec()], 2 => vec![b"-m".to_vec(), vec![c, b'#']], 3 => vec![cat(b"--colour=", &[c])], 4 => vec![b"--colour".to_vec(), vec![b'n', b'e', b'v', b'e', b'r', c]],
                5 => { sx::assume(c != b't' && c != b'f'); vec![cat(b"--sort=", &[c, b'r', b'u', b'e'])] } 6 => vec![cat(b"--no-sort=", &[c])], 7 => vec![b"--colour".to_vec(), b"always".to_vec(), b"--colour".to_vec(), b"never".to_vec()], 8 => vec![b"--sort".to_vec(), b"--sort=false".to_vec()], 9 => vec![b"-m=".to_vec(), b"--colour=ALWAYS".to_vec()],
                10 => vec![b"--masking=".to_vec()], 11 => vec![b"--colour".to_vec()], _ => vec![b"-m".to_vec()],
            };
            let d = DATA[f(p, 0)];
            sx::begin(); if f(p, 2) == 0 { for a in &s { sx::arg(a); } } sx::arg(d.0); sx::arg(d.1); if f(p, 2) != 0 { for a in &s { sx::arg(a); } }
            refused(&sx::run())
        }
        // something that is no option: f1 = kind, with option f0
        3205 => {
            let c = ascii(); sx::assume(c > 0x20 && c < 0x7F && c != b'-');
            let d = DATA[f(p, 0)];
            sx::begin();
            if f(p, 2) == 0 { sx::arg(d.0); sx::arg(d.1); }
            match f(p, 1) { 0 => sx::arg(&[c]), 1 => sx::arg(&[c, b'1']), 2 => { sx::assume(!b"ahVmbitr?".contains(&c)); sx::arg(&[b'-', c]) } 3 => sx::arg(&[b'-', b'-', b'q', c]), 4 => { sx::arg(b"--"); sx::arg(&[c]) } _ => sx::arg(b"") }
            if f(p, 2) != 0 { sx::arg(d.0); sx::arg(d.1); }
            refused(&sx::run())
        }
        // an operation without data, or with empty data
        3206 => { let (_, names) = NAMES_OF[f(p, 0)]; let n = names[f(p, 1)]; sx::begin(); match f(p, 2) { 0 => sx::arg(n.as_bytes()), 1 => { sx::arg(n.as_bytes()); sx::arg(b"") } 2 => sx::arg(&cat(n.as_bytes(), b"=")), _ => { sx::arg(n.as_bytes()); sx::arg(b"--colour=never") } } refused(&sx::run()) }
        // text that is not valid Unicode
        3207 => { let d = DATA[f(p, 0)]; let mut t = d.1.to_vec(); let c = sx::sym(); sx::assume(c >= 0x80); t[f(p, 1)] = c; sx::begin(); sx::arg(d.0); sx::arg(&t); refused(&sx::run()) }
        // ---- another encoding of the same block
        // BER-TLV: objects f0; length forms by f1 (2 bits per object, plus one)
        3301 => {
            let (mut a, mut b) = (vec![], vec![]);
            let x = syms(2); sx::assume(x[0] != b'*');
            let form = |i: u32| 1 + (f(p, 1) >> (2 * i) & 3);
            match f(p, 0) {
                0 => { tlv(&mut a, &[0xC1], &x, 0); tlv(&mut b, &[0xC1], &x, form(0)); tlv(&mut a, &[0xDF, 0x22], &[], 0); tlv(&mut b, &[0xDF, 0x22], &[], form(1)); tlv(&mut a, &[0xC0], &[x[1]], 0); tlv(&mut b, &[0xC0], &[x[1]], form(2)); }
                k if k <= 15 => { let mut v = valid(k - 1); let i = if k == 6 || k == 4 { 1 } else { v.len() - 1 }; v[i] = x[0]; sx::assume(v.len() < 2 || !masked_as(&v)); tlv(&mut a, KNOWN[k - 1].0, &v, 0); tlv(&mut b, KNOWN[k - 1].0, &v, form(0)); tlv(&mut a, &[0xC0], &[7], 0); tlv(&mut b, &[0xC0], &[7], form(1)); }
                _ => { let n = [17, 100, 127, 128, 200, 255, 256, 1000, 20000][f(p, 0) - 16]; let v = big(n); tlv(&mut a, &[0xC1], &v, 0); tlv(&mut b, &[0xC1], &v, form(1).max(if n < 256 { 1 } else { 2 })); tlv(&mut a, &[0xC0], &x, 0); tlv(&mut b, &[0xC0], &x, form(0)); }
            }
            let op = if f(p, 2) == 0 { Op::Ber } else { Op::Auto };
            same(&invoke(op, &hex(&a), &PLAIN), &invoke(op, &hex(&b), &PLAIN), "another encoding of the same block gives another report");
        }
        // Ingenico: entries written with f0 zero bytes before the tag, f1 before the length, letter case f2, separator symbolic, hex or text f3
        3302 => {
            let x = syms(2);
            let text = f(p, 3) != 0;
            if text { sx::assume(x[0] >= 1 && x[0] < 0x80 && x[1] >= 1 && x[1] < 0x80); }
            sx::assume(x[0] != x[1]);
            let (mut a, mut b) = (vec![], vec![]);
            for (i, tag) in [&[0xDF, 0x5C][..], &[0xC1]].iter().enumerate() {
                if i > 0 { a.push(b','); b.push(ascii()); }
                ing(&mut a, tag, &x);
                let mut e = vec![b'T'];
                let mut num = vec![];
                for _ in 0..f(p, 0) { num.extend_from_slice(b"00"); }
                num.extend_from_slice(&hex(tag)); num.push(b':');
                for _ in 0..f(p, 1) { num.extend_from_slice(b"00"); }
                num.extend_from_slice(b"02:");
                if text { num.push(b'a'); num.extend_from_slice(&x); } else { num.push(b'h'); num.extend_from_slice(&hex(&x)); }
                if f(p, 2) != 0 { let n = num.len() - if text { 2 } else { 0 }; for c in num[..n].iter_mut() { *c = c.to_ascii_lowercase(); } }
                e.extend_from_slice(&num);
                b.extend_from_slice(&e);
            }
            let op = if f(p, 2) == 2 { Op::Auto } else { Op::Ingenico };
            same(&invoke(op, &a, &PLAIN), &invoke(op, &b, &PLAIN), "another encoding of the same block gives another report");
        }
        // non-EMV entries left out or put in: f0 place, f1 format, f2 length
        3303 => {
            let x = syms(1);
            let (mut a, mut b) = (vec![], vec![]);
            for i in 0..3 {
                if i == f(p, 0) { let k = ascii(); sx::assume(k != b'T'); b.push(k); b.extend_from_slice(b"9F1E:"); b.extend_from_slice(&ing_len(f(p, 2))); b.push(b':'); if f(p, 1) == 0 { b.push(b'h'); for _ in 0..2 * f(p, 2) { b.push(one_of(b"0189abcdefABCDEF")); } } else { b.push(b'a'); b.extend_from_slice(&ascii_text(f(p, 2))); } if i < 2 { b.push(b','); } }
                if i < 2 { ing(&mut a, &[0xC0 + i as u8], &x); ing(&mut b, &[0xC0 + i as u8], &x); if i == 0 { a.push(b','); } if i == 0 || f(p, 0) == 2 { b.push(b','); } }
            }
            same(&invoke(Op::Ingenico, &a, &PLAIN), &invoke(Op::Ingenico, &b, &PLAIN), "an entry that is not EMV data changes the report");
        }
        // ---- surroundings
        3401 => unrelated(p),
        3402 => unrelated_files(p),
        // ---- order of options
        3501 => ordered(p),
        // ---- unusable settings
        3601 => bad_setting(p),
        _ => crate::extra::extra(case, p),
    }
}
/// The interpretation of a value is the same alone and f0 deep in constructed objects.
fn nested_same(k: usize, v: &[u8], depth: usize) {
    let op = KNOWN[k].2.unwrap();
    sx::assume(!masked_as(v));
    let text = if op == Op::ServiceCode { bcd(v) } else { hexg(v) };
    let alone = invoke(op, &text, &PLAIN);
    let mut b = block1(KNOWN[k].0, v);
    for i in 0..depth { b = block1(if i % 2 == 0 { &[0x77] } else { &[0xBF, 0x0C] }, &b); }
    let block = invoke(Op::Ber, &hex(&b), &PLAIN);
    sane(&alone); sane(&block);
    let mut head = vec![b'\t'; depth];
    head.extend_from_slice(b"Parsed:");
    let at = line(&block.out, &head);
    if alone.err.is_empty() {
        let mut e = alone.out;
        for _ in 0..=depth { e = deeper(&e); }
        match at { Some(i) => sx::eq(&block.out[i + head.len() + 1..], &e, "the value reads differently inside a block"), None => sx::check(false, "the value is not interpreted inside a block") }
    } else { sx::check(at.is_none(), "a value its own option refuses is interpreted inside a block"); }
}
