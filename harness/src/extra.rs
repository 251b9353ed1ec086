//! Yet more cases (see cases.rs for the numbering).
use crate::{cases::*, kit::*, more::*, spec::*, sx};

/// K masking characters; the one at `at` is symbolic.
fn masks_of(k: usize, at: usize) -> Vec<u32> {
    (0..k).map(|i| if i == at { let c = ascii(); sx::assume(c > 0x20 && c < 0x7F && c != b'-' && c != b'"' && c != b'\\' && c != b'\''); c as u32 } else { b"*#xX0.@~_+=%&?kZ"[i % 16] as u32 }).collect()
}
fn list(ms: &[u32]) -> Vec<u8> { let mut l = b"[".to_vec(); for (i, m) in ms.iter().enumerate() { if i > 0 { l.push(b','); } l.push(b'"'); utf8_of(*m, &mut l); l.push(b'"'); } l.push(b']'); l }
/// An upper-case letter or an underscore.
fn letter() -> u8 { let c = ascii(); sx::assume(c == b'_' || c >= b'A' && c <= b'Z'); c }
/// n objects that are in the catalogue, one value symbolic.
fn named(n: usize, at: usize) -> Vec<u8> {
    const T: [(&[u8], usize); 12] = [(&[0x9A], 3), (&[0x9C], 1), (&[0x5F, 0x2A], 2), (&[0x9F, 0x02], 6), (&[0x50], 2), (&[0x9F, 0x35], 1), (&[0x82], 2), (&[0x5A], 2), (&[0x9F, 0x36], 2), (&[0x84], 1), (&[0x9F, 0x26], 8), (&[0x9F, 0x39], 1)];
    let mut b = vec![];
    for i in 0..n { let (t, l) = T[i % 12]; let mut v = vec![(i % 10) as u8; l]; if i == at { v[0] = sx::sym(); } if l > 1 { v[1] ^= 1; } tlv(&mut b, t, &v, 0); }
    b
}
fn op3(k: usize) -> Op { [Op::Ber, Op::Ingenico, Op::Auto][k] }
/// One environment, any option; the settings are the default ones but for colour.
fn environment(p: u32, set: &dyn Fn()) {
    let op = OPS[f(p, 0)];
    let x = sx::sym();
    sx::begin();
    set();
    let colour = f(p, 2) & 1 != 0;
    if colour { sx::arg(b"--colour=always"); }
    let t = match op {
        Op::Tvr | Op::Cvr => hex(&[x & 0xC1, 0x40, 0, 0x80, 0]), Op::Iad => { let mut v = valid(4); v[31] = x; hex(&v) } Op::Tsi => hex(&[x & 0xC1, 0]), Op::CvmResults => hex(&[0x42, x & 0x0F, 2]), Op::CvmList => hex(&[0, 0, 0, x, 0, 0, 0, 9, 0x42, 3]), Op::Identify => b"9F02".to_vec(), Op::ServiceCode => b"201".to_vec(),
        Op::Ingenico => { let mut t = vec![]; ing(&mut t, &[0xC2], &[x, 0x31]); t.push(b','); ing(&mut t, &[0xC1], b"##"); t.push(b','); ing(&mut t, &[0xC0], b"***"); t.push(b','); ing(&mut t, &[0x95], &[0x80, 0x48, 0, 0, 0]); t }
        _ => { let mut b = vec![]; tlv(&mut b, &[0xC2], &[x, 0x31], 0); tlv(&mut b, &[0xC1], b"##", 0); tlv(&mut b, &[0xC0], b"***", 0); tlv(&mut b, &[0x95], &[0x80, 0x48, 0, 0, 0], 0); tlv(&mut b, &[0xE1], &[0xC2, 0], 0); hex(&b) }
    };
    sx::arg(long(op).as_bytes()); sx::arg(&t);
    let r = sx::run();
    judge(op, &t, &Opts { colour, sort: true, masks: &PLAIN.masks }, &r);
}
fn value_of(k: usize) -> Vec<u8> {
    match k {
        0 => vec![], 1 => b"1".to_vec(), 2 => b"never".to_vec(), 3 => b"always".to_vec(), 4 => b"false".to_vec(), 5 => b"[\"#\"]".to_vec(), 6 => b"true".to_vec(), 7 => b"dumb".to_vec(), 8 => b"0".to_vec(), 9 => b"en_GB.UTF-8".to_vec(), 10 => b"/tmp".to_vec(), 11 => b"debug".to_vec(),
        k => (0..k - 11).map(|_| { let c = ascii(); sx::assume(c >= b'0' && c <= b'z' && c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'-'); c }).collect(),
    }
}

/// Shapes of small worlds: a dot is a primitive object, brackets a constructed one.
pub static SHAPES: [&str; 22] = [".", "..", "...", "....", "(.)", "(..)", "(...)", "(.).", ".(.)", "(.)(.)", "((.))", "((.).)", "(.(.))", "(()())", "(())", "()()", "(((.)))", "((.)(.))", "(..)(..)", "((()()))", "(((..)))", "(()())(.)"];
/// A small world: every constructed object has one of two tags, every primitive one one of two tags and one of two values.
/// kind: low 3 bits the tags, next 3 bits the size of the values, next bit masked values.
fn world(s: &[u8], i: &mut usize, kind: usize, two: bool) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut o = vec![];
    while *i < s.len() {
        let c = s[*i];
        *i += 1;
        match c {
            b'(' => { let inner = flat(&world(s, i, kind, two)); o.push((vec![if two { one_of(&[0xE1, 0xE2]) } else { 0xE1 }], inner)); }
            b')' => return o,
            _ => {
                let t = match kind & 7 { 0 => vec![one_of(&[0xC1, 0xC2])], 1 => vec![one_of(&[0x9A, 0xC1])], 2 => vec![0xDF, one_of(&[0x01, 0x02])], 3 => vec![one_of(&[0x95, 0xC1])], 4 => vec![0x9F, one_of(&[0x35, 0x02])], 5 => vec![0xDF, one_of(&[0x81, 0x82]), one_of(&[0x01, 0x02])], 6 => vec![0x95], _ => vec![0xC1] };
                let n = [1, 0, 2, 5, 17, 40, 3, 200][kind >> 3 & 7];
                let x = if n > 0 { one_of(if kind & 64 != 0 { b"*2" } else { &[0x31, 0x80] }) } else { 0 };
                o.push((t, vec![x; n]));
            }
        }
    }
    o
}
fn flat(w: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> { let mut b = vec![]; for (t, v) in w { tlv(&mut b, t, v, 0); } b }
fn world_of(p: u32) -> Vec<(Vec<u8>, Vec<u8>)> { let s = SHAPES[f(p, 0)].as_bytes(); let mut i = 0; world(s, &mut i, f(p, 1), true) }

/// Every name of an option with two dashes; those from place 33 on are settings.
pub fn names() -> Vec<(&'static str, &'static [u8])> {
    let mut o = vec![];
    for (op, n) in NAMES_OF.iter() { for x in n.iter() { if x.len() > 2 { o.push((*x, match *op { Op::Tvr => &b"8000000000"[..], Op::Iad => b"0FA50100000000000000000000000000000F000000000000000000000000000000", Op::Cvr => b"0000000000", Op::Tsi => b"E800", Op::CvmResults => b"420302", Op::CvmList => b"00000000000000004203", Op::Identify => b"9F02", Op::Ingenico => b"TC1:01:h31", Op::ServiceCode => b"201", _ => b"C10131" })); } } }
    for (x, v) in [("--masking-character", &b"#"[..]), ("--masking-char", b"#"), ("--masking", b"#"), ("--colour", b"always"), ("--color", b"never"), ("--sort-parsed-tags", b"true"), ("--sort", b"false"), ("--no-sort-parsed-tags", b"true"), ("--no-sort", b"false"), ("--help", b""), ("--version", b"")] { o.push((x, v)); }
    o
}
/// The value under its tag: alone, in colour, in templates, before, behind and between others, in the other carriers.
fn context(t: &[u8], v: &[u8], k: usize) {
    let mut b = vec![];
    match k {
        0 => exact_hex(Op::Ber, &block1(t, v), &PLAIN),
        1 => exact_hex(Op::Ber, &block1(t, v), &COLOUR),
        2 => { tlv(&mut b, &[0xE1], &block1(t, v), 0); exact_hex(Op::Ber, &b, &PLAIN) }
        3 => { tlv(&mut b, &[0xE1], &block1(t, v), 0); let c = b.clone(); b.clear(); tlv(&mut b, &[0x70], &c, 1); exact_hex(Op::Auto, &b, &COLOUR) }
        4 => { tlv(&mut b, &[0x95], &valid(0), 0); tlv(&mut b, t, v, 2); tlv(&mut b, &[0x9B], &valid(1), 0); exact_hex(Op::Ber, &b, &UNSORTED) }
        5 => { tlv(&mut b, t, v, 0); tlv(&mut b, t, v, 0); tlv(&mut b, &[0x5A], &[1], 0); exact_hex(Op::Ber, &b, &PLAIN) }
        6 => { ing(&mut b, t, v); exact(Op::Ingenico, &b, &PLAIN) }
        7 => { ing(&mut b, &[0xC1], &[1]); b.push(b','); ing(&mut b, t, v); exact(Op::Auto, &b, &COLOUR) }
        8 => { let mut w = v.to_vec(); w.reverse(); tlv(&mut b, t, &w, 0); tlv(&mut b, t, v, 0); exact_hex(Op::Ber, &b, &PLAIN) }
        _ => { b.extend_from_slice(b"T"); b.extend_from_slice(&hex(t)); b.extend_from_slice(b":"); b.extend_from_slice(&hex(&[v.len() as u8])); b.extend_from_slice(b":a"); for c in v { sx::assume(*c < 0x80 && *c != 0); b.push(*c); } exact(Op::Ingenico, &b, &PLAIN) }
    }
}
/// Blocks that between them have everything a report can show.
fn rich(k: usize, x: u8) -> Vec<u8> {
    let mut b = vec![];
    match k {
        0 => { for (i, t) in KNOWN.iter().enumerate() { tlv(&mut b, t.0, &valid(i), 0); } tlv(&mut b, &[0xC1], &[x], 0); }
        1 => { tlv(&mut b, &[0xC3], &[x, 1, 2], 0); for i in 0..6 { let mut o = vec![]; tlv(&mut o, &[0xE1 + i], &b, 0); tlv(&mut o, KNOWN[i as usize].0, &valid(i as usize), 0); tlv(&mut o, &[0xC1], b"***", 0); b = o; } }
        2 => for i in 0..40u8 { tlv(&mut b, &[[0x9Au8, 0xC4, 0x5A, 0xC1][i as usize % 4]], &[i, if i == 20 { x } else { 7 }], 0); },
        3 => { let mut v = vec![0, 0, 0x30, 0x39, 0, 0, 0, 7]; for i in 0..8u8 { v.push(if i == 3 { x & 0x7F } else { [0x41, 2, 0x43, 4, 0x5E, 0x1F, 0, 0x42][i as usize] }); v.push(i); } tlv(&mut b, &[0x8E], &v, 0); tlv(&mut b, &[0x95], &valid(0), 0); }
        4 => { tlv(&mut b, &[0xC1], &[b'*'; 40], 0); let mut v: Vec<u8> = (0..70u8).map(|i| b' ' + i).collect(); v[35] = x; tlv(&mut b, &[0xC2], &v, 0); tlv(&mut b, &[0x5F, 0x20], b"A/B                       ", 0); }
        5 => { let mut v = background(300, 3); v[150] = x; tlv(&mut b, &[0xC5], &v, 2); }
        6 => { tlv(&mut b, &[0xE1], &[], 0); tlv(&mut b, &[0xC1], &[], 0); tlv(&mut b, &[0xDF, 0x81, 0x82, 0x83, 4], &[x], 0); tlv(&mut b, &[0x9F, 2], &[0, 0, 0, 1, 0x23, 0x45], 0); }
        7 => { let mut v = background(20, 5); v[3] = x; tlv(&mut b, &[0xC1], &v, 0); }
        _ => { let mut v = background(17 + k, 6); v[16 + k] = x; tlv(&mut b, &[0x5A], &v, 0); let o = b.clone(); b.clear(); tlv(&mut b, &[0x70], &o, 0); }
    }
    b
}
fn terminals(fds: usize) { let l: Vec<u8> = (0..3).filter(|i| fds >> i & 1 != 0).map(|i| b'0' + i as u8).collect(); if fds != 0 { sx::env("SXH_TTY", &l); } }
fn terminal(op: Op, d: &[u8], colour: bool) {
    sx::arg(long(op).as_bytes()); sx::arg(d);
    let r = sx::run();
    judge(op, d, &Opts { colour, sort: true, masks: &PLAIN.masks }, &r);
}
pub fn extra(case: u32, p: u32) {
    match case {
        // ---- indefinite-looking lengths: an empty object of tag f0 with the length byte 0x80, something behind (f1); 110: in a constructed object or not (f2)
        110 | 3305 => {
            let x = sx::sym();
            let rest: Vec<u8> = match f(p, 1) { 0 => vec![], 1 => vec![0xC1, 1, x], 2 => vec![0xC2, 2, 0, 0], 3 => vec![0xC3, 3, x, 0, 0], 4 => vec![0, 0], 5 => syms(2), 6 => vec![0xC2, 2, x, 0, 0, 0], 7 => vec![0xC2, 0x80, 0xC1, 1, x], 8 => vec![0, 0, 0xC1, 1, x], _ => vec![0xC4, 4, 0, 0, x, 0, 0xC5, 1, 0] };
            let t = [&[0xC1][..], &[0xE1], &[0x95], &[0xDF, 0x81, 0x01], &[0x8A], &[0x9F, 0x10]][f(p, 0)];
            let build = |form: usize| { let mut b = vec![]; tlv(&mut b, t, &[], form); b.extend_from_slice(&rest); if f(p, 2) != 0 && case == 110 { let mut o = vec![]; tlv(&mut o, &[0xC9], &[7], 0); tlv(&mut o, &[0xE3], &b, 0); o } else { b } };
            let op = if f(p, 2) == 2 { Op::Auto } else { Op::Ber };
            if case == 110 { exact_hex(op, &build(5), &PLAIN) } else { same(&invoke(op, &hex(&build(0)), &PLAIN), &invoke(op, &hex(&build(5)), &PLAIN), "another encoding of the same block gives another report") }
        }
        // constructed objects f0 with length form f1 against the shortest; inside, forms f2 and f3
        3304 => {
            let x = syms(2); sx::assume(!masked_as(&x));
            let long_value = if f(p, 0) == 2 { big(150) } else { vec![] };
            let build = |o: usize, m: usize, i: usize| {
                let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
                match f(p, 0) {
                    0 => { tlv(&mut a, &[0xC1], &x, i); tlv(&mut b, &[0xE2], &a, m); tlv(&mut c, &[0xE1], &b, o); tlv(&mut c, &[0xC3], &x, i); }
                    1 => { let mut v = valid(2); v[2] = x[0]; tlv(&mut a, &[0x9F, 0x34], &v, i); tlv(&mut b, &[0xBF, 0x0C], &a, m); tlv(&mut b, &[0xC2], &[], i); tlv(&mut c, &[0x77], &b, o); }
                    2 => { tlv(&mut a, &[0xC1], &long_value, i); tlv(&mut a, &[0xC2], &x, 0); tlv(&mut b, &[0x7F, 0x49], &a, m); tlv(&mut c, &[0x70], &b, o); }
                    3 => { tlv(&mut a, &[0xE4], &[], i); tlv(&mut b, &[0xE2], &a, m); tlv(&mut c, &[0xFF, 0x81, 0x01], &b, o); tlv(&mut c, &[0xE1], &[], m); }
                    4 => { a.extend_from_slice(&x); tlv(&mut b, &[0xE2], &a, m); tlv(&mut b, &[0xC1], &[9], i); tlv(&mut c, &[0x61], &b, o); }
                    _ => { tlv(&mut a, &[0x95], &[0x80, 0, 0, 0, x[0] & 0xF0], i); tlv(&mut a, &[0x9A], &[0x21, 1, x[1]], m); tlv(&mut c, &[0x71], &a, o); tlv(&mut c, &[0x72], &a, m); }
                }
                c
            };
            let g = |k: usize, n: usize| if k == 1 && n > 255 { 2 } else { k };
            let wide = f(p, 0) == 2;
            let (o, m, i) = (g(f(p, 1), if wide { 300 } else { 0 }), g(f(p, 2), if wide { 300 } else { 0 }), f(p, 3));
            let op = if (o + m + i) % 3 == 0 { Op::Auto } else { Op::Ber };
            same(&invoke(op, &hex(&build(0, m, i)), &UNSORTED), &invoke(op, &hex(&build(o, m, i)), &UNSORTED), "another encoding of the same block gives another report");
        }
        // ---- f0 masking characters, each of them symbolic in turn (f3), against a value of f1 equal characters (the last one free) in carrier f2
        510 => {
            let ms = masks_of(f(p, 0), f(p, 3));
            let n = f(p, 1);
            let c = ascii();
            let mut v = vec![c; n];
            if n > 1 { v[n - 1] = ascii(); }
            let o = Opts { colour: false, sort: true, masks: &ms };
            match f(p, 2) {
                0 => exact_hex(Op::Ber, &block1(&[0xC1], &v), &o),
                1 => { let mut t = vec![]; ing_text(&mut t, &[0xC1], &v); exact(Op::Ingenico, &t, &o) }
                2 => { let mut t = b"TC1:".to_vec(); t.extend_from_slice(&ing_len(n)); t.extend_from_slice(b":h"); for _ in 0..n { t.extend_from_slice(&v[n - 1..]); t.push(c); } exact(Op::Ingenico, &t, &o) }
                3 => { let mut b = vec![]; tlv(&mut b, &[0xC2], &[c], 0); tlv(&mut b, &[0x95], &v, 0); exact_hex(Op::Ber, &block1(&[0xE1], &b), &o) }
                _ => { let mut t = b"X01:01:h00,".to_vec(); ing_text(&mut t, &[0xE1], &v); exact(Op::Auto, &t, &o) }
            }
        }
        // ---- f1 masking characters from place f0: file, profile, environment, options one by one, one option, options of several spellings; the f2-th symbolic
        2706 => {
            let ms = masks_of(f(p, 1), f(p, 2));
            let c = ascii(); let d = ascii();
            let v = [c, c, d];
            let ing_ = f(p, 3) == 1;
            let t = if ing_ { let mut t = vec![]; ing_text(&mut t, &[0xC1], &v); t } else { hex(&block1(&[0xC1], &v)) };
            sx::begin();
            let l = list(&ms);
            match f(p, 0) {
                0 => { let mut x = b"[default]\nmasking_characters = ".to_vec(); x.extend_from_slice(&l); x.push(b'\n'); sx::file("pemv.toml", &x) }
                1 => { let mut x = b"[default]\nmasking_characters = [\"*\"]\n[p]\nmasking_characters = ".to_vec(); x.extend_from_slice(&l); x.push(b'\n'); sx::file("pemv.toml", &x); sx::env("PEMV_PROFILE", b"p") }
                2 => sx::env("PEMV_MASKING_CHARACTERS", &l),
                3 => for m in &ms { sx::arg(b"-m"); sx::arg(&[*m as u8]); },
                4 => { sx::arg(b"-m"); for m in &ms { sx::arg(&[*m as u8]); } }
                _ => for (i, m) in ms.iter().enumerate() { match i % 3 { 0 => sx::arg(&cat(b"--masking=", &[*m as u8])), 1 => { sx::arg(b"--masking-character"); sx::arg(&[*m as u8]) } _ => { sx::assume(*m != b'=' as u32); sx::arg(&cat(b"-m", &[*m as u8])) } } },
            }
            let op = if ing_ { Op::Ingenico } else { Op::Ber };
            sx::arg(long(op).as_bytes()); sx::arg(&t);
            let r = sx::run();
            judge(op, &t, &Opts { colour: false, sort: true, masks: &ms }, &r);
        }
        // ---- a few objects among n = f0 + 256 * f1 catalogued ones: f2 = which, f3 = before, behind, Ingenico before, Ingenico behind
        3107 => {
            let n = wide(p, 0);
            let k = f(p, 2);
            let b = named(n, n / 2);
            if f(p, 3) < 2 {
                let a = if k < 15 { let mut v = valid(k); let i = v.len() - 1; if k != 5 && k != 3 { v[i] = sx::sym(); } block1(KNOWN[k].0, &v) } else { block1(&[0x9F, 0x1E], &syms(1)) };
                if f(p, 3) == 0 { parts(Op::Ber, &hex(&a), &hex(&b), &hex(&cat(&a, &b)), &UNSORTED) } else { parts(Op::Ber, &hex(&b), &hex(&a), &hex(&cat(&b, &a)), &UNSORTED) }
            } else {
                let mut a = vec![]; ing(&mut a, if k < 15 { KNOWN[k].0 } else { &[0x9F, 0x1E] }, &if k < 15 { let mut v = valid(k); let i = v.len() - 1; if k != 5 && k != 3 { v[i] = sx::sym(); } v } else { syms(1) });
                let mut b = vec![]; for i in 0..n { if i > 0 { b.push(b','); } ing(&mut b, [&[0x9A][..], &[0x9F, 0x02], &[0x50], &[0xC1]][i % 4], &[i as u8]); }
                let (x, y) = if f(p, 3) == 2 { (a, b) } else { (b, a) };
                let mut w = x.clone(); w.push(b','); w.extend_from_slice(&y);
                parts(Op::Ingenico, &x, &y, &w, &UNSORTED);
            }
        }
        // ---- surroundings: every variable that is not a setting has value f1; option f0; colour f2
        3403 => environment(p, &|| sx::env("*", &value_of(f(p, 1)))),
        // every file that is not there and not a configuration file has content f1
        3406 => environment(p, &|| {
            let set = "cli_colour = \"always\"\nmasking_characters = [\"#\"]\nsort_parsed_tags = false\n";
            sx::file("*", match f(p, 1) {
                0 => set.to_string(), 1 => format!("[default]\n{set}"), 2 => format!("[global]\n{set}"), 3 => "not TOML".to_string(), 4 => String::new(),
                5 => "{\"default\": {\"cli_colour\": \"always\", \"masking_characters\": [\"#\"], \"sort_parsed_tags\": false}}".to_string(),
                6 => "default:\n  cli_colour: always\n  masking_characters: ['#']\n  sort_parsed_tags: false\n".to_string(),
                7 => "PEMV_CLI_COLOUR=always\nPEMV_MASKING_CHARACTERS=[\"#\"]\nPEMV_SORT_PARSED_TAGS=false\n".to_string(),
                8 => "9A=Other Name\n95=Other Name\nC1 Other Name\n".to_string(), 9 => "#".to_string(), 10 => "\u{FFFD}\0".to_string(),
                k => (0..k - 10).map(|_| ascii() as char).collect(),
            }.as_bytes());
            if f(p, 3) == 1 { sx::file("pemv.toml", b"[default]\nsort_parsed_tags = true\n") }
            if f(p, 3) == 2 { for v in ["HOME", "XDG_CONFIG_HOME", "APPDATA"] { sx::env(v, b"/home/x") } }
            if f(p, 3) == 3 { sx::env("*", b"/etc/x") }
        }),
        // a variable called PEMV_ and f3 further letters, not one of the settings
        3404 => environment(p, &|| {
            let n = f(p, 3);
            let mut k = b"PEMV_".to_vec();
            for _ in 0..n { k.push(letter()); }
            for s in [&b"CONFIG"[..], b"PROFILE", b"CLI_COLOUR", b"MASKING_CHARACTERS", b"SORT_PARSED_TAGS"] { if s.len() == n { sx::assume(&k[5..] != s); } }
            sx::env_named(&k, &value_of(f(p, 1)))
        }),
        // a variable of f3 letters without the prefix
        3405 => environment(p, &|| { let k: Vec<u8> = (0..f(p, 3)).map(|_| letter()).collect(); if k.len() > 5 { sx::assume(&k[..5] != b"PEMV_"); } sx::env_named(&k, &value_of(f(p, 1))) }),
        // ---- BER-TLV text f0 that has the separators of an Ingenico entry: colons after f1 and f2 digits, f3: what stands in front and behind the second one
        913 => {
            let d: Vec<u8> = match f(p, 0) { 0 => vec![0xC1, 5, 0, 0, 0, 0, 0], 1 => vec![0xC1, 2, 0x31, sx::sym(), 0xC0, 0], 2 => vec![0x9F, 0x02, 1, sx::sym()], 3 => vec![0xE1, 3, 0xC1, 1, sx::sym()], 4 => vec![0x00, 0xC1, 1, 5], _ => vec![0xC1, 6, 0, 0, 0, 0, 0, sx::sym()] };
            let h = hex(&d);
            let mut t = vec![];
            match f(p, 3) & 3 { 0 => {} 1 => t.push(b'T'), 2 => t.push(ascii()), _ => t.extend_from_slice(b"T00") }
            for (i, c) in h.iter().enumerate() {
                if i == f(p, 1) || i == f(p, 2) { t.push(b':'); }
                if i == f(p, 2) { match f(p, 3) >> 2 { 0 => {} 1 => t.push(b'h'), _ => t.push(ascii()) } }
                t.push(*c);
            }
            auto(&t, 0)
        }
        // ---- Ingenico entries whose kind and separator are symbolic characters of f0 and f1 bytes; entry f2 of three
        611 => {
            let mut t = vec![];
            for i in 0..3 {
                let mut e = vec![];
                ing(&mut e, &[0xC1 + i as u8], &[0x41 + i as u8, 0x7F]);
                if i == f(p, 2) || i == f(p, 3) { let k = utf8(f(p, 0)); t.extend_from_slice(&k); t.extend_from_slice(&e[1..]); } else { t.extend_from_slice(&e); }
                if i == 2 { break; }
                if i == f(p, 2) || i + 1 == f(p, 2) { let s = utf8(f(p, 1)); t.extend_from_slice(&s); } else { t.push(b','); }
            }
            exact(Op::Ingenico, &t, &PLAIN);
        }
        // ---- small worlds of shape f0, kind f1: exact, f2: sorted, not, automatic, coloured, Ingenico, other masks
        111 | 411 | 1109 | 2607 => {
            let w = world_of(p);
            match f(p, 2) {
                0 => exact_hex(Op::Ber, &flat(&w), &PLAIN), 1 => exact_hex(Op::Ber, &flat(&w), &UNSORTED), 2 => exact_hex(Op::Auto, &flat(&w), &PLAIN), 3 => exact_hex(Op::Ber, &flat(&w), &COLOUR),
                k => { let mut t = vec![]; for (i, (g, v)) in w.iter().enumerate() { if i > 0 { t.push(b','); } ing(&mut t, g, v); } exact(if k == 5 { Op::Auto } else { Op::Ingenico }, &t, sort_of(k / 6)) }
            }
        }
        // both formats
        809 => { let w = world_of(p); let mut t = vec![]; for (i, (g, v)) in w.iter().enumerate() { if i > 0 { t.push(b','); } ing(&mut t, g, v); } let o = sort_of(f(p, 2)); same(&invoke(Op::Ber, &hex(&flat(&w)), o), &invoke(Op::Ingenico, &t, o), "the two formats give different reports for the same objects"); }
        // two worlds one behind the other: shapes f0 and f2; f3: plain, coloured, Ingenico
        3108 => {
            let (a, b) = (world_of(p), world_of(p >> 16 & 255 | p & 0xFF00));
            if f(p, 3) == 2 {
                let t = |w: &[(Vec<u8>, Vec<u8>)]| { let mut t = vec![]; for (i, (g, v)) in w.iter().enumerate() { if i > 0 { t.push(b','); } ing(&mut t, g, v); } t };
                let (x, y) = (t(&a), t(&b));
                let mut w = x.clone(); w.push(b','); w.extend_from_slice(&y);
                parts(Op::Ingenico, &x, &y, &w, &UNSORTED);
            } else {
                let (x, y) = (flat(&a), flat(&b));
                parts(Op::Ber, &hex(&x), &hex(&y), &hex(&cat(&x, &y)), &if f(p, 3) == 0 { UNSORTED } else { Opts { colour: true, sort: false, masks: &PLAIN.masks } });
            }
        }
        // ---- length fields of f0 bytes, zeros before the real size f1 of the value; f2: last, in the middle, nested, Ingenico (text, hex); f3 - 1 = a further byte of the field that is symbolic
        207 | 713 => {
            let (k, n) = (f(p, 0), f(p, 1));
            let v: Vec<u8> = (0..n).map(|i| if i == 0 { sx::sym() } else { 0x30 + (i as u8 & 7) }).collect();
            let mut l = vec![0u8; k];
            l[k - 1] = n as u8;
            if f(p, 3) > 0 && f(p, 3) < k { l[f(p, 3) - 1] = sx::sym(); }
            if f(p, 2) < 3 {
                let mut b = if f(p, 2) == 1 { vec![0xC9, 1, 0x55] } else { vec![] };
                b.push(0xC1); b.push(0x80 | k as u8); b.extend_from_slice(&l); b.extend_from_slice(&v);
                if f(p, 2) == 1 { tlv(&mut b, &[0xC2], &[1, 2], 0); }
                if f(p, 2) == 2 { let mut o = vec![]; tlv(&mut o, &[0xE1], &b, 0); tlv(&mut o, &[0xC2], &[7], 0); b = o; }
                exact_hex(Op::Ber, &b, &UNSORTED);
            } else {
                let mut t = b"TC9:01:h55,TC1:".to_vec(); t.extend_from_slice(&hex(&l));
                if f(p, 2) == 3 { sx::assume(n == 0 || v[0] < 0x80 && v[0] > 0); t.extend_from_slice(b":a"); t.extend_from_slice(&v); } else { t.extend_from_slice(b":h"); t.extend_from_slice(&hex(&v)); }
                t.extend_from_slice(b",TC2:01:h07");
                exact(Op::Ingenico, &t, &UNSORTED);
            }
        }
        // ---- hex in customary layouts: option f0, layout f1, digits in groups as f2 says, byte f3 symbolic
        1009 => {
            let op = OPS[f(p, 0)];
            let mut v = spelled(op);
            let L: [(&str, &str, &str); 32] = [("", ", ", ""), ("0x", ", 0x", ""), ("0x", " 0x", ""), ("", " ", ""), ("\\x", "\\x", ""), ("", ":", ""), ("", "-", ""), ("", "h ", "h"), ("{ 0x", ", 0x", " }"), ("[", ",", "]"), ("%", "%", ""), ("", "|", ""), ("", "_", ""), ("", "\t", ""), ("", "\n", ""), ("#", "", ""), ("$", " $", ""), ("x'", "", "'"), ("", "; ", ""), ("", "  ", ""), ("0X", ", 0X", ""), ("\"", "\", \"", "\""), ("(byte) 0x", ", (byte) 0x", ""), ("H'", " H'", ""), ("0x", "", ""), ("0x", ":", ""), ("0x", "0x", ""), ("&#x", ";&#x", ";"), ("\\u00", "\\u00", ""), ("16#", "# 16#", "#"), ("", ".", ""), ("00000000  ", " ", "  |....|")];
            let (pre, sep, post) = L[f(p, 1)];
            if f(p, 3) < v.len() { v[f(p, 3)] = if f(p, 2) == 1 || f(p, 2) == 3 { below(16) } else { sx::sym() }; }
            let h = hex(&v);
            let mut t = pre.as_bytes().to_vec();
            for i in 0..v.len() {
                let (a, b) = (h[2 * i], h[2 * i + 1]);
                let cut = match f(p, 2) { 4 => i % 2 == 0, 5 => i % 4 == 0, 6 => i == 1, _ => true };
                if i > 0 && cut { t.extend_from_slice(sep.as_bytes()); }
                let (short, lower) = match f(p, 2) { 1 => (v[i] < 16, false), 2 => (false, true), 3 => (i == f(p, 3), false), _ => (false, false) };
                if !short { t.push(if lower && a >= b'A' { a | 0x20 } else { a }); }
                if f(p, 2) == 7 { t.extend_from_slice(sep.as_bytes()); }
                t.push(if lower && b >= b'A' { b | 0x20 } else { b });
            }
            t.extend_from_slice(post.as_bytes());
            exact(op, &t, &PLAIN);
        }
        // ---- in a block at depth f2 - 1 and under colour (f3 bit 0), bare otherwise: known tag f0 with byte f1 symbolic; what it says is what the option of its own says
        1307 => {
            let k = f(p, 0);
            let op = KNOWN[k].2.unwrap();
            let mut v = valid(k); v[f(p, 1)] = if k == 5 { 2 } else { sx::sym() };
            let mut b = vec![]; tlv(&mut b, &[0xC1], &[1, 2], 0); tlv(&mut b, KNOWN[k].0, &v, 0);
            for i in 0..f(p, 2) { let mut o = vec![]; if i == 1 { tlv(&mut o, &[0x9F, 0x02], &[0; 6], 0); } tlv(&mut o, [&[0xE1][..], &[0x61], &[0xA5], &[0xBF, 0x0C]][(i + f(p, 3) / 2) % 4], &b, 0); b = o; }
            let o = if f(p, 3) & 1 != 0 { &COLOUR } else { &PLAIN };
            let text = if op == Op::ServiceCode { bcd(&v) } else { hex(&v) };
            let alone = invoke(op, &text, o);
            judge(op, &text, o, &alone);
            exact_hex(Op::Ber, &b, o);
        }
        // ---- known tag f0 with a value of f1 + 256 f2 bytes, the first symbolic, between two objects
        1407 => { let k = f(p, 0); let n = wide(p, 1); let mut v = background(n, 4 + f(p, 3) as u32); v[0] = sx::sym(); let mut b = vec![]; tlv(&mut b, &[0xC1], &[sx::sym()], 0); tlv(&mut b, KNOWN[k].0, &v, 0); tlv(&mut b, &[0xC2], &[2], 0); exact_hex(Op::Ber, &b, &PLAIN); }
        // ---- known tag f0 with byte f1 symbolic, f2 levels deep, coloured (f3 bit 0), unsorted (bit 1)
        1604 | 2608 => {
            let k = f(p, 0);
            let mut v = valid(k); v[f(p, 1)] = if k == 5 { 2 } else { sx::sym() };
            let mut b = vec![]; tlv(&mut b, &[0xC1], &[1, 2], 0); tlv(&mut b, KNOWN[k].0, &v, 0);
            for i in 0..f(p, 2) { let mut o = vec![]; if i % 2 == 1 { tlv(&mut o, &[0x9F, 0x02], &[0; 6], 0); } tlv(&mut o, [&[0xE1][..], &[0x61], &[0xA5], &[0xBF, 0x0C]][i % 4], &b, 0); b = o; }
            exact_hex(Op::Ber, &b, &Opts { colour: f(p, 3) & 1 != 0, sort: f(p, 3) & 2 == 0, masks: &PLAIN.masks });
        }
        // ---- a file named by the environment that is not there (f0: nowhere, a directory, empty, elsewhere), beside the usual one with setting f1; f2 option
        2707 => {
            let c = ascii();
            let op = OPS[f(p, 2)];
            let t = if op == Op::Ingenico { let mut t = vec![]; ing_text(&mut t, &[0xC2], &[b'*', c]); t.extend_from_slice(b",TC1:01:h23"); t } else { let mut b = vec![]; tlv(&mut b, &[0xC2], &[b'*', c], 0); tlv(&mut b, &[0xC1], b"#", 0); hex(&b) };
            sx::begin();
            let x: &[u8] = [&b"sort_parsed_tags = false\n"[..], b"masking_characters = [\"#\"]\n", b"cli_colour = \"always\"\n"][f(p, 1) % 3];
            sx::file("pemv.toml", &cat(if f(p, 1) < 3 { b"[default]\n" } else { b"[global]\n" }, x));
            match f(p, 0) { 0 => sx::env("PEMV_CONFIG", b"missing.toml"), 1 => sx::env("PEMV_CONFIG", b"nowhere/pemv.toml"), 2 => { sx::file("other.toml", b""); sx::env("PEMV_CONFIG", b"other.toml") } _ => { sx::file("other.toml", b"[elsewhere]\nsort_parsed_tags = false\n"); sx::env("PEMV_CONFIG", b"other.toml") } }
            sx::arg(long(op).as_bytes()); sx::arg(&t);
            let r = sx::run();
            judge(op, &t, &PLAIN, &r);
        }
        // ---- a file f0 that is not text: a byte above 0x7F at place f1, alone or before another (f2); option f3
        3602 => {
            let mut x = [&b"[default]\nsort_parsed_tags = true\n"[..], b"# \n[default]\n", b"[default]\nmasking_characters = [\"*\"]\n", b"# "][f(p, 0)].to_vec();
            let c = sx::sym(); sx::assume(c >= 0x80);
            let at = if f(p, 1) > x.len() { x.len() } else { f(p, 1) };
            x.insert(at, c);
            if f(p, 2) == 1 { sx::assume(c < 0xC0); let d = sx::sym(); sx::assume(d >= 0x80); x.insert(at + 1, d); }
            sx::begin();
            sx::file("pemv.toml", &x);
            let op = OPS[f(p, 3)];
            sx::arg(long(op).as_bytes());
            sx::arg(match op { Op::Ingenico => b"TC1:01:h31", Op::ServiceCode => b"201", Op::Tvr => b"8000000000", _ => b"C10131" });
            let r = sx::run();
            if r.code == 1002 { sx::check(false, "the tool does not terminate"); }
            sx::check(r.code != 1001, "an unusable setting makes the tool crash");
            sx::eq(&r.out, b"", "a report is printed in spite of an unusable setting");
            sx::check(!r.err.is_empty(), "an unusable setting is not reported");
        }
        // ---- almost a name: the f0-th one, f2: cut after f1 characters, one replaced, one inserted, two exchanged; f3 bit 0: joined value; bit 1: behind a right option
        3208 => {
            let (n, d) = names()[f(p, 0)];
            let mut w = n.as_bytes()[2..].to_vec();
            let i = f(p, 1);
            match f(p, 2) {
                0 => { if i >= w.len() || i == 0 && d.is_empty() { return; } w.truncate(i); }
                1 => { if i >= w.len() { return; } let c = ascii(); sx::assume(c > 0x20 && c < 0x7F && c != b'='); w[i] = c; }
                2 => { if i > w.len() { return; } let c = ascii(); sx::assume(c > 0x20 && c < 0x7F && c != b'='); w.insert(i, c); }
                3 => { if i + 1 >= w.len() { return; } w.swap(i, i + 1); }
                4 => { if i >= w.len() { return; } w[i] ^= 0x20; if !w[i].is_ascii_alphabetic() { return; } }
                _ => { if i >= w.len() || w[i] != b'-' { return; } w[i] = b'_'; }
            }
            for (m, _) in names() { let m = &m.as_bytes()[2..]; if m.len() == w.len() { sx::assume(m != &w[..]); } }
            w.insert(0, b'-'); w.insert(0, b'-');
            sx::begin();
            if f(p, 3) & 2 != 0 { sx::arg(b"-b"); sx::arg(b"C10131"); }
            if f(p, 3) & 1 != 0 { w.push(b'='); w.extend_from_slice(d); sx::arg(&w); } else { sx::arg(&w); if !d.is_empty() { sx::arg(d); } }
            refused(&sx::run())
        }
        // ---- masking characters of f0 ASCII characters, form f1, before or behind (f2) option f3
        3209 => {
            let v = ascii_text(f(p, 0));
            sx::assume(v[0] != b'-' && v[0] != b'=');
            let d: (&[u8], &[u8]) = [(&b"-b"[..], &b"C1013A"[..]), (b"-a", b"C1013A"), (b"-i", b"TC1:01:h31")][f(p, 3)];
            sx::begin();
            if f(p, 2) != 0 { sx::arg(d.0); sx::arg(d.1); }
            match f(p, 1) { 0 => { sx::arg(b"-m"); sx::arg(&v) } 1 => sx::arg(&cat(b"-m", &v)), 2 => sx::arg(&cat(b"-m=", &v)), 3 => sx::arg(&cat(b"--masking=", &v)), 4 => { sx::arg(b"--masking-character"); sx::arg(&v) } 5 => { sx::arg(b"-m"); sx::arg(b"#"); sx::arg(&v) } _ => { sx::arg(b"-m"); sx::arg(&v); sx::arg(b"#") } }
            if f(p, 2) == 0 { sx::arg(d.0); sx::arg(d.1); }
            refused(&sx::run())
        }
        // ---- one symbolic byte in all the places of the set f1, the rest of background f2; f0 = the field, f3 = complemented in every second place
        1506 | 1606 | 1706 | 1806 | 1906 => {
            let n = match f(p, 0) { 4 => 2, 5 => 3, _ => 5 };
            let mut v = background(n, f(p, 2) as u32);
            let x = sx::sym();
            let mut k = 0;
            for i in 0..n { if f(p, 1) >> i & 1 != 0 { v[i] = if f(p, 3) != 0 && k % 2 == 1 { !x } else { x }; k += 1; } }
            match f(p, 0) {
                0 => exact_hex(Op::Tvr, &v, &PLAIN), 1..=3 => exact_hex(Op::Ber, &block1(KNOWN[11 + f(p, 0)].0, &v), &PLAIN),
                4 => exact_hex(Op::Tsi, &v, &PLAIN), 5 => exact_hex(Op::Ber, &block1(&[0x9F, 0x33], &v), &PLAIN), 6 => exact_hex(Op::Ber, &block1(&[0x9F, 0x40], &v), &PLAIN),
                7 => exact_hex(Op::Cvr, &v, &PLAIN),
                8 => { let mut w = background(32, 0); w[0] = 15; w[16] = 15; w[1] = 0xA5; w[3..8].copy_from_slice(&v); exact_hex(Op::Iad, &w, &PLAIN) }
                9 => { let mut w = background(32, 1); w[0] = 15; w[16] = 15; w[1] = 0xA5; for i in 17..32 { w[i] = v[i % 5]; } exact_hex(Op::Iad, &w, &PLAIN) }
                _ => { let mut w = background(32, 0); w[0] = 15; w[16] = 15; w[1] = 0xA5; for i in 8..16 { w[i] = v[i % 5]; } exact_hex(Op::Iad, &w, &PLAIN) }
            }
        }
        // ---- verification results with byte f0 symbolic, the others from lists (f1, f2), in context f3
        2003 => {
            const M: [u8; 14] = [0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x1E, 0x1F, 0x20, 0x3F, 0x41, 0x5E, 0xBF];
            const C: [u8; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x7F, 0x80, 0xFF];
            const R: [u8; 6] = [0, 1, 2, 3, 0x80, 0xFF];
            let x = sx::sym();
            let v = match f(p, 0) { 0 => [x, C[f(p, 1)], R[f(p, 2)]], 1 => [M[f(p, 1)], x, R[f(p, 2)]], _ => [M[f(p, 1)], C[f(p, 2)], x] };
            context(&[0x9F, 0x34], &v, f(p, 3))
        }
        // ---- codes (f0: the tag) of f1 = 0: symbolic or constant f2, in context f3
        2304 => {
            let (t, n) = [(&[0x9C][..], 1), (&[0x9F, 0x35][..], 1), (&[0x9F, 0x39][..], 1), (&[0x8A][..], 2)][f(p, 0)];
            let mut v = vec![sx::sym()];
            if n == 2 { v.push(f(p, 2) as u8); if f(p, 1) == 1 { v.swap(0, 1); } }
            context(t, &v, f(p, 3))
        }
        // ---- terminals: f1 = which of input (1), output (2) and error (4) are terminals, f2 = where the colour choice comes from, f3 = TERM and NO_COLOR; option f0 + 16 * refused data
        3701 => {
            let op = OPS[f(p, 0) & 15];
            let x = sx::sym();
            let refused = f(p, 0) >> 4 != 0;
            let d = match (op, refused) {
                (Op::Tvr | Op::Cvr, false) => hex(&[x & 0xC1, 0x40, 0, 0x80, 0]), (Op::Iad, false) => { let mut v = valid(4); v[31] = x; hex(&v) } (Op::Tsi, false) => hex(&[x & 0xC1, 0]), (Op::CvmResults, false) => hex(&[0x42, x & 0x0F, 2]), (Op::CvmList, false) => hex(&[0, 0, 0, x, 0, 0, 0, 9, 0x42, 3]), (Op::Identify, false) => b"9F02".to_vec(), (Op::ServiceCode, false) => b"201".to_vec(),
                (Op::Ingenico, false) => { let mut t = vec![]; ing(&mut t, &[0xC2], &[x, 0x31]); t.push(b','); ing(&mut t, &[0xC0], b"***"); t.push(b','); ing(&mut t, &[0x95], &[0x80, 0x48, 0, 0, 0]); t }
                (_, false) => { let mut b = vec![]; tlv(&mut b, &[0xC2], &[x, 0x31], 0); tlv(&mut b, &[0xC0], b"***", 0); tlv(&mut b, &[0x95], &[0x80, 0x48, 0, 0, 0], 0); tlv(&mut b, &[0xE1], &[0xC2, 0], 0); hex(&b) }
                (Op::Ingenico, true) => b"T9A:0".to_vec(), (Op::Identify, true) => vec![b'z', b'9'], (Op::ServiceCode, true) => vec![b'x', b'0' + below(10)], (_, true) => vec![b'9', b'F' + (x & 0)],
            };
            sx::begin();
            let fds = f(p, 1);
            let l: Vec<u8> = (0..3).filter(|i| fds >> i & 1 != 0).map(|i| b'0' + i as u8).collect();
            if fds != 0 { sx::env("SXH_TTY", &l); }
            let able = match f(p, 3) {
                0 => { sx::env("TERM", b"xterm-256color"); true } 1 => false, 2 => { sx::env("TERM", b"dumb"); false } 3 => { sx::env("TERM", b"xterm"); sx::env("NO_COLOR", b"1"); false }
                4 => { let v: Vec<u8> = (0..4).map(|_| { let c = ascii(); sx::assume(c.is_ascii_lowercase()); c }).collect(); sx::assume(&v[..] != b"dumb"); sx::env("TERM", &v); true }
                5 => { sx::env("TERM", b"vt100"); sx::env("CLICOLOR", b"0"); sx::env("COLORTERM", b"truecolor"); true } 6 => { sx::env("COLORTERM", b"truecolor"); sx::env("CLICOLOR_FORCE", b"1"); sx::env("FORCE_COLOR", b"1"); false }
                7 => { sx::env("TERM", b"dumb"); sx::env("CLICOLOR_FORCE", b"1"); sx::env("FORCE_COLOR", b"3"); false } _ => { let v = value_of(12 + f(p, 3) % 4); sx::env("TERM", b"screen"); sx::env("NO_COLOR", &v); false }
            };
            let auto = fds & 2 != 0 && able;
            let colour = match f(p, 2) {
                0 => auto, 1 => { sx::arg(b"--colour=auto"); auto } 2 => { sx::arg(b"--colour"); sx::arg(b"always"); true } 3 => { sx::arg(b"--color=ansi"); true } 4 => { sx::arg(b"--colour=never"); false }
                5 => { sx::env("PEMV_CLI_COLOUR", b"auto"); auto } 6 => { sx::file("pemv.toml", b"[default]\ncli_colour = \"auto\"\n"); auto } 7 => { sx::env("PEMV_CLI_COLOUR", b"always"); true } 8 => { sx::file("pemv.toml", b"[default]\ncli_colour = \"never\"\n"); false }
                9 => { sx::env("PEMV_CLI_COLOUR", b"never"); sx::arg(b"--colour=auto"); auto } 10 => { sx::env("PEMV_CLI_COLOUR", b"ansi"); true } 11 => { sx::file("pemv.toml", b"[default]\ncli_colour = \"ansi\"\n[global]\nsort_parsed_tags = true\n"); true }
                _ => { sx::file("pemv.toml", b"[default]\ncli_colour = \"never\"\n"); sx::env("PEMV_CLI_COLOUR", b"auto"); auto }
            };
            if refused {
                // the same without terminals
                sx::arg(long(op).as_bytes()); sx::arg(&d);
                let a = sx::run();
                sx::begin();
                sx::arg(long(op).as_bytes()); sx::arg(&d);
                let b = sx::run();
                sx::check(a.code != 1001 && a.code != 1002, "the tool crashes or does not terminate");
                sx::check(!a.err.is_empty(), "refused data without an error");
                sx::eq(&a.err, &b.err, "the error message depends on what is a terminal");
                sx::eq(&a.out, &b.out, "refused data leaves something on standard output");
                return;
            }
            terminal(op, &d, colour)
        }
        // ---- data that could be taken for the name of something: option f0, shape of the data f1, what is there f2
        3411 => {
            let op = OPS[f(p, 0)];
            let x = ascii(); sx::assume(x != b'-' && x > b' ');
            let v: &[u8] = names().iter().find(|n| n.0 == NAMES_OF.iter().find(|n| n.0 == op).unwrap().1[0]).unwrap().1;
            let d: Vec<u8> = match f(p, 1) { 0 => vec![x], 1 => cat(&[x], v), 2 => cat(&[b'@', x], v), 3 => cat(v, &[x]), 4 => { let mut d = b"file://".to_vec(); d.push(x); cat(&d, v) } 5 => b"/dev/stdin".to_vec(), 6 => cat(b"/tmp/", &[x]), 7 => vec![x, x], 8 => vec![b'.', b'/', x], 9 => vec![b'0' + x % 10], _ => v.to_vec() };
            sx::begin_as(match f(p, 2) { 3 => b"./pemv", 4 => b"/usr/local/bin/pemv-plain", 5 => b"emv", 6 => b"pemv.exe", 7 => b"tlv", _ => b"pemv" });
            const OTHER: [&[u8]; 3] = [b"C10141", b"\xC1\x01A", b"T9C:01:h00"];
            match f(p, 2) { 0 => sx::file("*", OTHER[(f(p, 0) + f(p, 1)) % 3]), 1 => sx::file("<stdin>", OTHER[(f(p, 0) + f(p, 1)) % 3]), 2 => { sx::file("<stdin>", b"201\n"); sx::env("*", b"C10141") } _ => {} }
            let o = match f(p, 3) & if (7..=9).contains(&f(p, 0)) { 3 } else { 1 } { 0 => Opts { colour: false, sort: true, masks: &PLAIN.masks }, 1 => Opts { colour: true, sort: true, masks: &PLAIN.masks }, 2 => Opts { colour: true, sort: false, masks: &PLAIN.masks }, _ => Opts { colour: false, sort: false, masks: &[b'0' as u32, b'A' as u32] } };
            if o.colour { sx::arg(b"--colour=always"); }
            if !o.sort { sx::arg(b"--no-sort"); }
            if !o.sort && !o.colour { for m in o.masks { sx::arg(&[b'-', b'm', *m as u8]); } }
            sx::arg(long(op).as_bytes()); sx::arg(&d);
            let r = sx::run();
            judge(op, &d, &o, &r)
        }
        // ---- printed text: f1 printable bytes with symbolic bytes at f2 (and after), carried as f0, f3: further bytes behind the first line
        2807 => {
            let n = f(p, 1);
            let mut v: Vec<u8> = (0..n).map(|i| b"Abc 19/xyz*Q(-)~"[(i + f(p, 3)) % 16]).collect();
            v[f(p, 2)] = sx::sym(); if f(p, 2) + 1 < n && f(p, 3) & 1 == 0 { v[f(p, 2) + 1] = sx::sym(); }
            let mut b = vec![];
            match f(p, 0) {
                0 => clean(&invoke(Op::Ber, &hex(&block1(&[0xC1], &v)), &PLAIN)),
                1 => { tlv(&mut b, &[0xE1], &block1(&[0xC1], &v), 0); clean(&invoke(Op::Ber, &hex(&b), &PLAIN)) }
                2 => { ing(&mut b, &[0xC1], &v); clean(&invoke(Op::Ingenico, &b, &UNSORTED)) }
                3 => { tlv(&mut b, &[0xE1], &block1(&[0x5F, 0x2D], &v), 0); let o = b.clone(); b.clear(); tlv(&mut b, &[0x70], &o, 1); clean(&invoke(Op::Auto, &hex(&b), &PLAIN)) }
                4 => clean(&invoke(Op::Ber, &hex(&block1(&[0x5F, 0x20], &v)), &PLAIN)),
                _ => { for c in v.iter() { sx::assume(*c != 0 && *c < 0x80); } b.extend_from_slice(b"TC1:"); b.extend_from_slice(&ing_len(n)); b.extend_from_slice(b":a"); b.extend_from_slice(&v); clean(&invoke(Op::Ingenico, &b, &PLAIN)) }
            }
        }
        // ---- the masking characters in several places of the command line, something in between: arrangement f0, option f1
        3502 => {
            let op = OPS[f(p, 1)];
            let x = sx::sym();
            let v = [x, 0x23, 0x2A, 0x78];
            let mut b = vec![]; tlv(&mut b, &[0xC2], &v, 0); tlv(&mut b, &[0xC1], &[x, x], 0); tlv(&mut b, &[0xC0], b"##", 0); tlv(&mut b, &[0xC3], b"xxx", 0); tlv(&mut b, &[0xC4], b"**", 0);
            let t = if op == Op::Ingenico { let mut t = vec![]; ing(&mut t, &[0xC2], &v); t.push(b','); ing(&mut t, &[0xC1], &[x, x]); t.push(b','); ing(&mut t, &[0xC0], b"##"); t.push(b','); ing(&mut t, &[0xC3], b"xxx"); t.push(b','); ing(&mut t, &[0xC4], b"**"); t } else { hex(&b) };
            // m: -m #, l: --masking-character #, e: -m=#, j: -m#, o: the option and its data, c: --colour always, C: --colour=ansi, s: --no-sort; x and *: other masking characters
            let plan: &[u8] = [&b"moMx"[..], b"Mxom", b"mcoM*", b"mcsoMx", b"mosMx", b"mocsM*", b"moM*cM", b"mcMxsoM*", b"LsoMxcm", b"mscoL", b"emoMx", b"EscoJ", b"jocsJMx", b"cmosM*mMx", b"osmMx", b"oMxsm", b"Mxsocm", b"mMxsocM*", b"2so2", b"2cos2", b"3om", b"mo3", b"3sco3", b"mocMxsM*", b"ocmsMxM*", b"omcMxsM*"][f(p, 0)];
            let y = b'x'; let mut masks: Vec<u32> = vec![]; let (mut colour, mut sort) = (false, true);
            sx::begin();
            let mut i = 0;
            while i < plan.len() {
                match plan[i] {
                    b'm' => { sx::arg(b"-m"); sx::arg(b"#"); masks.push(b'#' as u32) }
                    b'M' => { let c = if plan.get(i + 1) == Some(&b'*') { i += 1; b'*' } else { if plan.get(i + 1) == Some(&b'x') { i += 1; } y }; sx::arg(b"-m"); sx::arg(&[c]); masks.push(c as u32) }
                    b'l' => { sx::arg(b"--masking-character"); sx::arg(b"#"); masks.push(b'#' as u32) }
                    b'L' => { sx::arg(b"--masking-character"); sx::arg(&[y]); masks.push(y as u32) }
                    b'e' => { sx::arg(b"-m=#"); masks.push(b'#' as u32) }
                    b'E' => { sx::arg(&[b'-', b'm', b'=', y]); masks.push(y as u32) }
                    b'j' => { sx::arg(b"-m#"); masks.push(b'#' as u32) }
                    b'J' => { sx::arg(&[b'-', b'm', y]); masks.push(y as u32) }
                    b'2' => { sx::arg(b"-m"); sx::arg(b"#"); sx::arg(&[y]); masks.push(b'#' as u32); masks.push(y as u32) }
                    b'3' => { sx::arg(b"-m"); sx::arg(b"#"); sx::arg(b"*"); sx::arg(&[y]); masks.push(b'#' as u32); masks.push(b'*' as u32); masks.push(y as u32) }
                    b'c' => { sx::arg(b"--colour"); sx::arg(b"always"); colour = true }
                    b's' => { sx::arg(b"--no-sort"); sort = false }
                    _ => { sx::arg(long(op).as_bytes()); sx::arg(&t) }
                }
                i += 1;
            }
            let r = sx::run();
            judge(op, &t, &Opts { colour, sort, masks: &masks }, &r)
        }
        // ---- values of f1 + 256 * f2 bytes in both of two blocks
        3109 => {
            let n = f(p, 1) | f(p, 2) << 8;
            let mk = |t: u8, k: u32| { let mut v = background(n, k); v[n / 2] = sx::sym(); v };
            let (u, v) = (mk(0xC1, 3), mk(0xC2, 4));
            if f(p, 0) & 1 == 0 { let (a, b) = (block1(&[0xC1], &u), block1(&[0xC2], &v)); parts(Op::Ber, &hex(&a), &hex(&b), &hex(&cat(&a, &b)), &if f(p, 0) & 2 == 0 { UNSORTED } else { Opts { colour: true, sort: false, masks: &PLAIN.masks } }) } else {
                let (mut a, mut b) = (vec![], vec![]);
                ing(&mut a, &[0xC1], &u); ing(&mut b, &[0xC2], &v);
                let mut w = a.clone(); w.push(b';'); w.extend_from_slice(&b);
                parts(Op::Ingenico, &a, &b, &w, &UNSORTED)
            }
        }
        // ---- short values (f1 bytes) nested f0 deep
        2905 => {
            let v = background(f(p, 1), 9); let mut v = v; let n = v.len(); if n > 0 { v[n - 1] = sx::sym(); } if n > 1 { v[0] = 0x41; }
            let mut b = block1(&[0xC1], &v);
            for i in 0..f(p, 0) { let mut o = vec![]; tlv(&mut o, &[0xE1 + (i % 8) as u8], &b, 0); b = o; }
            exact_hex(Op::Ber, &b, if f(p, 2) == 0 { &PLAIN } else { &COLOUR })
        }
        // ---- amounts f0, f1 (index) with the low byte of one symbolic
        2109 => {
            let a = |k: usize| if k == 0 { 0 } else if k < 20 { 10u32.pow(k as u32 / 2) - (k as u32 & 1) } else { [0xFFFF_FFFF, 16_777_216, 33_554_433, 2_147_483_648][k - 20] };
            let mut v = a(f(p, 0)).to_be_bytes().to_vec(); v.extend_from_slice(&a(f(p, 1)).to_be_bytes());
            v[if f(p, 2) & 1 == 0 { 3 } else { 7 }] = sx::sym();
            v.push(0x42); v.push(if f(p, 2) & 2 == 0 { 3 } else { 6 });
            exact_hex(Op::CvmList, &v, &PLAIN)
        }
        // ---- rich blocks (f0) on terminals (f1) with colour f2, in any environment (f3)
        3702 | 3410 => {
            let b = rich(f(p, 0) & 15, sx::sym());
            let op = [Op::Ber, Op::Auto][f(p, 0) >> 4 & 1];
            let d = hex(&b);
            let sort = f(p, 0) >> 5 & 1 == 0;
            sx::begin();
            terminals(f(p, 1));
            let auto = match f(p, 3) { 0 => { sx::env("TERM", b"xterm"); true } 1 => false, 2 => { sx::env("TERM", b"xterm"); sx::env("COLUMNS", b"20"); sx::env("LINES", b"5"); sx::env("PAGER", b"cat"); true } _ => { sx::env("*", [&b"1"[..], b"20", b"C.UTF-8", b""][f(p, 3) & 3]); false } };
            let colour = match f(p, 2) { 0 => auto && f(p, 1) & 2 != 0, 1 => { sx::arg(b"--colour=always"); true } 2 => { sx::arg(b"--colour=never"); false } 3 => { sx::arg(b"--colour=ansi"); true } _ => { sx::env("PEMV_CLI_COLOUR", b"always"); true } };
            if !sort { sx::arg(b"--no-sort"); }
            sx::arg(long(op).as_bytes()); sx::arg(&d);
            let r = sx::run();
            judge(op, &d, &Opts { colour, sort, masks: &PLAIN.masks }, &r)
        }
        // ---- asking for help (f0 < 3) or the version: f1 = alone, before or behind option f2 and a setting (f3), whatever the data
        3801 => {
            const ASK: [&[u8]; 5] = [b"--help", b"-h", b"-?", b"--version", b"-V"];
            let ask = ASK[f(p, 0)];
            let op = OPS[f(p, 2)];
            let (names, d) = { let (_, n) = NAMES_OF.iter().find(|n| n.0 == op).unwrap(); let v = names().iter().find(|x| x.0 == n[0]).unwrap().1; (n[f(p, 3) % n.len()], v) };
            let mut v = d.to_vec(); let n = v.len(); let c = ascii(); sx::assume(c > 0x20 && c < 0x7F); v[n - 1] = c;
            let set: &[&[u8]] = match f(p, 3) / 5 { 0 => &[], 1 => &[b"--colour=always"], 2 => if f(p, 2) >= 7 && f(p, 2) <= 9 { &[b"-m", b"#"] } else { &[b"--colour", b"never"] }, _ => if f(p, 2) >= 7 && f(p, 2) <= 9 { &[b"--no-sort"] } else { &[b"--colour=ansi"] } };
            sx::begin();
            sx::arg(ask);
            let alone = sx::run();
            sane(&alone);
            sx::check(alone.err.is_empty(), "help and the version are no errors");
            if f(p, 0) < 3 {
                for n in [&b"--help"[..], b"-h", b"--version", b"-V", b"--colour", b"--masking-character", b"-m", b"--sort-parsed-tags", b"--no-sort-parsed-tags", b"--identify", b"--auto-tlv", b"-a", b"--ber-tlv", b"-b", b"--ingenico-tlv", b"-i", b"--tvr", b"-t", b"--ccd-iad", b"--ccd-cvr", b"--tsi", b"--cvm-results", b"-r", b"--cvm-list", b"--service-code"] { sx::check(find(&alone.out, n).is_some(), "an option is missing from the help"); }
            } else { sx::check(alone.out.len() > 9 && &alone.out[..9] == b"ParseEMV " && find(&alone.out, b"\n") == Some(alone.out.len() - 1), "the version is not one line"); }
            if f(p, 1) == 0 { return; }
            sx::begin();
            if f(p, 1) == 1 { sx::arg(ask); }
            if f(p, 1) == 3 { for a in set { sx::arg(a); } sx::arg(ask); sx::arg(names.as_bytes()); sx::arg(&v); } else {
                sx::arg(names.as_bytes()); sx::arg(&v); for a in set { sx::arg(a); }
            }
            if f(p, 1) == 2 { sx::arg(ask); }
            let r = sx::run();
            same(&alone, &r, "the answer to a question for help or the version depends on the rest of the command line");
        }
        // nothing at all
        3802 => { sx::begin(); if f(p, 0) == 1 { sx::env("PEMV_CLI_COLOUR", b"never"); } if f(p, 0) == 2 { sx::env("*", b"1"); } let r = sx::run(); if r.code == 1002 { sx::check(false, "the tool does not terminate"); } sx::check(r.code != 1001 && r.code != 0, "without arguments the tool crashes or succeeds"); sx::eq(&r.out, b"", "a report without data"); sx::check(find(&r.err, b"--ber-tlv").is_some(), "without arguments the tool does not explain itself"); }
        _ => sx::check(false, "no such case"),
    }
}
