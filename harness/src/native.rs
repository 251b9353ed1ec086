//! Runs a case natively, on one concrete model and the real executable: replays the
//! solver's counterexamples and validates sampled paths. Also lists the jobs of a check.
mod cases; mod extra; mod jobs; mod kit; mod more; mod spec; mod sx; mod tables;
use std::io::Read;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;

struct Ctx { model: Vec<u8>, at: usize, args: Vec<Vec<u8>>, env: Vec<(Vec<u8>, Vec<u8>)>, files: Vec<(Vec<u8>, Vec<u8>)>, out: Vec<u8>, err: Vec<u8>, log: String, runs: usize }
static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
fn ctx() -> &'static mut Ctx { unsafe { CTX.as_mut().unwrap() } }
unsafe fn sl(p: *const u8, l: usize) -> &'static [u8] { std::slice::from_raw_parts(p, l) }
fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).escape_debug().to_string() }
fn finish(verdict: &str, code: i32) -> ! { print!("{}VERDICT {}\n", ctx().log, verdict); let _ = std::fs::remove_dir_all(scratch()); std::process::exit(code) }
fn scratch() -> std::path::PathBuf { std::env::temp_dir().join(format!("sxh-{}", std::process::id())) }

#[no_mangle] pub extern "C" fn sx_byte() -> u8 { let c = ctx(); let v = c.model.get(c.at).copied().unwrap_or(0); c.at += 1; v }
#[no_mangle] pub extern "C" fn sx_assume(b: bool) { if !b { finish("excluded", 2) } }
#[no_mangle] pub unsafe extern "C" fn sx_arg(p: *const u8, l: usize) { ctx().args.push(sl(p, l).to_vec()) }
#[no_mangle] pub unsafe extern "C" fn sx_env(k: *const u8, kl: usize, v: *const u8, vl: usize) { ctx().env.push((sl(k, kl).to_vec(), sl(v, vl).to_vec())) }
#[no_mangle] pub unsafe extern "C" fn sx_file(p: *const u8, pl: usize, v: *const u8, vl: usize) { ctx().files.push((sl(p, pl).to_vec(), sl(v, vl).to_vec())) }
#[no_mangle] pub extern "C" fn sx_reset() { let c = ctx(); c.args.clear(); c.env.clear(); c.files.clear() }
#[no_mangle] pub extern "C" fn sx_out_len(s: i32) -> usize { if s == 1 { ctx().out.len() } else { ctx().err.len() } }
#[no_mangle] pub unsafe extern "C" fn sx_out_copy(s: i32, p: *mut u8) { let b = if s == 1 { &ctx().out } else { &ctx().err }; std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) }
#[no_mangle] pub unsafe extern "C" fn sx_eq(a: *const u8, al: usize, b: *const u8, bl: usize, m: *const u8, ml: usize) {
    let (a, b) = (sl(a, al), sl(b, bl));
    if a != b { let c = ctx(); c.log += &format!("FOUND    {}\nEXPECTED {}\n", show(a), show(b)); finish(&format!("violation: {}", show(sl(m, ml))), 3) }
}
#[no_mangle] pub unsafe extern "C" fn sx_check(b: bool, m: *const u8, ml: usize) { if !b { finish(&format!("violation: {}", show(sl(m, ml))), 3) } }
#[no_mangle] pub unsafe extern "C" fn sx_note(_p: *const u8, _l: usize) {}
#[no_mangle] pub extern "C" fn sx_run() -> i32 {
    let c = ctx();
    let os = |b: &Vec<u8>| std::ffi::OsString::from_vec(b.clone());
    c.runs += 1;
    let dir = scratch().join(format!("{}", c.runs));
    std::fs::create_dir_all(&dir).unwrap();
    let any = scratch().join(format!("any-{}", c.runs));
    let inp = scratch().join(format!("stdin-{}", c.runs));
    for (p, t) in &c.files { if p == b"<stdin>" { std::fs::write(&inp, t).unwrap(); continue; } if p == b"*" { std::fs::write(&any, t).unwrap(); continue; } let f = dir.join(os(p)); if let Some(d) = f.parent() { std::fs::create_dir_all(d).unwrap(); } std::fs::write(&f, t).unwrap(); }
    let mut cmd = std::process::Command::new(std::env::var_os("SXH_PEMV").expect("SXH_PEMV"));
    cmd.args(c.args[1..].iter().map(os)).env_clear().envs(c.env.iter().map(|(k, v)| (os(k), os(v)))).current_dir(&dir);
    if any.exists() { cmd.env("SXH_ANYFILE", &any); }
    if any.exists() || c.env.iter().any(|e| e.0 == b"*" || e.0 == b"SXH_TTY") { cmd.env("LD_PRELOAD", std::env::var_os("SXH_ANYENV").expect("SXH_ANYENV")); }
    std::os::unix::process::CommandExt::arg0(&mut cmd, os(&c.args[0]));
    cmd.stdin(match std::fs::File::open(&inp) { Ok(f) => f.into(), Err(_) => std::process::Stdio::null() }).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    c.log += &format!("RUN      {}{}{}\n", c.env.iter().map(|(k, v)| format!("{}={} ", show(k), show(v))).collect::<String>(), c.args.iter().map(|a| format!("'{}' ", show(a))).collect::<String>(), c.files.iter().map(|(k, v)| format!("[file {}: {}] ", show(k), show(v))).collect::<String>());
    let mut ch = cmd.spawn().unwrap();
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let pid = ch.id();
    let done = std::sync::Arc::new(std::sync::atomic::AtomicU8::new(0));
    let d2 = done.clone();
    extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
    std::thread::spawn(move || { for _ in 0..400 { std::thread::sleep(std::time::Duration::from_millis(50)); if d2.load(std::sync::atomic::Ordering::SeqCst) == 1 { return; } } if d2.compare_exchange(0, 2, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst).is_ok() { unsafe { kill(pid as i32, 9); } } });
    let t = std::thread::spawn(move || { let mut b = vec![]; let _ = e.read_to_end(&mut b); b });
    let mut b = vec![];
    let _ = o.read_to_end(&mut b);
    c.out = b;
    c.err = t.join().unwrap();
    let st = ch.wait().unwrap();
    let timed_out = done.swap(1, std::sync::atomic::Ordering::SeqCst) == 2;
    let wrote = touched(&dir, &dir, &c.files);
    let code = if timed_out { 1002 } else if wrote { 1003 } else if st.signal().is_some() || st.code() == Some(101) { 1001 } else { st.code().unwrap_or(1001) };
    c.log += &format!("EXIT     {}\nSTDOUT   {}\nSTDERR   {}\n", if timed_out { "killed after 20 s".to_string() } else if wrote { format!("{}, and it changed files", st) } else { st.to_string() }, show(&c.out), show(&c.err));
    code
}

/// Whether anything but the files given exists below the scratch directory, or one of them changed.
fn touched(top: &std::path::Path, d: &std::path::Path, files: &[(Vec<u8>, Vec<u8>)]) -> bool {
    let Ok(l) = std::fs::read_dir(d) else { return false };
    for e in l.flatten() {
        let p = e.path();
        if p.is_dir() { if !files.iter().any(|(k, _)| top.join(std::ffi::OsString::from_vec(k.clone())).starts_with(&p)) || touched(top, &p, files) { return true; } continue; }
        match files.iter().find(|(k, _)| top.join(std::ffi::OsString::from_vec(k.clone())) == p) { Some((_, t)) if std::fs::read(&p).ok().as_ref() == Some(t) => {} _ => return true }
    }
    false
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // sxh-native jobs P01 quick|thorough
        Some("jobs") => {
            let n: u32 = a[2].trim_start_matches('P').parse().unwrap();
            let (j, b) = jobs::jobs(n, a[3] == "thorough");
            for l in b.lines() { println!("# {}", l.trim()); }
            for (c, p) in j { println!("{}:{}", c, p); }
        }
        // sxh-native replay CASE:PARAM HEXMODEL
        Some("replay") => {
            let (c, p) = a[2].split_once(':').unwrap();
            let m = a.get(3).cloned().unwrap_or_default();
            let model = (0..m.len() / 2).map(|i| u8::from_str_radix(&m[2 * i..2 * i + 2], 16).unwrap()).collect();
            unsafe { CTX = Some(Ctx { model, at: 0, args: vec![], env: vec![], files: vec![], out: vec![], err: vec![], log: String::new(), runs: 0 }); }
            let (c, p) = (c.parse().unwrap(), p.parse().unwrap());
            std::thread::Builder::new().stack_size(1 << 29).spawn(move || cases::entry(c, p)).unwrap().join().unwrap_or_else(|_| finish("error: the case itself panicked", 4));
            finish("ok", 0)
        }
        _ => { eprintln!("usage: sxh-native jobs PROPERTY TIER | replay CASE:PARAM HEXMODEL"); std::process::exit(64) }
    }
}
