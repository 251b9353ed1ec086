mod env; mod exec; mod explore; mod expr; mod fx; mod ir; mod mem; mod z3;
use std::io::{Read, Write};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
use std::os::fd::FromRawFd;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn load(p: &str) -> &'static str { let mut s = String::new(); std::fs::File::open(p).unwrap_or_else(|e| { eprintln!("{}: {}", p, e); std::process::exit(70) }).read_to_string(&mut s).unwrap(); Box::leak(s.into_boxed_str()) }

fn job(eng: &mut exec::Eng, case: u32, param: u32, limit_s: u64, samples: usize, seed: u64, trace: bool) -> String {
    let t = std::time::Instant::now();
    eng.case = (case, param);
    eng.trace = trace;
    eng.deadline = Some(t + std::time::Duration::from_secs(limit_s));
    let st = eng.initial();
    let r = eng.explore(st);
    let mut status = match &r { Ok(()) => if eng.violations.is_empty() { "ok" } else { "violation" }, Err(_) => "inconclusive" };
    let mut msg = r.err().unwrap_or_default();
    if !eng.violations.is_empty() { status = "violation"; }
    let mut cov = String::from("skipped");
    if status == "ok" {
        match eng.coverage() { Ok(true) => cov = "complete".into(), Ok(false) => { status = "inconclusive"; msg = "explored paths do not cover the input space".into(); } Err(m) => { status = "inconclusive"; msg = m; } }
    }
    if trace { let mut v: Vec<_> = eng.forksites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for ((m, f, b), n) in v.iter().take(25) { eprintln!("fork {} m{} {} block {}", n, m, f, b); } }
    let s = eng.stats.clone();
    let mut o = format!("{{\"case\":{},\"param\":{},\"status\":\"{}\",\"msg\":\"{}\",\"coverage\":\"{}\",\"wall\":{:.3},\"vars\":{},", case, param, status, esc(&msg), cov, t.elapsed().as_secs_f64(), eng.ex.nvars);
    o += &format!("\"instrs\":{},\"forks\":{},\"merges\":{},\"merge_fail\":{},\"escapes\":{},\"paths\":{},\"excluded\":{},\"z3\":{},\"z3_s\":{:.3},\"doms\":{},\"asserts\":{},\"assert_sym\":{},\"crash\":{},\"max_depth\":{},\"runs\":{},\"nodes\":{},", s.instrs, s.forks, s.merges, s.merge_fail, s.escapes, s.paths, s.excluded, s.z3, s.z3_ns as f64 / 1e9, s.doms, s.asserts, s.assert_sym, s.crash, s.max_depth, s.runs, eng.ex.nodes.len());
    let nv = eng.ex.nvars as usize;
    let fix = |m: &Vec<u8>| { let mut m = m.clone(); m.resize(nv, 0); hex(&m) };
    o += "\"violations\":["; for (i, v) in eng.violations.iter().take(40).enumerate() { if i > 0 { o.push(','); } o += &format!("{{\"model\":\"{}\",\"msg\":\"{}\"}}", fix(&v.model), esc(&v.msg)); } o += "],";
    let live: Vec<&exec::PathRec> = eng.paths.iter().filter(|p| !p.excluded).collect();
    o += "\"samples\":["; let n = live.len(); let k = samples.min(n);
    for i in 0..k { let j = ((seed as usize).wrapping_mul(7919) + i * n / k.max(1)) % n; if i > 0 { o.push(','); } o += &format!("\"{}\"", fix(&live[j].model)); } o += "],";
    o += "\"notes\":["; for (i, v) in eng.notes.iter().enumerate() { if i > 0 { o.push(','); } o += &format!("\"{}\"", esc(v)); } o += "],";
    let mut fs: Vec<String> = eng.used.iter().filter(|u| u.0 == 0).map(|u| eng.mods[0].fdefs[u.1 as usize].0.to_string()).collect(); fs.sort();
    o += "\"functions\":["; for (i, v) in fs.iter().enumerate() { if i > 0 { o.push(','); } o += &format!("\"{}\"", esc(v)); } o += "]}";
    o
}

fn main() {
    let th = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    th.join().unwrap();
}

fn real_main() {
    let mut args = std::env::args().skip(1);
    let (mut imp, mut har, mut jobs, mut par, mut limit, mut samples, mut seed, mut trace, mut warm, mut mem) = (String::new(), String::new(), String::new(), 8usize, 600u64, 3usize, 1u64, false, 0u32, 6u64);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() { "--impl" => imp = v(), "--harness" => har = v(), "--jobs" => jobs = v(), "--par" => par = v().parse().unwrap(), "--limit" => limit = v().parse().unwrap(), "--samples" => samples = v().parse().unwrap(), "--seed" => seed = v().parse().unwrap(), "--mem" => mem = v().parse().unwrap(), "--trace" => trace = true, "--warm" => warm = v().parse().unwrap(), a => { eprintln!("unknown option {}", a); std::process::exit(64) } }
    }
    let t0 = std::time::Instant::now();
    let m0: &'static ir::Module = Box::leak(Box::new(ir::Module::load(0, load(&imp))));
    let m1: &'static ir::Module = Box::leak(Box::new(ir::Module::load(1, load(&har))));
    let mut eng = exec::Eng::new(vec![m0, m1]);
    if trace { eprintln!("loaded in {:?}", t0.elapsed()); }
    // "case:param" separated by commas, or @file
    let list: Vec<(u32, u32)> = { let t = if let Some(f) = jobs.strip_prefix('@') { std::fs::read_to_string(f).unwrap() } else { jobs.clone() }; t.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect() };
    if trace && list.len() == 1 { let r = job(&mut eng, list[0].0, list[0].1, limit, samples, seed, true); println!("{}", r); return; }
    // warm-up: compiles the commonly used functions once, before forking
    if warm > 0 {
        eng.case = (warm, 0);
        let st = eng.initial();
        if let Err(m) = eng.explore(st) { eprintln!("warm-up: {}", m); }
        eng.stats = Default::default(); eng.paths.clear(); eng.violations.clear(); eng.notes.clear(); eng.used.clear();
    }
    let mut running: Vec<(i32, std::fs::File, usize, std::time::Instant)> = vec![];
    let mut next = 0;
    let out = std::io::stdout();
    while next < list.len() || !running.is_empty() {
        while running.len() < par && next < list.len() {
            let mut fds = [0i32; 2];
            unsafe {
                pipe(fds.as_mut_ptr());
                let pid = fork();
                if pid == 0 {
                    close(fds[0]);
                    let lim = [mem << 30, mem << 30];
                    let _ = setrlimit(9, &[(mem << 30) + (5 << 30), (mem << 30) + (5 << 30)]); let _ = lim;
                    let (c, p) = list[next];
                    let r = job(&mut eng, c, p, limit, samples, seed, false);
                    let mut f = std::fs::File::from_raw_fd(fds[1]);
                    let _ = f.write_all(r.as_bytes());
                    let _ = f.flush();
                    _exit(0);
                }
                close(fds[1]);
                running.push((pid, std::fs::File::from_raw_fd(fds[0]), next, std::time::Instant::now()));
            }
            next += 1;
        }
        // wait for any child: read from each in turn using poll
        let i = match poll_any(&running) { Some(i) => i, None => { for r in &running { if r.3.elapsed().as_secs() > limit + 10 { unsafe { kill(r.0, 9); } } } continue; } };
        let (pid, mut f, j, _) = running.swap_remove(i);
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0); }
        if s.is_empty() { s = format!("{{\"case\":{},\"param\":{},\"status\":\"error\",\"msg\":\"job died with status {:#x}\"}}", list[j].0, list[j].1, st); }
        let mut o = out.lock();
        let _ = writeln!(o, "{}", s);
        let _ = o.flush();
    }
}

#[repr(C)] struct PollFd { fd: i32, ev: i16, re: i16 }
extern "C" { fn poll(p: *mut PollFd, n: u64, t: i32) -> i32; }
fn poll_any(r: &[(i32, std::fs::File, usize, std::time::Instant)]) -> Option<usize> {
    use std::os::fd::AsRawFd;
    let mut v: Vec<PollFd> = r.iter().map(|x| PollFd { fd: x.1.as_raw_fd(), ev: 1, re: 0 }).collect();
    unsafe { poll(v.as_mut_ptr(), v.len() as u64, 2000); }
    v.iter().position(|p| p.re != 0)
}
