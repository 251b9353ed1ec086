//! The modelled operating system: argv, environment, a few files, stdout/stderr, libc.
use crate::explore::outv;
use crate::exec::*;
use crate::expr::*;
use crate::ir::{CallI, Func, Pred, Ty};
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Env {
    pub args: Vec<Vec<u32>>,
    pub vars: Vec<(Vec<u32>, Vec<u32>)>,
    pub files: Vec<(Vec<u8>, Vec<u32>)>,
    pub out: [Vec<u32>; 2],
    pub fds: Vec<Option<(usize, usize)>>, // file index, position (fd - 3)
    pub inp: usize, // position in standard input
    pub errno: u64,
    pub argv_vars: Vec<u64>,
    pub heap_mark: u32,
    pub environ: u64,
    pub crash: String,
    pub nsym: u16,
    pub outs: Vec<(Vec<u32>, Vec<u32>)>,
    pub notes: Vec<Vec<u8>>,
    pub attrs: Vec<u8>,
}

const ENOENT: i64 = 2;
/// The variables the documentation gives a meaning.
const SETTINGS: [&[u8]; 5] = [b"PEMV_CONFIG", b"PEMV_PROFILE", b"PEMV_CLI_COLOUR", b"PEMV_MASKING_CHARACTERS", b"PEMV_SORT_PARSED_TAGS"];

impl Eng {
    pub fn classify(&mut self, f: &'static Func) {
        let n = &*f.name;
        let k = if n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") || n.contains("3std9panicking11begin_panic") { 1 }
            else if n.ends_with("6memchr14memchr_aligned") { 2 }
            else if n.ends_with("6memchr15memrchr_aligned") { 3 }
            else if n.contains("memchr") && (n.contains("memchr_raw6detect") || n.contains("memchr_raw9find_sse2") || n.contains("memchr_raw9find_avx2")) { 4 }
            // std's hash maps are seeded at random and must work for every hash function: take the constant one
            else if n.contains("6random11RandomState") && n.contains("11BuildHasher8hash_one") { 5 }
            else { 0 };
        f.icpt.set(k);
    }
    /// Some(false): handled, continue after the call; Some(true): control already moved.
    pub fn intercept(&mut self, st: &mut State, f: &'static Func, args: &[V], c: &'static CallI) -> R<Option<bool>> {
        let k = f.icpt.get();
        if k == 0 { return Ok(None); }
        match k {
            1 => {
                if st.run_steps > 0 { let w = format!("panic via {}", short(&f.name)); self.finish_run(st, 1001, &w); return Ok(Some(true)); }
                Err(X::Err(format!("harness panic: {}", short(&f.name))))
            }
            5 => { if let Some(d) = c.d { st.cur.regs[d as usize] = V::C(0); } Ok(Some(false)) }
            2 | 3 => {
                let (x, p, n) = if args.len() == 3 { (args[0].clone(), self.conc(st, &args[1])?, self.conc(st, &args[2])?) } else if args.len() == 2 && self.needle_newline(f) { (V::C(10), self.conc(st, &args[0])?, self.conc(st, &args[1])?) } else { return Ok(None); };
                let mut found = None;
                for i in 0..n {
                    let i = if k == 2 { i } else { n - 1 - i };
                    let b = self.byte(st, p + i)?;
                    let q = self.icmp(Pred::Eq, 8, &b, &x)?;
                    if self.truth_of(st, &q)? { found = Some(i); break; }
                }
                let r = match found { Some(i) => vec![V::C(1), V::C(i)], None => vec![V::C(0), V::C(0)] };
                if let Some(d) = c.d { st.cur.regs[d as usize] = V::A(Rc::new(r)); }
                Ok(Some(false))
            }
            _ => {
                if args.len() != 3 { return Ok(None); }
                let (p, e) = (self.conc(st, &args[1])?, self.conc(st, &args[2])?);
                let mut found = None;
                let mut a = p;
                while a < e { let b = self.byte(st, a)?; let q = self.icmp(Pred::Eq, 8, &b, &args[0])?; if self.truth_of(st, &q)? { found = Some(a); break; } a += 1; }
                let r = match found { Some(i) => vec![V::C(1), V::C(i)], None => vec![V::C(0), V::C(0)] };
                if let Some(d) = c.d { st.cur.regs[d as usize] = V::A(Rc::new(r)); }
                Ok(Some(false))
            }
        }
    }
    fn needle_newline(&self, f: &Func) -> bool {
        let m = self.mods[f.module];
        let (_, s, e) = m.fdefs[m.fmap[&*f.name] as usize];
        m.text[s..e].contains("723401728380766730")
    }
    fn file_of(&self, st: &State, path: &[u8]) -> Option<usize> {
        let p = Self::norm(path);
        if let Some(i) = st.env.files.iter().position(|f| Self::norm(&f.0) == p) { return Some(i); }
        // a file called * stands for every file that does not exist and is not a configuration file
        if p.ends_with(b"/pemv.toml") || self.is_dir(st, &p) || [&b"/proc/"[..], b"/sys/", b"/dev/"].iter().any(|d| p.starts_with(d)) { return None; }
        st.env.files.iter().position(|f| f.0 == b"*")
    }
    fn norm(p: &[u8]) -> Vec<u8> {
        let mut s: Vec<u8> = if p.first() == Some(&b'/') { vec![] } else { b"/w/".to_vec() };
        s.extend_from_slice(p);
        let mut parts: Vec<&[u8]> = vec![];
        for c in s.split(|c| *c == b'/') { match c { b"" | b"." => {} b".." => { parts.pop(); } c => parts.push(c) } }
        let mut o = vec![];
        for c in parts { o.push(b'/'); o.extend_from_slice(c); }
        if o.is_empty() { o.push(b'/'); }
        o
    }
    fn is_dir(&self, st: &State, p: &[u8]) -> bool {
        let p = Self::norm(p);
        p == b"/" || p == b"/w" || st.env.files.iter().any(|f| { let n = Self::norm(&f.0); n.len() > p.len() && n.starts_with(&p) && n[p.len()] == b'/' })
    }
    fn err(&mut self, st: &mut State, e: i64) -> V {
        let a = self.errno_addr(st);
        let _ = self.store_n(st, a, 4, &V::C(e as u64));
        V::C(u64::MAX)
    }
    fn errno_addr(&mut self, st: &mut State) -> u64 {
        if st.env.errno == 0 { let a = st.mem.alloc(Obj::new(8)); Rc::make_mut(&mut st.env).errno = a; }
        st.env.errno
    }
    fn stat_fill(&mut self, st: &mut State, what: Option<usize>, p: u64, x: bool) -> R<()> {
        // what: Some(file) or None for a directory
        let size = match what { Some(i) => st.env.files[i].1.len() as u64, None => 4096 };
        let mode = if what.is_some() { 0o100644 } else { 0o40755 };
        if x {
            self.fill(st, p, &V::C(0), 256)?;
            self.store_n(st, p, 4, &V::C(0x7ff))?;
            self.store_n(st, p + 4, 4, &V::C(4096))?;
            self.store_n(st, p + 16, 4, &V::C(1))?;
            self.store_n(st, p + 28, 2, &V::C(mode))?;
            self.store_n(st, p + 40, 8, &V::C(size))?;
        } else {
            self.fill(st, p, &V::C(0), 144)?;
            self.store_n(st, p + 24, 4, &V::C(mode))?;
            self.store_n(st, p + 48, 8, &V::C(size))?;
            self.store_n(st, p + 56, 8, &V::C(4096))?;
        }
        Ok(())
    }
    pub fn external(&mut self, st: &mut State, name: &str, args: Vec<V>, c: &'static CallI) -> R<bool> {
        macro_rules! n { ($i:expr) => {{ let v = args[$i].clone(); self.conc(st, &v)? }} }
        let w = c.ret.bits();
        let ret: V = if let Some(rest) = name.strip_prefix("llvm.") {
            let base = rest;
            if base.starts_with("lifetime") {
                let a = n!(args.len() - 1);
                if base.starts_with("lifetime.start") {
                    // find the alloca's extent
                    let off = a as u32;
                    if (a >> 32) == SBASE as u64 + st.stack.len() as u64 { if let Some((_, sz)) = st.cur.f.allocas.iter().find(|x| x.0 == off) { let sz = *sz as u64; self.fill(st, a, &V::C(0), sz)?; } }
                }
                V::C(0)
            }
            else if base.starts_with("memcpy") || base.starts_with("memmove") { let (d, s, k) = (n!(0), n!(1), n!(2)); self.copy(st, d, s, k)?; V::C(0) }
            else if base.starts_with("memset") { let (d, k) = (n!(0), n!(2)); let v = args[1].clone(); self.fill(st, d, &v, k)?; V::C(0) }
            else if base.starts_with("assume") || base.starts_with("experimental") || base.starts_with("dbg") || base.starts_with("x86.sse2.pause") || base.starts_with("prefetch") { V::C(0) }
            else if base.starts_with("expect") { args[0].clone() }
            else if base.starts_with("threadlocal.address") { args[0].clone() }
            else if base.starts_with("load.relative") { let (p, o) = (n!(0), n!(1)); let v = self.load_n(st, p.wrapping_add(o), 4)?; let k = self.conc(st, &v)?; V::C(p.wrapping_add(sx(k, 32) as u64)) }
            else if base.starts_with("trap") || base.starts_with("ubsantrap") { if st.run_steps > 0 { self.finish_run(st, 1001, "trap"); return Ok(false); } return Err(X::Err("trap".into())); }
            else if base.starts_with("is.constant") { V::C(0) }
            else { self.arith(st, base, &args, w, &c.argty)? }
        } else {
            match name {
                // harness interface
                n if n.starts_with("sx_") => return self.harness(st, n, args, c),
                "malloc" => { let k = n!(0); if k > 1 << 31 { V::C(0) } else { V::C(st.mem.alloc(Obj::new(k as usize))) } }
                "calloc" => { let k = n!(0).wrapping_mul(n!(1)); if k > 1 << 31 { V::C(0) } else { V::C(st.mem.alloc(Obj::new(k as usize))) } }
                "posix_memalign" => { let (p, k) = (n!(0), n!(2)); let a = st.mem.alloc(Obj::new(k as usize)); self.store_n(st, p, 8, &V::C(a))?; V::C(0) }
                "realloc" => {
                    let (p, k) = (n!(0), n!(1));
                    if k > 1 << 31 { V::C(0) } else {
                        let a = st.mem.alloc(Obj::new(k as usize));
                        if p != 0 {
                            let (id, _) = self.resolve(st, p, 0)?;
                            let old = st.mem.get(id).unwrap().bytes.len() as u64;
                            self.copy(st, a, p, old.min(k))?;
                            st.mem.free((p >> 32) as u32);
                        }
                        V::C(a)
                    }
                }
                "free" => { let p = n!(0); if p != 0 { if !st.mem.free((p >> 32) as u32) { return Err(X::Err(format!("free of {:#x}", p))); } } V::C(0) }
                "memcpy" | "memmove" => { let (d, s, k) = (n!(0), n!(1), n!(2)); self.copy(st, d, s, k)?; V::C(d) }
                "memset" => { let (d, k) = (n!(0), n!(2)); let v = self.trunc(args[1].clone(), 8); self.fill(st, d, &v, k)?; V::C(d) }
                "memcmp" | "bcmp" => { let (a, b, k) = (n!(0), n!(1), n!(2)); self.compare(st, a, b, k, name == "bcmp")? }
                "strlen" => {
                    let p = n!(0); let mut i = 0;
                    loop { let b = self.byte(st, p + i)?; let z = self.icmp(Pred::Eq, 8, &b, &V::C(0))?; if self.truth_of(st, &z)? { break; } i += 1; }
                    V::C(i)
                }
                "isatty" => {
                    // nothing is a terminal but the descriptors listed by the harness
                    let fd = n!(0) as u32;
                    let on = st.env.vars.iter().any(|(k, v)| k.iter().copied().eq(b"SXH_TTY".iter().map(|x| *x as u32)) && v.contains(&(fd + 48)));
                    if on { V::C(1) } else { self.err(st, 25); V::C(0) }
                }
                "__errno_location" => V::C(self.errno_addr(st)),
                "getenv" => {
                    let k = { let p = n!(0); self.cstr(st, p)? };
                    let mut found = None;
                    'vars: for i in 0..st.env.vars.len() {
                        if st.env.vars[i].0.len() != k.len() || k == b"*" { continue; }
                        for j in 0..k.len() { let v = outv(st.env.vars[i].0[j]); let z = self.icmp(Pred::Eq, 8, &v, &V::C(k[j] as u64))?; if !self.truth_of(st, &z)? { continue 'vars; } }
                        found = Some(i);
                        break;
                    }
                    // a variable called * stands for every variable that is not set and not a setting
                    if found.is_none() && !SETTINGS.contains(&&k[..]) && !k.starts_with(b"RUST_") { found = st.env.vars.iter().position(|v| v.0.len() == 1 && v.0[0] == b'*' as u32); }
                    match found { Some(i) => V::C(st.env.argv_vars[i] + st.env.vars[i].0.len() as u64 + 1), None => V::C(0) }
                }
                "getcwd" => { let (p, k) = (n!(0), n!(1)); if k < 3 { self.err(st, 34); V::C(0) } else { self.write_bytes(st, p, &[b'/' as u32, b'w' as u32, 0])?; V::C(p) } }
                "stat64" => {
                    let path = { let p = n!(0); self.cstr(st, p)? }; let p = n!(1);
                    match self.file_of(st, &path) { Some(i) => { self.stat_fill(st, Some(i), p, false)?; V::C(0) } None if self.is_dir(st, &path) => { self.stat_fill(st, None, p, false)?; V::C(0) } None => self.err(st, ENOENT) }
                }
                "fstat64" => { let fd = n!(0); let p = n!(1); match fd.checked_sub(3).and_then(|k| st.env.fds.get(k as usize).copied()).flatten() { Some((i, _)) => { self.stat_fill(st, Some(i), p, false)?; V::C(0) } None => self.err(st, 9) } }
                "statx" => self.statx(st, &args)?,
                "realpath" | "readlink" => { self.err(st, ENOENT); if name == "realpath" { V::C(0) } else { V::C(u64::MAX) } }
                "open64" => {
                    let path = { let p = n!(0); self.cstr(st, p)? };
                    if st.run_steps > 0 && path != b"/dev/null" && n!(1) & 0x243 != 0 { self.finish_run(st, 1003, "opens a file for writing"); return Ok(false); }
                    if path == b"/dev/null" { V::C(3) } else {
                    match self.file_of(st, &path) { Some(i) => { let e = Rc::make_mut(&mut st.env); e.fds.push(Some((i, 0))); V::C(e.fds.len() as u64 + 2) } None => self.err(st, ENOENT) } }
                }
                "read" => {
                    let (fd, p, k) = (n!(0), n!(1), n!(2));
                    match fd.checked_sub(3).and_then(|k| st.env.fds.get(k as usize).copied()).flatten() {
                        Some((i, pos)) => {
                            let m = (st.env.files[i].1.len() - pos).min(k as usize);
                            let b = st.env.files[i].1[pos..pos + m].to_vec();
                            self.write_bytes(st, p, &b)?;
                            Rc::make_mut(&mut st.env).fds[fd as usize - 3] = Some((i, pos + m));
                            V::C(m as u64)
                        }
                        None if fd == 0 => match st.env.files.iter().position(|f| f.0 == b"<stdin>") {
                            Some(i) => {
                                let pos = st.env.inp;
                                let m = (st.env.files[i].1.len() - pos).min(k as usize);
                                let b = st.env.files[i].1[pos..pos + m].to_vec();
                                self.write_bytes(st, p, &b)?;
                                Rc::make_mut(&mut st.env).inp = pos + m;
                                V::C(m as u64)
                            }
                            None => V::C(0),
                        },
                        None => self.err(st, 9),
                    }
                }
                "lseek64" => { let (fd, off, wh) = (n!(0), n!(1), n!(2)); match fd.checked_sub(3).and_then(|k| st.env.fds.get(k as usize).copied()).flatten() { Some((i, pos)) => { let np = match wh { 0 => off as i64, 1 => pos as i64 + off as i64, _ => st.env.files[i].1.len() as i64 + off as i64 }; Rc::make_mut(&mut st.env).fds[fd as usize - 3] = Some((i, np as usize)); V::C(np as u64) } None => self.err(st, 9) } }
                "close" => { let fd = n!(0); if fd >= 3 { if let Some(s) = Rc::make_mut(&mut st.env).fds.get_mut(fd as usize - 3) { *s = None; } } V::C(0) }
                "write" => {
                    let (fd, p, k) = (n!(0), n!(1), n!(2));
                    if fd == 1 || fd == 2 { let b = self.bytes_at(st, p, k)?; Rc::make_mut(&mut st.env).out[fd as usize - 1].extend_from_slice(&b); V::C(k) } else { self.err(st, 9) }
                }
                "getrandom" => { let (p, k) = (n!(0), n!(1)); self.fill(st, p, &V::C(0), k)?; V::C(k) }
                "syscall" => {
                    match n!(0) { 318 => { let (p, k) = (n!(1), n!(2)); self.fill(st, p, &V::C(0), k)?; V::C(k) } 186 => V::C(1), 202 => V::C(0), 332 => self.statx(st, &args[1..].to_vec())?, k => return Err(X::Err(format!("syscall {}", k))) }
                }
                "gettid" => V::C(1),
                "abort" => { if st.run_steps > 0 { self.finish_run(st, 1001, "abort"); return Ok(false); } return Err(X::Err("harness abort".into())); }
                "exit" | "_exit" => { let k = n!(0); if st.run_steps > 0 { self.finish_run(st, k & 0xff, ""); return Ok(false); } return Err(X::Err("harness exit".into())); }
                "mkdir" | "rmdir" | "unlink" | "rename" | "symlink" | "link" | "truncate64" | "chmod" | "chown" | "mkdirat" | "unlinkat" | "renameat" if st.run_steps > 0 => { self.finish_run(st, 1003, "changes the file system"); return Ok(false); }
                "poll" => V::C(0),
                "fcntl" | "sigaction" | "signal" | "sigaltstack" | "mprotect" | "munmap" | "pthread_attr_destroy" | "dup" | "pause" => V::C(0),
                "sysconf" => V::C(4096),
                "getauxval" => V::C(0),
                "pthread_self" => V::C(1),
                "pthread_getattr_np" => { let p = n!(1); let _ = self.fill(st, p, &V::C(0), 56); V::C(0) }
                "pthread_attr_getstack" => { let (a, b) = (n!(1), n!(2)); self.store_n(st, a, 8, &V::C(0x7f00_0000_0000))?; self.store_n(st, b, 8, &V::C(8 << 20))?; V::C(0) }
                "mmap64" | "mmap" => { let k = n!(1); V::C(st.mem.alloc(Obj::new(k as usize))) }
                "__xpg_strerror_r" => {
                    let (e, p, k) = (n!(0), n!(1), n!(2));
                    let s: &[u8] = match e { 2 => b"No such file or directory\0", 9 => b"Bad file descriptor\0", 25 => b"Inappropriate ioctl for device\0", _ => b"Unknown error\0" };
                    let b: Vec<u32> = s.iter().take(k as usize).map(|x| *x as u32).collect();
                    self.write_bytes(st, p, &b)?; V::C(0)
                }
                "dl_iterate_phdr" | "_Unwind_Backtrace" => V::C(0),
                "pthread_key_create" | "pthread_setspecific" => V::C(0),
                n => return Err(X::Err(format!("external function {}", n))),
            }
        };
        if let Some(d) = c.d { let r = if w > 0 && w <= 64 { self.trunc(ret, w) } else { ret }; st.cur.regs[d as usize] = r; }
        st.cur.pc += 1;
        Ok(false)
    }
    fn statx(&mut self, st: &mut State, args: &[V]) -> R<V> {
        // statx(dirfd, path, flags, mask, buf)
        let p = self.conc(st, &args[1])?; let buf = self.conc(st, &args[4])?;
        if p == 0 || buf == 0 { return Ok(self.err(st, 14)); }
        let path = self.cstr(st, p)?;
        let fd = self.conc(st, &args[0])? as u32;
        if path.is_empty() {
            return match (fd as u64).checked_sub(3).and_then(|k| st.env.fds.get(k as usize).copied()).flatten() { Some((i, _)) => { self.stat_fill(st, Some(i), buf, true)?; Ok(V::C(0)) } None => Ok(self.err(st, 9)) };
        }
        match self.file_of(st, &path) { Some(i) => { self.stat_fill(st, Some(i), buf, true)?; Ok(V::C(0)) } None if self.is_dir(st, &path) => { self.stat_fill(st, None, buf, true)?; Ok(V::C(0)) } None => Ok(self.err(st, ENOENT)) }
    }
    fn compare(&mut self, st: &mut State, a: u64, b: u64, k: u64, eq_only: bool) -> R<V> {
        if k == 0 { return Ok(V::C(0)); }
        let (x, y) = (self.bytes_at(st, a, k)?, self.bytes_at(st, b, k)?);
        let mut pairs = vec![];
        for (p, q) in x.iter().zip(&y) {
            if p == q { continue; }
            if p >> 31 == 0 && q >> 31 == 0 { pairs.push((*p, *q)); break; }
            pairs.push((*p, *q));
        }
        if pairs.is_empty() { return Ok(V::C(0)); }
        let (p, q) = pairs[0];
        if p >> 31 == 0 && q >> 31 == 0 { return Ok(V::C(if p < q { 0xffff_ffff } else { 1 })); }
        if eq_only && pairs.iter().any(|(p, q)| p >> 31 == 0 && q >> 31 == 0) { return Ok(V::C(1)); }
        let ex = |s: &mut Self, v: u32| if v >> 31 == 1 { v & 0x7fff_ffff } else { s.ex.konst(v as u64, 8) };
        if eq_only {
            let mut r = self.ex.konst(1, 1);
            for (p, q) in pairs { let (p, q) = (ex(self, p), ex(self, q)); let e = self.ex.mk(Op::Eq, p, q, 0, 1); r = self.ex.mk(Op::And, r, e, 0, 1); }
            let n = self.ex.not(r);
            let z = self.ex.mk(Op::Zext, n, 0, 0, 32);
            return Ok(self.wrap(z));
        }
        let mut r = self.ex.konst(0, 32);
        for (p, q) in pairs.into_iter().rev() {
            let (p, q) = (ex(self, p), ex(self, q));
            let e = self.ex.mk(Op::Eq, p, q, 0, 1); let l = self.ex.mk(Op::Ult, p, q, 0, 1);
            let m = self.ex.konst(0xffff_ffff, 32); let o = self.ex.konst(1, 32);
            let d = self.ex.mk(Op::Ite, l, m, o, 32);
            r = self.ex.mk(Op::Ite, e, r, d, 32);
        }
        Ok(self.wrap(r))
    }
    fn arith(&mut self, st: &mut State, base: &str, a: &[V], w: u32, ty: &[Ty]) -> R<V> {
        let aw = ty[0].bits();
        let allc = a.iter().all(|v| matches!(v, V::C(_)));
        let cn = |i: usize| if let V::C(k) = &a[i] { *k } else { 0 };
        let head = base.split('.').next().unwrap();
        let over = base.contains("with.overflow");
        if aw > 64 {
            if head == "abs" { if let V::W(k) = &a[0] { return Ok(V::W(Rc::new((**k as i128).unsigned_abs()))); } }
            return Err(X::Err(format!("intrinsic {}", base)));
        }
        if matches!(ty[0], Ty::Vec(..)) { return Err(X::Err(format!("vector intrinsic {}", base))); }
        if over {
            let (x, y) = (self.e(&a[0], aw)?, self.e(&a[1], aw)?);
            let op = match head { "uadd" | "sadd" => Op::Add, "usub" | "ssub" => Op::Sub, _ => Op::Mul };
            let r = self.ex.mk(op, x, y, 0, aw);
            let o = if allc {
                let (p, q) = (cn(0), cn(1));
                let m = mask(aw) as u128; let (sp, sq) = (sx(p, aw) as i128, sx(q, aw) as i128);
                let lim = |v: i128| v < -(1i128 << (aw - 1)) || v >= 1i128 << (aw - 1);
                let f = match head { "uadd" => p as u128 + q as u128 > m, "usub" => p < q, "umul" => p as u128 * q as u128 > m, "sadd" => lim(sp + sq), "ssub" => lim(sp - sq), _ => lim(sp * sq) };
                self.ex.konst(f as u64, 1)
            } else {
                match head {
                    "uadd" => self.ex.mk(Op::Ult, r, x, 0, 1),
                    "usub" => self.ex.mk(Op::Ult, x, y, 0, 1),
                    "umul" => {
                        let ww = (aw * 2).min(64);
                        let (ux, uy) = (self.ex.ubound(x), self.ex.ubound(y));
                        if ux.checked_mul(uy).map_or(false, |p| p <= mask(aw)) { self.ex.konst(0, 1) }
                        else if self.ex.cval(x).or(self.ex.cval(y)).map_or(false, |k| k > 0) {
                            let (k, v) = match self.ex.cval(y) { Some(k) => (k, x), None => (self.ex.cval(x).unwrap(), y) };
                            let q = self.ex.konst(mask(aw) / k, aw);
                            self.ex.mk(Op::Ult, q, v, 0, 1)
                        }
                        else if aw <= 32 { let p = self.ex.mk(Op::Zext, x, 0, 0, ww); let q = self.ex.mk(Op::Zext, y, 0, 0, ww); let m = self.ex.mk(Op::Mul, p, q, 0, ww); let h = self.ex.extract(m, aw, ww - aw); let z = self.ex.konst(0, ww - aw); let e = self.ex.mk(Op::Eq, h, z, 0, 1); self.ex.not(e) }
                        else { return Err(X::Err("symbolic 64-bit multiplication overflow".into())); }
                    }
                    "sadd" | "ssub" => {
                        if aw >= 64 { let s1 = self.ex.extract(x, aw - 1, 1); let s2 = self.ex.extract(y, aw - 1, 1); let s3 = self.ex.extract(r, aw - 1, 1); let d = self.ex.mk(Op::Xor, s1, s2, 0, 1); let same = if head == "sadd" { self.ex.not(d) } else { d }; let ch = self.ex.mk(Op::Xor, s1, s3, 0, 1); self.ex.mk(Op::And, same, ch, 0, 1) }
                        else { let p = self.ex.mk(Op::Sext, x, 0, 0, aw + 1); let q = self.ex.mk(Op::Sext, y, 0, 0, aw + 1); let m = self.ex.mk(op, p, q, 0, aw + 1); let h = self.ex.extract(m, aw, 1); let l = self.ex.extract(m, aw - 1, 1); self.ex.mk(Op::Xor, h, l, 0, 1) }
                    }
                    _ => return Err(X::Err(format!("symbolic {}", base))),
                }
            };
            return Ok(V::A(Rc::new(vec![self.wrap(r), self.wrap(o)])));
        }
        if allc {
            let (x, y) = (cn(0), if a.len() > 1 { cn(1) } else { 0 });
            let (s, t) = (sx(x, aw), sx(y, aw));
            let r = match head {
                "umin" => x.min(y), "umax" => x.max(y), "smin" => s.min(t) as u64, "smax" => s.max(t) as u64,
                "abs" => s.unsigned_abs(),
                "uadd" => { let v = x as u128 + y as u128; if v > mask(aw) as u128 { mask(aw) } else { v as u64 } }
                "usub" => x.saturating_sub(y),
                "sadd" | "ssub" => { let v = if head == "sadd" { s as i128 + t as i128 } else { s as i128 - t as i128 }; let (lo, hi) = (-(1i128 << (aw - 1)), (1i128 << (aw - 1)) - 1); v.clamp(lo, hi) as u64 }
                "ctpop" => x.count_ones() as u64,
                "ctlz" => if x == 0 { aw as u64 } else { x.leading_zeros() as u64 - (64 - aw as u64) },
                "cttz" => if x == 0 { aw as u64 } else { x.trailing_zeros() as u64 },
                "bswap" => x.swap_bytes() >> (64 - aw),
                "bitreverse" => x.reverse_bits() >> (64 - aw),
                "fshl" | "fshr" => { let k = (cn(2) % aw as u64) as u32; let v = (x as u128) << aw | y as u128; let r = if head == "fshl" { (v << k) >> aw } else { v >> k }; r as u64 }
                "ucmp" => (x > y) as u64 as i64 as u64 | if x < y { u64::MAX } else { 0 },
                "scmp" => (s > t) as u64 | if s < t { u64::MAX } else { 0 },
                "fabs" => x & !(1u64 << (aw - 1)),
                _ => return Err(X::Err(format!("intrinsic {}", base))),
            };
            return Ok(V::C(r & mask(w)));
        }
        let x = self.e(&a[0], aw)?;
        // one symbolic byte: any unary/binary function is a table
        let r = match head {
            "umin" | "umax" | "smin" | "smax" => {
                let y = self.e(&a[1], aw)?;
                let l = self.ex.mk(if head.starts_with('u') { Op::Ult } else { Op::Slt }, x, y, 0, 1);
                if head.ends_with("min") { self.ex.mk(Op::Ite, l, x, y, w) } else { self.ex.mk(Op::Ite, l, y, x, w) }
            }
            "usub" => { let y = self.e(&a[1], aw)?; let l = self.ex.mk(Op::Ult, x, y, 0, 1); let d = self.ex.mk(Op::Sub, x, y, 0, aw); let z = self.ex.konst(0, aw); self.ex.mk(Op::Ite, l, z, d, aw) }
            "uadd" => { let y = self.e(&a[1], aw)?; let d = self.ex.mk(Op::Add, x, y, 0, aw); let l = self.ex.mk(Op::Ult, d, x, 0, 1); let z = self.ex.konst(mask(aw), aw); self.ex.mk(Op::Ite, l, z, d, aw) }
            "ucmp" | "scmp" => { let y = self.e(&a[1], aw)?; let o = if head == "ucmp" { Op::Ult } else { Op::Slt }; let l = self.ex.mk(o, x, y, 0, 1); let g = self.ex.mk(o, y, x, 0, 1); let m = self.ex.konst(mask(w), w); let one = self.ex.konst(1, w); let z = self.ex.konst(0, w); let i = self.ex.mk(Op::Ite, g, one, z, w); self.ex.mk(Op::Ite, l, m, i, w) }
            "abs" => { let z = self.ex.konst(0, aw); let l = self.ex.mk(Op::Slt, x, z, 0, 1); let n = self.ex.mk(Op::Sub, z, x, 0, aw); self.ex.mk(Op::Ite, l, n, x, aw) }
            "ctpop" => { let mut r = self.ex.konst(0, w); for i in 0..aw { let b = self.ex.extract(x, i, 1); let z = self.ex.mk(Op::Zext, b, 0, 0, w); r = self.ex.mk(Op::Add, r, z, 0, w); } r }
            "ctlz" | "cttz" => { let mut r = self.ex.konst(aw as u64, w); for j in 0..aw { let i = if head == "ctlz" { j } else { aw - 1 - j }; let b = self.ex.extract(x, i, 1); let k = self.ex.konst(if head == "ctlz" { aw - 1 - i } else { i } as u64, w); r = self.ex.mk(Op::Ite, b, k, r, w); } r }
            "bswap" => { let mut r = self.ex.extract(x, 0, 8); for i in 1..aw / 8 { let b = self.ex.extract(x, 8 * i, 8); let nw = self.ex.w(r) + 8; r = self.ex.mk(Op::Concat, r, b, 0, nw); } r }
            "bitreverse" => { let mut r = self.ex.extract(x, 0, 1); for i in 1..aw { let b = self.ex.extract(x, i, 1); let nw = self.ex.w(r) + 1; r = self.ex.mk(Op::Concat, r, b, 0, nw); } r }
            "fshl" | "fshr" => {
                let y = self.e(&a[1], aw)?; let k = { let v = a[2].clone(); (self.conc(st, &v)? % aw as u64) as u32 };
                if head == "fshl" { if k == 0 { x } else { let h = self.ex.extract(x, 0, aw - k); let l = self.ex.extract(y, aw - k, k); self.ex.mk(Op::Concat, h, l, 0, aw) } }
                else if k == 0 { y } else { let h = self.ex.extract(x, 0, k); let l = self.ex.extract(y, k, aw - k); self.ex.mk(Op::Concat, h, l, 0, aw) }
            }
            _ => return Err(X::Err(format!("symbolic intrinsic {}", base))),
        };
        Ok(self.wrap(r))
    }

    // ---------- harness interface ----------
    fn harness(&mut self, st: &mut State, name: &str, args: Vec<V>, c: &'static CallI) -> R<bool> {
        macro_rules! n { ($i:expr) => {{ let v = args[$i].clone(); self.conc(st, &v)? }} }
        let mut ret = V::C(0);
        match name {
            "sx_byte" => { let v = st.env.nsym; if v >= 128 { return Err(X::Err("more than 128 symbolic bytes".into())); } let e = self.ex.var(v); Rc::make_mut(&mut st.env).nsym += 1; self.fix_model_len(st); ret = V::S(e); }
            "sx_assume" => {
                let b = args[0].clone(); let b = self.trunc(b, 1);
                if !self.truth_of(st, &b)? { return Err(X::End(End::Assume)); }
            }
            "sx_arg" => { let (p, k) = (n!(0), n!(1)); let b = self.bytes_at(st, p, k)?; Rc::make_mut(&mut st.env).args.push(b); }
            "sx_env" => { let (p, k, q, l) = (n!(0), n!(1), n!(2), n!(3)); let a = self.bytes_at(st, p, k)?; let b = self.bytes_at(st, q, l)?; Rc::make_mut(&mut st.env).vars.push((a, b)); }
            "sx_file" => { let (p, k, q, l) = (n!(0), n!(1), n!(2), n!(3)); let a = self.bytes_at(st, p, k)?; let b = self.bytes_at(st, q, l)?; Rc::make_mut(&mut st.env).files.push((a.iter().map(|x| *x as u8).collect(), b)); }
            "sx_reset" => { let e = Rc::make_mut(&mut st.env); e.args.clear(); e.vars.clear(); e.files.clear(); }
            "sx_run" => { self.start_run(st, c)?; return Ok(false); }
            "sx_out_len" => { let k = n!(0) as usize; ret = V::C(st.env.out[k - 1].len() as u64); }
            "sx_out_copy" => { let (k, p) = (n!(0) as usize, n!(1)); let b = st.env.out[k - 1].clone(); self.write_bytes(st, p, &b)?; }
            "sx_eq" => {
                let (p, k, q, l, mp, ml) = (n!(0), n!(1), n!(2), n!(3), n!(4), n!(5));
                let (a, b) = (self.bytes_at(st, p, k)?, self.bytes_at(st, q, l)?);
                let msg = self.bytes_at(st, mp, ml)?.iter().map(|x| *x as u8 as char).collect::<String>();
                self.assert_eq_bytes(st, &a, &b, &msg)?;
            }
            "sx_check" => {
                let (mp, ml) = (n!(1), n!(2));
                let msg = self.bytes_at(st, mp, ml)?.iter().map(|x| *x as u8 as char).collect::<String>();
                let b = args[0].clone();
                let e = match self.trunc(b, 1) { V::C(k) => self.ex.konst(k, 1), V::S(e) => e, _ => return Err(X::Err("check".into())) };
                self.assert(st, e, &msg)?;
            }
            "sx_note" => { let (p, k) = (n!(0), n!(1)); let b: Vec<u8> = self.bytes_at(st, p, k)?.iter().map(|x| if x >> 31 == 1 { b'?' } else { *x as u8 }).collect(); Rc::make_mut(&mut st.env).notes.push(b); }
            n => return Err(X::Err(format!("harness function {}", n))),
        }
        if let Some(d) = c.d { st.cur.regs[d as usize] = ret; }
        st.cur.pc += 1;
        Ok(false)
    }
    /// An assertion: a violating model is recorded; the path goes on where the assertion holds.
    pub fn assert(&mut self, st: &mut State, e: Ex, msg: &str) -> R<()> {
        self.stats.asserts += 1;
        if self.ex.cval(e) == Some(1) { return Ok(()); }
        self.stats.assert_sym += 1;
        self.ensure_model(st)?;
        let mut fixed = 0u128;
        let doms = self.tighten(st);
        for v in 0..self.ex.nvars { if dom_count(&doms[v as usize]) == 1 { fixed |= 1 << v; } }
        let e = if fixed != 0 { let m = st.model.clone(); self.ex.subst(e, fixed, &m, &mut Default::default()) } else { e };
        if self.ex.cval(e) == Some(1) { return Ok(()); }
        let n = self.ex.not(e);
        let crash = st.env.crash.clone();
        match self.solve(st, &[n])? {
            None => Ok(()),
            Some(m) => {
                let m = self.minimal(st, n, m);
                self.violations.push(Violation { model: m, msg: format!("{}{}", msg, if crash.is_empty() { String::new() } else { format!(" [{}]", crash) }) });
                match self.solve(st, &[e])? { None => Err(X::End(End::Done)), Some(_) => { self.assume(st, e); Ok(()) } }
            }
        }
    }
    /// Domains narrowed by the constraints that link few values; exact consequences of the path condition.
    fn tighten(&mut self, st: &State) -> Vec<Dom> {
        let mut ds: Vec<Dom> = (0..self.ex.nvars).map(|v| self.dom_of(st, v)).collect();
        for _ in 0..4 {
            let mut ch = false;
            for c in st.cons.iter() {
                let sup = self.ex.nodes[*c as usize].sup;
                let vs: Vec<usize> = (0..ds.len()).filter(|v| sup >> v & 1 == 1).collect();
                let prod = vs.iter().fold(1f64, |a, v| a * dom_count(&ds[*v]) as f64);
                if prod > 1024.0 || prod <= 1.0 { continue; }
                let vals: Vec<Vec<u8>> = vs.iter().map(|v| dom_iter(&ds[*v]).collect()).collect();
                let mut idx = vec![0; vs.len()];
                let mut m = vec![0u8; ds.len()];
                let mut keep = vec![[0u64; 4]; vs.len()];
                'all: loop {
                    for (k, v) in vs.iter().enumerate() { m[*v] = vals[k][idx[k]]; }
                    if self.ex.eval(*c, &m) & 1 == 1 { for (k, v) in vs.iter().enumerate() { keep[k][(m[*v] >> 6) as usize] |= 1 << (m[*v] & 63); } }
                    for k in 0..vs.len() { idx[k] += 1; if idx[k] < vals[k].len() { continue 'all; } idx[k] = 0; }
                    break;
                }
                for (k, v) in vs.iter().enumerate() { if keep[k] != ds[*v] { ds[*v] = keep[k]; ch = true; } }
            }
            if !ch { break; }
        }
        ds
    }
    fn minimal(&mut self, _st: &State, _n: Ex, m: Vec<u8>) -> Vec<u8> { m }
    pub fn assert_eq_bytes(&mut self, st: &mut State, a: &[u32], b: &[u32], msg: &str) -> R<()> {
        if a.len() != b.len() {
            let f = self.ex.konst(0, 1);
            let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return self.assert(st, f, &format!("{} (length {} vs {}, first difference at {})", msg, a.len(), b.len(), i));
        }
        let mut r = self.ex.konst(1, 1);
        let mut k = 0;
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            if x == y { continue; }
            let p = if x >> 31 == 1 { x & 0x7fff_ffff } else { self.ex.konst(*x as u64, 8) };
            let q = if y >> 31 == 1 { y & 0x7fff_ffff } else { self.ex.konst(*y as u64, 8) };
            let e = self.ex.mk(Op::Eq, p, q, 0, 1);
            if self.ex.cval(e) == Some(0) { return self.assert(st, e, &format!("{} (byte {})", msg, i)); }
            if let V::S(s) = self.wrap(e) { if let Some((v, _)) = self.ex.single(s) { let d = self.dom_of(st, v); let t = self.ex.truth(s); if dom_empty(&dom_andn(&d, &t)) { self.stats.doms += 1; continue; } } }
            r = self.ex.mk(Op::And, r, e, 0, 1);
            k += 1;
        }
        let _ = k;
        self.assert(st, r, msg)
    }
    fn start_run(&mut self, st: &mut State, c: &'static CallI) -> R<()> {
        self.stats.runs += 1;
        let env = (*st.env).clone();
        let mark = st.mem.next;
        let mut argv = vec![];
        for a in &env.args { let mut b = a.clone(); b.push(0); argv.push(self.new_obj(st, &b)); }
        argv.push(0);
        let ap = st.mem.alloc(Obj::new(argv.len() * 8));
        for (i, a) in argv.iter().enumerate() { self.store_n(st, ap + 8 * i as u64, 8, &V::C(*a))?; }
        let mut envp = vec![];
        for (k, v) in &env.vars { let mut b: Vec<u32> = k.clone(); b.push(b'=' as u32); b.extend_from_slice(v); b.push(0); envp.push(self.new_obj(st, &b)); }
        let vars = envp.clone();
        envp.push(0);
        let ep = st.mem.alloc(Obj::new(envp.len() * 8));
        for (i, a) in envp.iter().enumerate() { self.store_n(st, ep + 8 * i as u64, 8, &V::C(*a))?; }
        let argc = env.args.len() as u64;
        {
            let e = Rc::make_mut(&mut st.env);
            e.out = [vec![], vec![]]; e.fds.clear(); e.inp = 0; e.argv_vars = vars; e.heap_mark = mark; e.errno = 0; e.crash.clear();
        }
        if let Some(g) = self.mods[0].gmap.get("environ") { let a = self.mods[0].globals[*g as usize].addr; self.store_n(st, a, 8, &V::C(ep))?; }
        st.run_steps = st.steps.max(1);
        st.cur.pc += 1;
        let main = self.func_by_name(0, "main");
        self.used.insert((0, *self.mods[0].fmap.get("main").unwrap()));
        self.push_frame(st, main, vec![V::C(argc), V::C(ap)], c.d.unwrap_or(u32::MAX), true);
        // .init_array entries
        let inits: Vec<u64> = self.mods[0].globals.iter().filter(|g| g.name.ends_with("ARGV_INIT_ARRAY")).map(|g| g.addr).collect();
        for g in inits {
            let f = self.load_n(st, g, 8)?; let f = self.conc(st, &f)?;
            let (m, i) = self.fname(f).ok_or_else(|| X::Err("init".into()))?;
            let fu = self.func(m, i as usize);
            self.push_frame(st, fu, vec![V::C(argc), V::C(ap), V::C(ep)], u32::MAX, false);
        }
        Ok(())
    }
}
