//! The interface between a case and whatever executes it: the symbolic executor
//! (which implements these functions over symbolic values) or the native replayer
//! (which implements them over one concrete model and the real executable).
extern "C" {
    fn sx_byte() -> u8;
    fn sx_assume(c: bool);
    fn sx_arg(p: *const u8, l: usize);
    fn sx_env(k: *const u8, kl: usize, v: *const u8, vl: usize);
    fn sx_file(p: *const u8, pl: usize, c: *const u8, cl: usize);
    fn sx_reset();
    fn sx_run() -> i32;
    fn sx_out_len(s: i32) -> usize;
    fn sx_out_copy(s: i32, p: *mut u8);
    fn sx_eq(a: *const u8, al: usize, b: *const u8, bl: usize, m: *const u8, ml: usize);
    fn sx_check(c: bool, m: *const u8, ml: usize);
    #[allow(dead_code)]
    fn sx_note(p: *const u8, l: usize);
}
pub fn sym() -> u8 { unsafe { sx_byte() } }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
pub fn arg(s: &[u8]) { unsafe { sx_arg(s.as_ptr(), s.len()) } }
pub fn env(k: &str, v: &[u8]) { unsafe { sx_env(k.as_ptr(), k.len(), v.as_ptr(), v.len()) } }
/// A variable whose name may contain symbolic bytes.
pub fn env_named(k: &[u8], v: &[u8]) { unsafe { sx_env(k.as_ptr(), k.len(), v.as_ptr(), v.len()) } }
pub fn file(p: &str, c: &[u8]) { unsafe { sx_file(p.as_ptr(), p.len(), c.as_ptr(), c.len()) } }
pub fn begin_as(name: &[u8]) { unsafe { sx_reset() } arg(name); }
pub fn begin() { unsafe { sx_reset() } arg(b"pemv"); }
pub struct Res { pub code: i32, pub out: Vec<u8>, pub err: Vec<u8> }
pub fn run() -> Res {
    unsafe {
        let code = sx_run();
        let mut r = Res { code, out: vec![0; sx_out_len(1)], err: vec![0; sx_out_len(2)] };
        sx_out_copy(1, r.out.as_mut_ptr());
        sx_out_copy(2, r.err.as_mut_ptr());
        r
    }
}
pub fn eq(a: &[u8], b: &[u8], m: &str) { unsafe { sx_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), m.as_ptr(), m.len()) } }
pub fn check(c: bool, m: &str) { unsafe { sx_check(c, m.as_ptr(), m.len()) } }
#[allow(dead_code)]
pub fn note(m: &[u8]) { unsafe { sx_note(m.as_ptr(), m.len()) } }
