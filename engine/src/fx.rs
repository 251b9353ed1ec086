use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx { #[inline] fn add(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); } }
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = 0u64; for (i, y) in c.iter().enumerate() { x |= (*y as u64) << (8 * i); } self.add(x); } }
    fn write_u8(&mut self, v: u8) { self.add(v as u64) } fn write_u16(&mut self, v: u16) { self.add(v as u64) }
    fn write_u32(&mut self, v: u32) { self.add(v as u64) } fn write_u64(&mut self, v: u64) { self.add(v) } fn write_usize(&mut self, v: usize) { self.add(v as u64) }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = HashSet<K, BuildHasherDefault<Fx>>;
