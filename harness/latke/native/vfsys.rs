//! The ghost operations of the harness run natively: inputs are drawn at random.
use std::cell::RefCell;
thread_local! { static S: RefCell<(u64, bool)> = RefCell::new((1, false)); }
pub struct Skip;
pub fn start(seed: u64) { S.with(|s| *s.borrow_mut() = (seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, false)); }
pub fn panics_allowed() -> bool { S.with(|s| s.borrow().1) }
fn next() -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.0 = s.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
pub fn any(out: &mut [u8], tag: &str) {
    if tag == "adv" {
        match next() % 4 {
            0 => return,
            1 if !out.is_empty() => { let i = next() as usize % out.len(); out[i] ^= 1 << (next() % 8); return }
            _ => {}
        }
    }
    for b in out.iter_mut() { *b = next() as u8 }
}
pub fn arr<const N: usize>(tag: &str) -> [u8; N] { let mut x = [0u8; N]; any(&mut x, tag); x }
pub fn assume(b: bool) { if !b { std::panic::panic_any(Skip) } }
pub fn check(b: bool, m: &str) { if !b { std::panic::panic_any(format!("failed: {}", m)) } }
pub fn reach(_: &str) {}
pub fn panic_ok(b: bool) { S.with(|s| s.borrow_mut().1 = b) }
pub fn choice(n: usize) -> usize { next() as usize % n }
pub fn same(a: &[u8], b: &[u8]) -> bool { a == b }
pub fn uf(name: &str, input: &[u8], out: &mut [u8]) {
    let mut h: [u64; 4] = [1, 2, 3, 4];
    for (i, b) in name.bytes().chain(std::iter::once(0)).chain(input.iter().cloned()).enumerate() {
        let k = i % 4;
        h[k] = (h[k] ^ b as u64 ^ h[(k + 3) % 4].rotate_left(17)).wrapping_mul(0x100000001B3).rotate_left(23);
    }
    for (i, o) in out.iter_mut().enumerate() {
        let mut z = h[i % 4] ^ h[(i + 1) % 4].rotate_left(9) ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        *o = (z ^ (z >> 29)) as u8;
    }
}
pub fn dep(_: &[u8], _: &str) -> bool { true }
