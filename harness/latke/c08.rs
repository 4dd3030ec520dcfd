//! the wide-block cipher
use super::vf_base::*;
use crate::ideal_cipher::{wide_block_decrypt, wide_block_encrypt};
fn inv(n: usize, klen: usize) {
    let key = vec_any(klen, "key");
    let b = vec_any(n, "block");
    let mut x = b.clone();
    wide_block_encrypt(&key, &mut x);
    check(x.len() == n, "the length never changes");
    let e = x.clone();
    wide_block_decrypt(&key, &mut x);
    check(same(&x, &b), "decryption inverts encryption");
    let mut y = b.clone();
    wide_block_decrypt(&key, &mut y);
    wide_block_encrypt(&key, &mut y);
    check(same(&y, &b), "encryption inverts decryption");
    // a function of key and block only
    let mut z = b.clone();
    wide_block_encrypt(&key, &mut z);
    check(same(&z, &e), "encryption is deterministic");
    reach("done");
}
const L: [usize; 16] = [32, 33, 40, 47, 48, 49, 64, 100, 199, 200, 201, 400, 672, 736, 1000, 2000];
entry!(vf_c08_inv, exact, ["done"], inv(L[choice(16)], 32));
entry!(vf_c08_inv_k, exact, ["done"], inv([32, 65][choice(2)], [16, 24, 64][choice(3)]));
entry!(vf_c08_inv_all, exact, ["done"], inv(32 + choice(96), 32));
/// every byte of the result depends on the key and on every byte of the block
entry!(vf_c08_dep, exact, ["done"], {
    #[cfg(vf_native)]
    { native_diff(); return; }
    #[cfg(not(vf_native))]
    dep_all();
});
#[cfg(not(vf_native))]
fn dep_all() {
    let n = [32, 33, 48, 72, 200, 672, 736, 1000][choice(8)];
    let mut key = vec_any(32, "key0");
    let k = [0, 15, 16, 17, 31][choice(5)];
    overwrite(&mut key, k, k + 1, "key");
    let mut b = vec_any(n, "block");
    let i = [0, 15, 16, 31, n / 2, n - 1][choice(6)];
    overwrite(&mut b, i, i + 1, "adv");
    if choice(2) == 0 { wide_block_encrypt(&key, &mut b) } else { wide_block_decrypt(&key, &mut b) }
    check(vfsys::dep(&b, "key"), "every output byte depends on every key byte");
    check(vfsys::dep(&b, "adv"), "every output byte depends on every input byte");
    reach("done");
}
/// (replay on the real primitives) with another key, or a block differing in one
/// byte, every byte of the result differs for some of 24 keys and blocks
#[cfg(vf_native)]
fn native_diff() {
    let n = [32, 33, 48, 72, 200, 672, 736, 1000, 35, 47][choice(10)];
    let (by_key, enc) = (choice(2) == 0, choice(2) == 0);
    let (l, h) = [(0, 32), (0, 1), (15, 16), (16, 17), (31, 32)][choice(5)];
    let i = [0, 15, 16, 31, 32.min(n - 1), n / 2, n - 1][choice(7)];
    let mut differs = vec![false; n];
    for _ in 0..24 {
        let key = vec_any(32, "key");
        let b = vec_any(n, "block");
        let (mut key2, mut b2) = (key.clone(), b.clone());
        if by_key { overwrite(&mut key2, l, h, "adv") } else { overwrite(&mut b2, i, i + 1, "adv") }
        if same(&key, &key2) && same(&b, &b2) { continue; }
        let (mut x, mut y) = (b, b2);
        if enc { wide_block_encrypt(&key, &mut x); wide_block_encrypt(&key2, &mut y) } else { wide_block_decrypt(&key, &mut x); wide_block_decrypt(&key2, &mut y) }
        for j in 0..n { differs[j] |= x[j] != y[j]; }
    }
    check(differs.iter().all(|d| *d), "every byte of the result depends on key and block");
}
