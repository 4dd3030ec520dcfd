//! authenticated encryption
use super::vf_base::*;
use crate::auth_enc::{auth_decrypt, auth_encrypt, AuthEncKey};
fn key() -> AuthEncKey { arr("key") }
const LENS: [usize; 10] = [0, 1, 31, 32, 63, 64, 65, 128, 200, 256];
fn rt(lens: &[usize]) {
    let k = key();
    let m = vec_any(lens[choice(lens.len())], "msg");
    let s = auth_encrypt(VRng, k, &m);
    check(s.len() == m.len() + 44, "sealed length is plaintext length plus 44");
    match auth_decrypt(k, &s) {
        Ok(p) => check(p.len() == m.len() && same(&p, &m), "opening a sealed message returns the plaintext"),
        Err(_) => check(false, "an untouched sealed message opens"),
    }
    reach("opened");
}
entry!(vf_c07_rt, exact, ["opened"], rt(&LENS));
entry!(vf_c07_rt_dil, exact, ["opened"], rt(&[160, 256, 2420 + 32 + 3764]));
entry!(vf_c07_keys, ideal, ["rejected"], {
    // another key does not open it
    let (k, k2) = (key(), key());
    assume(!same(&k[32..], &k2[32..]));
    let m = vec_any([0, 20, 64][choice(3)], "msg");
    let s = auth_encrypt(VRng, k, &m);
    check(auth_decrypt(k2, &s).is_err(), "another MAC key does not open the message");
    reach("rejected");
});
/// any one byte altered
entry!(vf_c07_byte, ideal, ["rejected"], {
    let k = key();
    let m = vec_any([0, 1, 33, 64][choice(4)], "msg");
    let mut s = auth_encrypt(VRng, k, &m);
    let i = choice(s.len());
    let old = s[i];
    overwrite(&mut s, i, i + 1, "adv");
    assume(!same(&[old], &s[i..i + 1]));
    check(auth_decrypt(k, &s).is_err(), "a sealed message with one byte altered is rejected");
    reach("rejected");
});
/// whole fields altered
entry!(vf_c07_field, ideal, ["rejected"], {
    let k = key();
    let n = 40;
    let m = vec_any(n, "msg");
    let mut s = auth_encrypt(VRng, k, &m);
    let (l, h) = [(0, n), (n, n + 12), (n + 12, n + 44), (0, n + 12), (n, n + 44), (0, n + 44), (n + 28, n + 44), (n + 12, n + 28)][choice(8)];
    let old = s[l..h].to_vec();
    overwrite(&mut s, l, h, "adv");
    assume(!same(&old, &s[l..h]));
    check(auth_decrypt(k, &s).is_err(), "a sealed message with an altered field is rejected");
    reach("rejected");
});
/// truncated, extended, or moved boundaries
entry!(vf_c07_len, ideal, ["rejected"], {
    let k = key();
    let n = 50;
    let m = vec_any(n, "msg");
    let s = auth_encrypt(VRng, k, &m);
    let t = match choice(4) {
        0 => s[..choice(n + 44)].to_vec(),
        1 => s[1 + choice(n + 43)..].to_vec(),
        2 => [&s[..], &vec_any(1 + choice(3), "adv")].concat(),
        _ => { let p = vec_any(1 + choice(3), "adv"); [&p, &s[..]].concat() }
    };
    check(auth_decrypt(k, &t).is_err(), "a truncated or extended sealed message is rejected");
    reach("rejected");
});
/// arbitrary bytes of any length: an error, never a panic
entry!(vf_c07_total, exact, ["done"], {
    let s = vec_any(choice(120), "adv");
    if let Ok(p) = auth_decrypt(key(), &s) { check(s.len() >= 44 && p.len() == s.len() - 44, "an opened message has its plaintext's length"); }
    reach("done");
});
entry!(vf_c07_forge, ideal, ["done"], {
    let s = vec_any(choice(120), "adv");
    check(auth_decrypt(key(), &s).is_err(), "bytes nobody sealed do not open");
    reach("done");
});
