//! the EUE transform
use super::vf_base::*;
use crate::eue_transform::Eue;
use crate::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519}};
struct E2<I: IdentityBasedKeyExchange> { a: Eue<I>, b: Eue<I>, ida: Id, idb: Id }
fn two<I: IdentityBasedKeyExchange>() -> E2<I> {
    let mut rng = VRng;
    let (mpk, msk) = I::gen_main_keypair(&mut rng);
    let ida: Id = arr("ida");
    let idb: Id = arr("idb");
    let (upka, uska) = I::gen_user_keypair(&mut rng);
    let (upkb, uskb) = I::gen_user_keypair(&mut rng);
    let ca = I::extract(&mut rng, &msk, &ida, &upka);
    let cb = I::extract(&mut rng, &msk, &idb, &upkb);
    let ssid: Ssid = arr("ssid");
    let key: [u8; 32] = arr("key");
    let a = Eue::new_session(&mut rng, ssid, mpk.clone(), ca, uska, PartyRole::Initiator, key);
    let b = Eue::new_session(&mut rng, ssid, mpk, cb, uskb, PartyRole::Responder, key);
    E2 { a, b, ida, idb }
}
fn honest<I: IdentityBasedKeyExchange>(steps: usize) {
    let E2 { mut a, mut b, ida, idb } = two::<I>();
    let mut msg = Vec::new();
    let mut sent = 0;
    for k in 0..=steps {
        let u = if k % 2 == 0 { &mut a } else { &mut b };
        check(!u.is_done(), "a party is not done before its last step");
        match u.run(VRng, &msg) {
            Ok(Some(m)) => { sent += 1; msg = m; }
            Ok(None) => check(k == steps, "every documented message is sent"),
            Err(_) => { check(false, "an honest step never fails"); return; }
        }
    }
    check(sent == steps, "the documented number of messages is sent");
    check(a.is_done() && b.is_done(), "both parties are done after the last message");
    let (ia, ka) = a.finalize();
    let (ib, kb) = b.finalize();
    check(same(&ka, &kb), "both parties derive the same session key");
    check(same(&ia, &idb) && same(&ib, &ida), "each party learns the other's identity");
    reach("honest run completed");
}
/// message k is tampered with: the receiver does not panic, goes on sending
/// messages of the normal length for the normal number of steps, and never
/// outputs a key
fn tampered<I: IdentityBasedKeyExchange>(steps: usize, k: usize) {
    // the normal lengths
    let mut lens = Vec::new();
    let E2 { mut a, mut b, .. } = two::<I>();
    let mut m = Vec::new();
    for i in 0..steps { let u = if i % 2 == 0 { &mut a } else { &mut b }; m = u.run(VRng, &m).unwrap().unwrap(); lens.push(m.len()); }
    let E2 { mut a, mut b, .. } = two::<I>();
    let mut m = Vec::new();
    for i in 0..k { let u = if i % 2 == 0 { &mut a } else { &mut b }; m = u.run(VRng, &m).unwrap().unwrap(); }
    let n = m.len();
    let old = m.clone();
    match choice(6) {
        0 => overwrite(&mut m, 0, n, "adv"),
        1 => overwrite(&mut m, n - 1, n, "adv"),
        2 => overwrite(&mut m, 0, 1, "adv"),
        3 => overwrite(&mut m, n - 44, n - 32, "adv"),
        4 => m.truncate([0, 1, 11, 31, 32, 43, 44, n - 1][choice(8)]),
        _ => m = vec_any(n + 1, "adv"),
    }
    assume(old.len() != m.len() || !same(&old, &m));
    reach("tampered");
    let u = if k % 2 == 0 { &mut a } else { &mut b };
    let mut i = k;
    while i <= steps {
        check(!u.is_done(), "the session does not end early");
        match u.run(VRng, &m) {
            Ok(Some(x)) => {
                check(i < steps && x.len() == lens[i], "messages keep the normal length");
                // whatever the peer answers
                m = if i + 1 < steps { vec_any(lens[i + 1], "adv") } else { Vec::new() };
            }
            Ok(None) => check(i == steps, "messages keep being sent"),
            Err(_) => check(false, "a tampered message does not end the session"),
        }
        i += 2;
    }
    check(u.is_done(), "the session runs to its end");
    reach("ran to the end");
    must_panic(|| { u.finalize(); }, "a simulated session never outputs a key");
}
/// different keys: nothing opens
fn mismatch<I: IdentityBasedKeyExchange>() {
    let E2 { mut a, .. } = two::<I>();
    let E2 { mut b, .. } = two::<I>();
    let m = a.run(VRng, &[]).unwrap().unwrap();
    let r = b.run(VRng, &m);
    check(r.is_ok(), "a message under another key does not end the session");
    reach("done");
}
entry!(vf_c17_hon_g2, exact, ["honest run completed"], honest::<GIbke<2>>(2));
entry!(vf_c17_hon_g3, exact, ["honest run completed"], honest::<GIbke<3>>(3));
entry!(vf_c17_hon_g4, exact, ["honest run completed"], honest::<GIbke<4>>(4));
entry!(vf_c17_hon_g5, exact, ["honest run completed"], honest::<GIbke<5>>(5));
entry!(vf_c17_hon_g8, exact, ["honest run completed"], honest::<GIbke<8>>(8));
entry!(vf_c17_tam_g2, ideal, ["tampered", "ran to the end"], tampered::<GIbke<2>>(2, 1 + choice(2)));
entry!(vf_c17_tam_g3, ideal, ["tampered", "ran to the end"], tampered::<GIbke<3>>(3, 1 + choice(3)));
entry!(vf_c17_tam_g5, ideal, ["tampered", "ran to the end"], tampered::<GIbke<5>>(5, 1 + choice(5)));
entry!(vf_c17_hon_fg, exact, ["honest run completed"], honest::<FgIbkeC>(3));
entry!(vf_c17_hon_hmqv, exact, ["honest run completed"], honest::<IdHmqvC>(3));
entry!(vf_c17_hon_sigdh, exact, ["honest run completed"], honest::<IdSigDh>(2));
entry!(vf_c17_hon_sigma_e, exact, ["honest run completed"], honest::<IdSigmaREd25519>(4));
entry!(vf_c17_hon_sigma_d, exact, ["honest run completed"], honest::<IdSigmaRDilithium2>(4));
entry!(vf_c17_tam_fg, ideal, ["tampered", "ran to the end"], tampered::<FgIbkeC>(3, 1 + choice(3)));
entry!(vf_c17_tam_hmqv, ideal, ["tampered", "ran to the end"], tampered::<IdHmqvC>(3, 1 + choice(3)));
entry!(vf_c17_tam_sigdh, ideal, ["tampered", "ran to the end"], tampered::<IdSigDh>(2, 1 + choice(2)));
entry!(vf_c17_tam_sigma_e, ideal, ["tampered", "ran to the end"], tampered::<IdSigmaREd25519>(4, 1 + choice(4)));
entry!(vf_c17_keys, ideal, ["done"], mismatch::<GIbke<3>>());
