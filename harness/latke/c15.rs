//! ID-SIGMA-R, both signature schemes
use super::vf_base::*;
use crate::ibke::id_sigma_r::{vf_cert_with_id, SigmaCert, IdSigmaRDilithium2, IdSigmaREd25519};
entry!(vf_c15_honest_d, exact, ["honest run completed"], ibke_honest::<IdSigmaRDilithium2>(4));
entry!(vf_c15_honest_e, exact, ["honest run completed"], ibke_honest::<IdSigmaREd25519>(4));
entry!(vf_c15_mismatch_d, ideal, ["started"], ibke_mismatch::<IdSigmaRDilithium2>(4));
entry!(vf_c15_mismatch_e, ideal, ["started"], ibke_mismatch::<IdSigmaREd25519>(4));
const A1: [(usize, usize); 6] = [(0, 32), (32, 704), (0, 1), (31, 32), (32, 33), (703, 704)];
const A2: [(usize, usize); 6] = [(0, 32), (32, 768), (0, 1), (31, 32), (32, 33), (767, 768)];
entry!(vf_c15_alt1_e, ideal, ["started"], { let (l, h) = A1[choice(6)]; ibke_altered(ibke_two::<IdSigmaREd25519>(), 4, 1, l, h) });
entry!(vf_c15_alt2_e, ideal, ["started"], { let (l, h) = A2[choice(6)]; ibke_altered(ibke_two::<IdSigmaREd25519>(), 4, 2, l, h) });
entry!(vf_c15_alt1_d, ideal, ["started"], { let (l, h) = A1[choice(2)]; ibke_altered(ibke_two::<IdSigmaRDilithium2>(), 4, 1, l, h) });
entry!(vf_c15_alt2_d, ideal, ["started"], { let (l, h) = A2[choice(2)]; ibke_altered(ibke_two::<IdSigmaRDilithium2>(), 4, 2, l, h) });
/// sealed messages that do not open: error, not done
fn sealed<I: IdentityBasedKeyExchange>(k: usize) {
    let mut t = ibke_two::<I>();
    let mut msg = ibke_upto(&mut t, k);
    let n = msg.len();
    match choice(6) {
        0 => overwrite(&mut msg, 0, n, "adv"),
        1 => overwrite(&mut msg, n - 32, n, "adv"),
        2 => { let o = msg.clone(); overwrite(&mut msg, n - 1, n, "adv"); assume(!same(&o, &msg)); }
        3 => { let o = msg.clone(); overwrite(&mut msg, 0, 1, "adv"); assume(!same(&o, &msg)); }
        4 => { let o = msg.clone(); overwrite(&mut msg, n - 44, n - 32, "adv"); assume(!same(&o, &msg)); }
        _ => msg.truncate([0, 1, 43, 44, 100][choice(5)]),
    }
    let u = if k % 2 == 0 { &mut t.a } else { &mut t.b };
    check(u.run(VRng, &msg).is_err(), "a sealed message that does not open is an error");
    check(!u.is_done(), "and leaves the session incomplete");
    reach("rejected");
}
entry!(vf_c15_sealed3_e, ideal, ["rejected"], sealed::<IdSigmaREd25519>(3));
entry!(vf_c15_sealed4_e, ideal, ["rejected"], sealed::<IdSigmaREd25519>(4));
entry!(vf_c15_sealed3_d, ideal, ["rejected"], sealed::<IdSigmaRDilithium2>(3));
entry!(vf_c15_sealed4_d, ideal, ["rejected"], sealed::<IdSigmaRDilithium2>(4));
entry!(vf_c15_impostor_e, ideal, ["started"], ibke_impostor::<IdSigmaREd25519>(4, 2, |p| p.as_bytes().to_vec()));
entry!(vf_c15_impostor_d, ideal, ["started"], ibke_impostor::<IdSigmaRDilithium2>(4, 2, |p| p.as_bytes().to_vec()));
/// a certificate that was not issued for the identity or key it names
fn forged<I: IdentityBasedKeyExchange<Certificate = SigmaCert>>() {
    let mut rng = VRng;
    let (mpk, msk) = I::gen_main_keypair(&mut rng);
    let (upka, uska) = I::gen_user_keypair(&mut rng);
    let (upkb, uskb) = I::gen_user_keypair(&mut rng);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let mut ca = I::extract(&mut rng, &msk, &ida, &upka);
    let mut cb = I::extract(&mut rng, &msk, &idb, &upkb);
    let bad_a = choice(2) == 0;
    if bad_a { ca = vf_cert_with_id(&ca, other(&ida)) } else { cb = vf_cert_with_id(&cb, other(&idb)) }
    let ssid: Ssid = arr("ssid");
    let a = I::new_session(&mut rng, ssid, mpk.clone(), ca, uska, PartyRole::Initiator);
    let b = I::new_session(&mut rng, ssid, mpk, cb, uskb, PartyRole::Responder);
    ibke_unaccepted(a, b, 4, bad_a);
}
entry!(vf_c15_forged_e, ideal, ["started"], forged::<IdSigmaREd25519>());
entry!(vf_c15_forged_d, ideal, ["started"], forged::<IdSigmaRDilithium2>());
