//! ID-SIG-DH
use super::vf_base::*;
use crate::ibke::id_sig_dh::IdSigDh;
use ed25519_dalek::{Signature, Verifier, VerifyingKey};
entry!(vf_c14_honest, exact, ["honest run completed"], ibke_honest::<IdSigDh>(2));
const CUT: [(usize, usize); 8] = [(0, 32), (32, 96), (96, 128), (128, 160), (160, 192), (192, 256), (32, 0), (0, 0)];
entry!(vf_c14_alt1, ideal, ["started"], { let (l, h) = CUT[choice(8)]; ibke_altered(ibke_two::<IdSigDh>(), 2, 1, l, h) });
entry!(vf_c14_alt2, ideal, ["started"], { let (l, h) = CUT[choice(8)]; ibke_altered(ibke_two::<IdSigDh>(), 2, 2, l, h) });
entry!(vf_c14_mismatch, ideal, ["started"], ibke_mismatch::<IdSigDh>(2));
fn sig(b: &[u8]) -> Signature { let mut x = [0u8; 64]; x.copy_from_slice(b); Signature::from_bytes(&x) }
/// any message at all: accepted only if certificate and signature verify
fn any_msg(k: usize) {
    let mut rng = VRng;
    let (mpk, msk) = IdSigDh::gen_main_keypair(&mut rng);
    let id: Id = arr("id");
    let (upk, usk) = IdSigDh::gen_user_keypair(&mut rng);
    let cert = IdSigDh::extract(&mut rng, &msk, &id, &upk);
    let ssid: Ssid = arr("ssid");
    let role = if k == 1 { PartyRole::Responder } else { PartyRole::Initiator };
    let mut u = IdSigDh::new_session(&mut rng, ssid, mpk, cert, usk, role);
    if k == 2 { let _ = u.run(&mut rng, &[]); }
    let m = vec_any(256, "adv");
    panic_ok(true);
    let r = u.run(&mut rng, &m);
    panic_ok(false);
    match r {
        Ok(_) => {
            reach("accepted");
            check(mpk.verify(&m[96..192], &sig(&m[192..256])).is_ok(), "the certificate verifies under the authority's key");
            let mut pk = [0u8; 32];
            pk.copy_from_slice(&m[128..160]);
            let pk = VerifyingKey::from_bytes(&pk).unwrap();
            let t = [&[if k == 1 { 0u8 } else { 1 }][..], &ssid[..], &m[..32]].concat();
            check(pk.verify(&t, &sig(&m[32..96])).is_ok(), "the signature covers role, session id and ephemeral key");
            check(u.is_done(), "an accepted last message completes the session");
            check(same(&u.finalize().0, &m[96..128]), "the reported identity is the certified one");
        }
        Err(_) => { check(!u.is_done(), "a rejected message leaves the session incomplete"); reach("rejected"); }
    }
}
entry!(vf_c14_any1, exact, ["accepted", "rejected"], any_msg(1));
entry!(vf_c14_any2, exact, ["accepted", "rejected"], any_msg(2));
/// messages of two sessions or two users spliced together
entry!(vf_c14_splice, ideal, ["started"], {
    let t = ibke_two::<IdSigDh>();
    let mut rng = VRng;
    let ssid2: Ssid = arr("ssid");
    let Two { mut a, mut b, ida, idb } = t;
    let m1 = a.run(&mut rng, &[]).unwrap().unwrap();
    reach("started");
    panic_ok(true);
    // the initiator's own message reflected back to it is not accepted
    if choice(2) == 0 {
        check(a.run(&mut rng, &m1).is_err() && !a.is_done(), "a reflected message is rejected");
    } else {
        let m2 = b.run(&mut rng, &m1).unwrap().unwrap();
        let _ = (ssid2, ida, idb);
        assume(!same(&m1[..32], &m2[..32]));
        // ephemeral key of one side with the signature of the other
        let m = [&m1[..32], &m2[32..]].concat();
        check(a.run(&mut rng, &m).is_err() && !a.is_done(), "a signature over another ephemeral key is rejected");
    }
});
entry!(vf_c14_impostor, ideal, ["started"], ibke_impostor::<IdSigDh>(2, 2, |p| p.0.as_bytes().to_vec()));
