//! LATKE
use super::vf_base::*;
use crate::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519}};
use crate::latke::{Latke, PeerModel};
use crate::pake::{cake::Cake, cpace::Cpace, kc_spake2::KcSpake2};
struct L2<I: IdentityBasedKeyExchange, P: Pake> { a: Latke<I, P>, b: Latke<I, P>, ida: Id, idb: Id }
fn two<I: IdentityBasedKeyExchange, P: Pake>(pre: bool, pwlen: usize) -> L2<I, P> {
    let mut rng = VRng;
    let pw = vec_any(pwlen, "pw");
    let ida: Id = arr("ida");
    let idb: Id = arr("idb");
    let fa = Latke::<I, P>::gen_pwfile(&mut rng, &pw, &ida);
    let fb = Latke::<I, P>::gen_pwfile(&mut rng, &pw, &idb);
    let ssid: Ssid = arr("ssid");
    let (pa, pb) = if pre { (PeerModel::PreSpecified(idb), PeerModel::PreSpecified(ida)) } else { (PeerModel::PostSpecified, PeerModel::PostSpecified) };
    let a = Latke::<I, P>::new_session(&mut rng, ssid, fa, PartyRole::Initiator, pa);
    let b = Latke::<I, P>::new_session(&mut rng, ssid, fb, PartyRole::Responder, pb);
    L2 { a, b, ida, idb }
}
fn honest<I: IdentityBasedKeyExchange, P: Pake>(max: usize, pwlen: usize) {
    let L2 { mut a, mut b, ida, idb } = two::<I, P>(choice(2) == 0, pwlen);
    let mut msg = Vec::new();
    let mut k = 0;
    while k <= max {
        let u = if k % 2 == 0 { &mut a } else { &mut b };
        if u.is_done() { break; }
        let m = u.run(VRng, &msg).unwrap_or_default();
        if k == 1 { distinct(&msg, &m); }
        msg = m;
        k += 1;
    }
    check(a.is_done() && b.is_done(), "both parties complete within the documented number of messages");
    let (ia, ka) = a.finalize();
    let (ib, kb) = b.finalize();
    check(same(&ka, &kb), "both parties derive the same session key");
    check(same(&ia, &idb), "the initiator learns the responder's identity");
    check(same(&ib, &ida), "the responder learns the initiator's identity");
    reach("honest run completed");
}
/// message k is altered; the rest is delivered as sent: no common key results
fn altered<I: IdentityBasedKeyExchange, P: Pake>(max: usize, k: usize) {
    let L2 { mut a, mut b, .. } = two::<I, P>(choice(2) == 0, 8);
    let mut msg = Vec::new();
    let mut i = 0;
    while i <= max {
        if i == k {
            if msg.is_empty() { return; }
            let o = msg.clone();
            let n = msg.len();
            let (l, h) = [(0, n), (0, 1), (n - 1, n)][choice(3)];
            overwrite(&mut msg, l, h, "adv");
            assume(!same(&o, &msg));
            reach("altered");
            panic_ok(true);
        }
        let u = if i % 2 == 0 { &mut a } else { &mut b };
        if u.is_done() { break; }
        msg = u.run(VRng, &msg).unwrap_or_default();
        i += 1;
    }
    if i > k && a.is_done() && b.is_done() {
        let (_, ka) = a.finalize();
        let (_, kb) = b.finalize();
        check(!same(&ka, &kb), "parties that saw different transcripts do not share a key");
    }
}
/// different passwords, session ids or expected identities
fn mismatch<I: IdentityBasedKeyExchange, P: Pake>(max: usize) {
    let mut rng = VRng;
    let p1 = vec_any(8, "pw");
    let ida: Id = arr("ida");
    let idb: Id = arr("idb");
    let s1: Ssid = arr("ssid");
    let case = choice(4);
    let p2 = if case == 0 { other_vec(&p1) } else { p1.clone() };
    let s2 = if case == 1 { other(&s1) } else { s1 };
    let idc: Id = match case { 2 => other(&idb), 3 => other(&ida), _ => ida };
    let fa = Latke::<I, P>::gen_pwfile(&mut rng, &p1, &ida);
    let fb = Latke::<I, P>::gen_pwfile(&mut rng, &p2, &idb);
    let (pa, pb) = match case {
        2 => (PeerModel::PreSpecified(idc), PeerModel::PreSpecified(ida)),
        3 => (PeerModel::PreSpecified(idb), PeerModel::PreSpecified(idc)),
        _ => (PeerModel::PostSpecified, PeerModel::PostSpecified),
    };
    let mut a = Latke::<I, P>::new_session(&mut rng, s1, fa, PartyRole::Initiator, pa);
    let mut b = Latke::<I, P>::new_session(&mut rng, s2, fb, PartyRole::Responder, pb);
    reach("started");
    panic_ok(true);
    let mut msg = Vec::new();
    let mut i = 0;
    while i <= max {
        let u = if i % 2 == 0 { &mut a } else { &mut b };
        if u.is_done() { break; }
        msg = u.run(VRng, &msg).unwrap_or_default();
        i += 1;
    }
    if a.is_done() && b.is_done() {
        let (_, ka) = a.finalize();
        let (_, kb) = b.finalize();
        check(!same(&ka, &kb), "parties with different passwords, sessions or expected peers do not share a key");
    }
}
/// a PAKE that shows the password it was started with
struct Spy(Vec<u8>);
impl Pake for Spy {
    type Error = ();
    fn new<R: rand_core::RngCore + rand_core::CryptoRng>(_: R, _: Ssid, password: &[u8], _: PartyRole) -> Self { Spy(password.to_vec()) }
    fn run(&mut self, _: &[u8]) -> Result<Option<Vec<u8>>, ()> { Ok(Some(self.0.clone())) }
    fn is_done(&self) -> bool { false }
    fn finalize(&self) -> SessKey { panic!("not done") }
}
/// the main key is a function of the password alone (all randomness differs)
fn mpk<I: IdentityBasedKeyExchange>() {
    let pw = vec_any([0, 1, 8, 64, 129][choice(5)], "pw");
    let fa = Latke::<I, Spy>::gen_pwfile(VRng, &pw, &arr("id"));
    let fb = Latke::<I, Spy>::gen_pwfile(VRng, &pw, &arr("id"));
    let mut a = Latke::<I, Spy>::new_session(VRng, arr("ssid"), fa, PartyRole::Initiator, PeerModel::PostSpecified);
    let mut b = Latke::<I, Spy>::new_session(VRng, arr("ssid"), fb, PartyRole::Initiator, PeerModel::PostSpecified);
    let (ma, mb) = (a.run(VRng, &[]).unwrap(), b.run(VRng, &[]).unwrap());
    check(!ma.is_empty() && same(&ma, &mb), "the main public key depends on the password alone");
    reach("done");
}
/// and on the whole password: different passwords give different main keys
fn mpk_dep<I: IdentityBasedKeyExchange>() {
    let n = [1, 8, 64, 129, 200][choice(5)];
    let pw = vec_any(n, "pw");
    let mut pw2 = pw.clone();
    let (l, h) = [(0, n), (0, 1), (n - 1, n), (n / 2, n / 2 + 1)][choice(4)];
    overwrite(&mut pw2, l, h, "adv");
    assume(!same(&pw, &pw2));
    let f = Latke::<I, Spy>::gen_pwfile(VRng, &pw, &arr("id"));
    let f2 = Latke::<I, Spy>::gen_pwfile(VRng, &pw2, &arr("id"));
    let mut a = Latke::<I, Spy>::new_session(VRng, arr("ssid"), f, PartyRole::Initiator, PeerModel::PostSpecified);
    let mut b = Latke::<I, Spy>::new_session(VRng, arr("ssid"), f2, PartyRole::Initiator, PeerModel::PostSpecified);
    let (ma, mb) = (a.run(VRng, &[]).unwrap(), b.run(VRng, &[]).unwrap());
    check(!same(&ma, &mb), "different passwords give different main public keys");
    reach("done");
}
entry!(vf_c18_g23, exact, ["honest run completed"], honest::<GIbke<2>, GPake<3>>(8, 8));
entry!(vf_c18_g22, exact, ["honest run completed"], honest::<GIbke<2>, GPake<2>>(8, 8));
entry!(vf_c18_g32, exact, ["honest run completed"], honest::<GIbke<3>, GPake<2>>(8, 8));
entry!(vf_c18_g33, exact, ["honest run completed"], honest::<GIbke<3>, GPake<3>>(8, 8));
entry!(vf_c18_g43, exact, ["honest run completed"], honest::<GIbke<4>, GPake<3>>(10, 8));
entry!(vf_c18_g54, exact, ["honest run completed"], honest::<GIbke<5>, GPake<4>>(12, 8));
entry!(vf_c18_g45, exact, ["honest run completed"], honest::<GIbke<4>, GPake<5>>(12, 8));
entry!(vf_c18_alt_g23, ideal, ["altered"], altered::<GIbke<2>, GPake<3>>(8, 1 + choice(7)));
entry!(vf_c18_alt_g32, ideal, ["altered"], altered::<GIbke<3>, GPake<2>>(8, 1 + choice(7)));
entry!(vf_c18_alt_g45, ideal, ["altered"], altered::<GIbke<4>, GPake<5>>(12, 1 + choice(11)));
entry!(vf_c18_mis_g, ideal, ["started"], mismatch::<GIbke<3>, GPake<3>>(8));
entry!(vf_c18_fg_kc, exact, ["honest run completed"], honest::<FgIbkeC, KcSpake2>(8, 8));
entry!(vf_c18_fg_cp, exact, ["honest run completed"], honest::<FgIbkeC, Cpace>(8, 8));
entry!(vf_c18_fg_ca, exact, ["honest run completed"], honest::<FgIbkeC, Cake>(8, 8));
entry!(vf_c18_hm_kc, exact, ["honest run completed"], honest::<IdHmqvC, KcSpake2>(8, 8));
entry!(vf_c18_hm_cp, exact, ["honest run completed"], honest::<IdHmqvC, Cpace>(8, 8));
entry!(vf_c18_hm_ca, exact, ["honest run completed"], honest::<IdHmqvC, Cake>(8, 8));
entry!(vf_c18_sd_kc, exact, ["honest run completed"], honest::<IdSigDh, KcSpake2>(8, 8));
entry!(vf_c18_sd_cp, exact, ["honest run completed"], honest::<IdSigDh, Cpace>(8, 8));
entry!(vf_c18_sd_ca, exact, ["honest run completed"], honest::<IdSigDh, Cake>(8, 8));
entry!(vf_c18_se_kc, exact, ["honest run completed"], honest::<IdSigmaREd25519, KcSpake2>(9, 8));
entry!(vf_c18_se_cp, exact, ["honest run completed"], honest::<IdSigmaREd25519, Cpace>(9, 8));
entry!(vf_c18_se_ca, exact, ["honest run completed"], honest::<IdSigmaREd25519, Cake>(9, 8));
entry!(vf_c18_sp_kc, exact, ["honest run completed"], honest::<IdSigmaRDilithium2, KcSpake2>(9, 8));
entry!(vf_c18_sp_cp, exact, ["honest run completed"], honest::<IdSigmaRDilithium2, Cpace>(9, 8));
entry!(vf_c18_sp_ca, exact, ["honest run completed"], honest::<IdSigmaRDilithium2, Cake>(9, 8));
entry!(vf_c18_mpk_fg, exact, ["done"], mpk::<FgIbkeC>());
entry!(vf_c18_mpk_hm, exact, ["done"], mpk::<IdHmqvC>());
entry!(vf_c18_mpk_sd, exact, ["done"], mpk::<IdSigDh>());
entry!(vf_c18_mpk_se, exact, ["done"], mpk::<IdSigmaREd25519>());
entry!(vf_c18_mpk_sp, exact, ["done"], mpk::<IdSigmaRDilithium2>());
entry!(vf_c18_mpkdep_fg, ideal, ["done"], mpk_dep::<FgIbkeC>());
entry!(vf_c18_mpkdep_hm, ideal, ["done"], mpk_dep::<IdHmqvC>());
entry!(vf_c18_mpkdep_sd, ideal, ["done"], mpk_dep::<IdSigDh>());
entry!(vf_c18_mpkdep_se, ideal, ["done"], mpk_dep::<IdSigmaREd25519>());
entry!(vf_c18_mpkdep_sp, ideal, ["done"], mpk_dep::<IdSigmaRDilithium2>());
