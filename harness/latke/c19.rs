//! CHIP
use super::vf_base::*;
use crate::chip::Chip;
use crate::pake::{cake::Cake, cpace::Cpace, kc_spake2::KcSpake2};
struct C2<P: Pake> { a: Chip<P>, b: Chip<P> }
/// case 0: matching.  1: other password.  2: other session id.  3, 4: a party
/// expects an identity other than the peer's
fn two<P: Pake>(case: usize, pwlen: usize) -> C2<P> {
    let mut rng = VRng;
    let pw = vec_any(pwlen, "pw");
    let pw2 = if case == 1 { other_vec(&pw) } else { pw.clone() };
    let ida: Id = arr("ida");
    let idb: Id = arr("idb");
    let idc: Id = match case { 3 => other(&idb), 4 => other(&ida), _ => ida };
    let fa = Chip::<P>::gen_pwfile(&mut rng, pw, ida);
    let fb = Chip::<P>::gen_pwfile(&mut rng, pw2, idb);
    let s1: Ssid = arr("ssid");
    let s2: Ssid = if case == 2 { other(&s1) } else { s1 };
    let a = Chip::new_session(&mut rng, s1, fa, PartyRole::Initiator, if case == 3 { idc } else { idb });
    let b = Chip::new_session(&mut rng, s2, fb, PartyRole::Responder, if case == 4 { idc } else { ida });
    C2 { a, b }
}
fn honest<P: Pake>(steps: usize, pwlen: usize) {
    let C2 { mut a, mut b } = two::<P>(0, pwlen);
    let mut msg = Vec::new();
    for k in 0..=steps {
        let u = if k % 2 == 0 { &mut a } else { &mut b };
        match u.run(VRng, &msg) {
            Ok(Some(m)) => { check(k < steps, "no message beyond the documented ones"); if k == 1 || k == 3 { distinct(&msg, &m); } msg = m; }
            Ok(None) => check(k == steps, "every documented message is sent"),
            Err(_) => { check(false, "an honest step never fails"); return; }
        }
    }
    check(same(&a.finalize(), &b.finalize()), "both parties derive the same session key");
    reach("honest run completed");
}
fn finish<P: Pake>(t: C2<P>, steps: usize, k: usize, mut msg: Vec<u8>, label: &str) {
    let C2 { mut a, mut b } = t;
    reach("started");
    panic_ok(true);
    let mut over = false;
    for i in k..=steps {
        let u = if i % 2 == 0 { &mut a } else { &mut b };
        match u.run(VRng, &msg) { Ok(Some(m)) => msg = m, Ok(None) => { over = true; break } Err(_) => return }
    }
    if over { check(!same(&a.finalize(), &b.finalize()), label); }
}
fn altered<P: Pake>(steps: usize, k: usize) {
    let C2 { mut a, mut b } = two::<P>(0, 8);
    let mut msg = Vec::new();
    for i in 0..k { let u = if i % 2 == 0 { &mut a } else { &mut b }; msg = u.run(VRng, &msg).unwrap().unwrap(); }
    let n = msg.len();
    let (l, h) = if k <= 2 { [(0, 32), (32, 64), (0, 64), (0, 1), (63, 64)][choice(5)] } else { [(0, n), (0, 1), (n - 1, n)][choice(3)] };
    let o = msg.clone();
    overwrite(&mut msg, l, h, "adv");
    assume(!same(&o, &msg));
    finish(C2 { a, b }, steps, k, msg, "parties that saw different transcripts do not share a key");
}
fn early<P: Pake>(steps: usize) {
    let C2 { mut a, mut b } = two::<P>(0, 8);
    let k = choice(steps);
    let mut msg = Vec::new();
    for i in 0..k { let u = if i % 2 == 0 { &mut a } else { &mut b }; msg = u.run(VRng, &msg).unwrap().unwrap(); }
    reach("before");
    let initiator = choice(2) == 0;
    // the party that sends the last message has completed by then
    let done = k == steps && initiator == (steps % 2 == 1);
    if !done { must_panic(|| { if initiator { a.finalize(); } else { b.finalize(); } }, "a session that has not completed never yields a key"); }
}
entry!(vf_c19_g2, exact, ["honest run completed"], honest::<GPake<2>>(4, [0, 1, 8, 64, 129][choice(5)]));
entry!(vf_c19_g3, exact, ["honest run completed"], honest::<GPake<3>>(5, 8));
entry!(vf_c19_g4, exact, ["honest run completed"], honest::<GPake<4>>(6, 8));
entry!(vf_c19_kc, exact, ["honest run completed"], honest::<KcSpake2>(5, 8));
entry!(vf_c19_ca, exact, ["honest run completed"], honest::<Cake>(4, 8));
entry!(vf_c19_cp, exact, ["honest run completed"], honest::<Cpace>(4, 8));
entry!(vf_c19_mis_g, ideal, ["started"], finish(two::<GPake<3>>(1 + choice(4), 8), 5, 0, Vec::new(), "mismatched parties do not share a key"));
entry!(vf_c19_mis_g2, ideal, ["started"], finish(two::<GPake<2>>(1 + choice(4), 8), 4, 0, Vec::new(), "mismatched parties do not share a key"));
entry!(vf_c19_mis_kc, ideal, ["started"], finish(two::<KcSpake2>(1 + choice(4), 8), 5, 0, Vec::new(), "mismatched parties do not share a key"));
entry!(vf_c19_mis_ca, ideal, ["started"], finish(two::<Cake>(1 + choice(4), 8), 4, 0, Vec::new(), "mismatched parties do not share a key"));
entry!(vf_c19_mis_cp, ideal, ["started"], finish(two::<Cpace>(1 + choice(4), 8), 4, 0, Vec::new(), "mismatched parties do not share a key"));
entry!(vf_c19_alt_g2, ideal, ["started"], altered::<GPake<2>>(4, 1 + choice(2)));
entry!(vf_c19_alt_kc, ideal, ["started"], altered::<KcSpake2>(5, 1 + choice(5)));
entry!(vf_c19_alt_ca, ideal, ["started"], altered::<Cake>(4, 1 + choice(4)));
entry!(vf_c19_early_g, exact, ["before"], early::<GPake<3>>(5));
entry!(vf_c19_early_kc, exact, ["before"], early::<KcSpake2>(5));
entry!(vf_c19_early_ca, exact, ["before"], early::<Cake>(4));
entry!(vf_c19_early_cp, exact, ["before"], early::<Cpace>(4));
