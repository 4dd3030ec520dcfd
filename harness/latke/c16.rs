//! simulated sessions
use super::vf_base::*;
use crate::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519}};
/// real steps before step `j`, simulated ones from there on
fn shape<I: IdentityBasedKeyExchange>(steps: usize) {
    let Two { mut a, mut b, .. } = ibke_two::<I>();
    let mut t = ibke_two::<I>();
    let j = choice(steps + 1);
    let (mut m, mut v) = (Vec::new(), Vec::new());
    for k in 0..=steps {
        let (u, w) = if k % 2 == 0 { (&mut a, &mut t.a) } else { (&mut b, &mut t.b) };
        let real = match u.run(VRng, &m) { Ok(x) => x, Err(_) => { check(false, "an honest step never fails"); None } };
        if k < j {
            v = match w.run(VRng, &v) { Ok(Some(x)) => x, _ => Vec::new() };
        } else {
            let s = w.run_sim();
            check(s.is_some() == real.is_some(), "a simulated step sends exactly when the real one does");
            check(s == real.as_ref().map(|x| x.len()), "a simulated message has the real message's length");
            reach("simulated");
        }
        check(w.is_done() == u.is_done(), "the simulated session completes after the same step");
        m = real.unwrap_or_default();
    }
    check(t.a.is_done() && t.b.is_done(), "the simulated session completes");
}
entry!(vf_c16_fg, exact, ["simulated"], shape::<FgIbkeC>(3));
entry!(vf_c16_hmqv, exact, ["simulated"], shape::<IdHmqvC>(3));
entry!(vf_c16_sigdh, exact, ["simulated"], shape::<IdSigDh>(2));
entry!(vf_c16_sigma_e, exact, ["simulated"], shape::<IdSigmaREd25519>(4));
entry!(vf_c16_sigma_d, exact, ["simulated"], shape::<IdSigmaRDilithium2>(4));
