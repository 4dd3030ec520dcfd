//! KC-SPAKE2
use super::vf_base::*;
use crate::pake::kc_spake2::KcSpake2;
entry!(vf_c10_honest, exact, ["honest run completed"], pake_honest::<KcSpake2>(3, [0, 1, 5, 8, 32, 64, 129, 200][choice(8)]));
entry!(vf_c10_tag1, exact, ["accepted", "rejected"], pake_tag::<KcSpake2>(2, 33, 65, 5));
entry!(vf_c10_tag0, exact, ["accepted", "rejected"], pake_tag::<KcSpake2>(3, 0, 0, 5));
entry!(vf_c10_len, exact, ["rejected"], {
    let mut t = pake_two::<KcSpake2>(5);
    let m = pake_upto(&mut t, 3);
    let m = [&m[..], &[0]].concat();
    let n = [0, 1, 8, 16, 31, 33][choice(6)];
    check(t.b.run(&m[..n]).is_err() && !t.b.is_done(), "a confirmation of another length is rejected");
    reach("rejected");
    must_panic(|| { t.b.finalize(); }, "no key is output after a rejected confirmation");
});
/// no key before the peer's confirmation was verified, at any earlier point
entry!(vf_c10_early, exact, ["before"], {
    let mut t = pake_two::<KcSpake2>(5);
    let k = choice(4);
    pake_upto(&mut t, k);
    let (da, db) = (t.a.is_done(), t.b.is_done());
    check(!db && (da == (k == 3)), "a party is done only after verifying the peer's confirmation");
    reach("before");
    let initiator = choice(2) == 0;
    if !(initiator && da) {
        must_panic(|| { if initiator { t.a.finalize(); } else { t.b.finalize(); } }, "no key before the peer's confirmation was verified");
    }
});
entry!(vf_c10_mismatch, ideal, ["started"], { let (l1, l2) = [(5, 5), (1, 1), (4, 5), (64, 64), (0, 1), (5, 200)][choice(6)]; never_both::<KcSpake2>(l1, l2) });
entry!(vf_c10_alt, ideal, ["started"], {
    let (k, l, h) = [(1, 0, 0), (1, 1, 33), (2, 0, 0), (2, 1, 33), (2, 33, 65), (3, 0, 0), (2, 33, 34), (2, 64, 65), (3, 31, 32), (3, 0, 1)][choice(10)];
    let mut t = pake_two::<KcSpake2>(5);
    let mut msg = pake_upto(&mut t, k);
    let hi = if h == 0 { msg.len() } else { h };
    let old = msg[l..hi].to_vec();
    overwrite(&mut msg, l, hi, "adv");
    assume(!same(&old, &msg[l..hi]));
    reach("started");
    panic_ok(true);
    finish_never(t, k, msg);
});
fn finish_never<P: Pake>(mut t: TwoP<P>, k: usize, mut msg: Vec<u8>) {
    for i in k..=3 {
        let u = if i % 2 == 0 { &mut t.a } else { &mut t.b };
        match u.run(&msg) { Ok(Some(m)) => msg = m, _ => break }
    }
    check(!(t.a.is_done() && t.b.is_done()), "both parties never complete when their views differ");
}
fn never_both<P: Pake>(l1: usize, l2: usize) {
    let s1: Ssid = arr("ssid");
    let p1 = vec_any(l1, "pw");
    let (s2, p2);
    if choice(2) == 0 { s2 = s1; p2 = if l1 == l2 { other_vec(&p1) } else { vec_any(l2, "pw") }; } else { s2 = other(&s1); p2 = p1.clone(); }
    let a = P::new(VRng, s1, &p1, PartyRole::Initiator);
    let b = P::new(VRng, s2, &p2, PartyRole::Responder);
    reach("started");
    panic_ok(true);
    finish_never(TwoP { a, b }, 0, Vec::new());
}
