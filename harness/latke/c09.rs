//! CAKE
use super::vf_base::*;
use crate::pake::cake::Cake;
entry!(vf_c09_honest, exact, ["honest run completed"], pake_honest::<Cake>(2, [0, 1, 5, 8, 32, 64, 129, 200][choice(8)]));
entry!(vf_c09_alt1, ideal, ["both finished with different keys"], { let (l, h) = [(0, 0), (0, 1), (0, 16), (16, 32), (200, 201), (671, 672), (640, 672)][choice(7)]; pake_altered::<Cake>(2, 1, l, h, 5) });
entry!(vf_c09_alt2, ideal, ["both finished with different keys"], { let (l, h) = [(0, 0), (0, 1), (0, 16), (16, 32), (200, 201), (735, 736), (640, 736)][choice(7)]; pake_altered::<Cake>(2, 2, l, h, 5) });
entry!(vf_c09_mismatch, ideal, ["both finished with different keys"], { let (l1, l2) = [(5, 5), (1, 1), (4, 5), (64, 64), (0, 1), (5, 200)][choice(6)]; pake_mismatch::<Cake>(2, l1, l2) });
/// any bytes of the right size are processed without a panic
entry!(vf_c09_any1, exact, ["done"], {
    let mut t = pake_two::<Cake>(5);
    let n = pake_upto(&mut t, 1).len();
    let m = vec_any(n, "adv");
    let r = t.b.run(&m);
    check(r.is_ok() && t.b.is_done(), "the responder answers any message of the right size");
    t.b.finalize();
    reach("done");
});
entry!(vf_c09_any2, exact, ["done"], {
    let mut t = pake_two::<Cake>(5);
    let n = pake_upto(&mut t, 2).len();
    let m = vec_any(n, "adv");
    let r = t.a.run(&m);
    check(r.is_ok() && t.a.is_done(), "the initiator accepts any message of the right size");
    t.a.finalize();
    reach("done");
});
entry!(vf_c09_early, exact, ["before"], {
    let mut t = pake_two::<Cake>(5);
    let c = choice(3);
    if c == 1 { pake_upto(&mut t, 1); }
    reach("before");
    must_panic(|| { if c == 2 { t.b.finalize(); } else { t.a.finalize(); } }, "no key before the protocol is complete");
});
