//! CPace
use super::vf_base::*;
use crate::pake::cpace::Cpace;
entry!(vf_c11_honest, exact, ["honest run completed"], pake_honest::<Cpace>(2, [0, 1, 4, 5, 8, 32, 64, 100][choice(8)]));
entry!(vf_c11_mismatch, ideal, ["both finished with different keys"], { let (l1, l2) = [(5, 5), (1, 1), (4, 5), (64, 64), (0, 1), (5, 100)][choice(6)]; pake_mismatch::<Cpace>(2, l1, l2) });
entry!(vf_c11_alt1, ideal, ["both finished with different keys"], { let (l, h) = [(0, 0), (0, 16), (16, 48), (0, 1), (15, 16)][choice(5)]; pake_altered::<Cpace>(2, 1, l, h, 5) });
entry!(vf_c11_alt2, ideal, ["both finished with different keys"], pake_altered::<Cpace>(2, 2, 0, 0, 5));
entry!(vf_c11_early, exact, ["before"], {
    let mut t = pake_two::<Cpace>(5);
    let c = choice(3);
    if c == 1 { pake_upto(&mut t, 1); }
    reach("before");
    must_panic(|| { if c == 2 { t.b.finalize(); } else { t.a.finalize(); } }, "no key before the protocol is complete");
});
