//! ID-HMQV-C
use super::vf_base::*;
use crate::ibke::id_hmqv_c::IdHmqvC;
entry!(vf_c13_honest, exact, ["honest run completed"], ibke_honest::<IdHmqvC>(3));
entry!(vf_c13_tag1, exact, ["accepted", "rejected"], ibke_tag::<IdHmqvC>(2, 32, 64));
entry!(vf_c13_tag0, exact, ["accepted", "rejected"], ibke_tag::<IdHmqvC>(3, 0, 0));
entry!(vf_c13_tag0_len, exact, ["rejected"], ibke_tag_len::<IdHmqvC>(3));
entry!(vf_c13_alt1, ideal, ["started"], { let (l, h) = [(0, 32), (32, 64), (64, 96), (96, 160), (0, 0)][choice(5)]; ibke_altered(ibke_two::<IdHmqvC>(), 3, 1, l, h) });
entry!(vf_c13_alt2, ideal, ["started"], { let (l, h) = [(0, 32), (32, 64), (64, 96), (96, 128), (128, 192), (0, 0)][choice(6)]; ibke_altered(ibke_two::<IdHmqvC>(), 3, 2, l, h) });
entry!(vf_c13_mismatch, ideal, ["started"], ibke_mismatch::<IdHmqvC>(3));
entry!(vf_c13_impostor, ideal, ["started"], ibke_impostor::<IdHmqvC>(3, 2, |p| p.compress().as_bytes().to_vec()));
