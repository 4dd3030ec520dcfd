//! FG-IBKE
use super::vf_base::*;
use crate::ibke::fg_ibke::FgIbkeC;
entry!(vf_c12_honest, exact, ["honest run completed"], ibke_honest::<FgIbkeC>(3));
entry!(vf_c12_tag1, exact, ["accepted", "rejected"], ibke_tag::<FgIbkeC>(2, 96, 128));
entry!(vf_c12_tag0, exact, ["accepted", "rejected"], ibke_tag::<FgIbkeC>(3, 0, 0));
entry!(vf_c12_tag0_len, exact, ["rejected"], ibke_tag_len::<FgIbkeC>(3));
entry!(vf_c12_alt1, ideal, ["started"], { let (l, h) = [(0, 32), (32, 64), (64, 96), (0, 0), (31, 32), (0, 1)][choice(6)]; ibke_altered(ibke_two::<FgIbkeC>(), 3, 1, l, h) });
entry!(vf_c12_alt2, ideal, ["started"], { let (l, h) = [(0, 32), (32, 64), (64, 96), (96, 128), (0, 96), (0, 0), (31, 32), (0, 1)][choice(8)]; ibke_altered(ibke_two::<FgIbkeC>(), 3, 2, l, h) });
entry!(vf_c12_alt3, ideal, ["started"], { let (l, h) = [(0, 0), (0, 1), (31, 32), (16, 32)][choice(4)]; ibke_altered(ibke_two::<FgIbkeC>(), 3, 3, l, h) });
entry!(vf_c12_mismatch, ideal, ["started"], ibke_mismatch::<FgIbkeC>(3));
entry!(vf_c12_impostor, ideal, ["started"], ibke_impostor::<FgIbkeC>(3, 1, |_| Vec::new()));
