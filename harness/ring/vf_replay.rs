// Native replay of a failed ring obligation on the real crate (real
// secret_integers): values from VF_MODEL (x0,x1,...) or random ones.
use crate::poly::Poly;
use secret_integers::*;
fn values(n: usize, round: u64) -> Vec<u16> {
    if round == 0 {
        if let Ok(m) = std::env::var("VF_MODEL") {
            let mut r: Vec<u16> = std::fs::read_to_string(m).unwrap().split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
            r.resize(n, 0);
            return r;
        }
    }
    let mut s = 0x9E3779B97F4A7C15u64.wrapping_mul(round + 1);
    (0..n).map(|_| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 20) as u16 }).collect()
}
fn poly(v: &[u16]) -> Poly { let mut p = Poly::default(); for (c, x) in p.coeffs.iter_mut().zip(v) { *c = U16::from(*x); } p }
fn plain(p: &Poly) -> Vec<u16> { p.coeffs.iter().map(|c| c.declassify()).collect() }
fn mul(pairs: &[(&[u16], &[u16])]) -> Vec<u16> {
    let mut c = vec![0u16; 256];
    for (a, b) in pairs { for i in 0..256 { for j in 0..256 {
        let t = a[i].wrapping_mul(b[j]);
        if i + j < 256 { c[i + j] = c[i + j].wrapping_add(t); } else { c[i + j - 256] = c[i + j - 256].wrapping_sub(t); }
    } } }
    c
}
fn same(what: &str, got: &Poly, want: Vec<u16>, v: &[u16]) {
    let g = plain(got);
    for k in 0..256 { assert!(g[k] == want[k], "{} coefficient {}: got {} want {} for x = {:?}", what, k, g[k], want[k], &v[..v.len().min(768)]); }
}
#[test] fn vfreplay_poly() {
    for round in 0..4 {
        let v = values(769, round);
        let (a, b, c) = (&v[..256], &v[256..512], v[768]);
        let (p, q) = (poly(a), poly(b));
        let z = |f: &dyn Fn(u16, u16) -> u16| -> Vec<u16> { (0..256).map(|i| f(a[i], b[i])).collect() };
        same("add", &(p + q), z(&|x, y| x.wrapping_add(y)), &v);
        same("sub", &(p - q), z(&|x, y| x.wrapping_sub(y)), &v);
        same("add scalar", &(p + U16::from(c)), z(&|x, _| x.wrapping_add(c)), &v);
        same("sub scalar", &(p - U16::from(c)), z(&|x, _| x.wrapping_sub(c)), &v);
        same("mul", &(p * q), mul(&[(a, b)]), &v);
        for s in 0..16u32 {
            same("shl", &(p << s), z(&|x, _| x << s), &v);
            same("shr", &(p >> s), z(&|x, _| x >> s), &v);
            same("reduce", &p.reduce(1 << s), z(&|x, _| x % (1 << s)), &v);
        }
        same("default", &Poly::default(), vec![0; 256], &v);
    }
}
pub(crate) fn linear<I: crate::generic::SaberImpl>() {
    use crate::generic::{Matrix, Vector};
    let kk = I::K;
    let n = 256 * (2 * kk + kk * kk) + 1;
    for round in 0..4 {
        let v = values(n, round);
        let p = |k: usize| &v[256 * k..256 * k + 256];
        let cst = v[n - 1];
        let (mut s, mut t, mut m) = (I::Vector::default(), I::Vector::default(), I::Matrix::default());
        for j in 0..kk { s.polys_mut()[j] = poly(p(j)); t.polys_mut()[j] = poly(p(kk + j)); }
        for i in 0..kk { for j in 0..kk { m.vecs_mut()[i].polys_mut()[j] = poly(p(2 * kk + i * kk + j)); } }
        same("Vector::mul", &s.clone().mul(&t), mul(&(0..kk).map(|j| (p(j), p(kk + j))).collect::<Vec<_>>()), &v);
        for j in 0..kk {
            same("add_vec", &s.clone().add_vec(&t).polys()[j], (0..256).map(|i| p(j)[i].wrapping_add(p(kk + j)[i])).collect(), &v);
            same("add_u16", &s.clone().add_u16(U16::from(cst)).polys()[j], (0..256).map(|i| p(j)[i].wrapping_add(cst)).collect(), &v);
            same("shr", &s.clone().shr(3).polys()[j], (0..256).map(|i| p(j)[i] >> 3).collect(), &v);
        }
        let (r, rt) = (m.clone().mul(&s), m.mul_transpose(&s));
        for i in 0..kk {
            same("Matrix::mul", &r.polys()[i], mul(&(0..kk).map(|j| (p(2 * kk + i * kk + j), p(j))).collect::<Vec<_>>()), &v);
            same("Matrix::mul_transpose", &rt.polys()[i], mul(&(0..kk).map(|j| (p(2 * kk + j * kk + i), p(j))).collect::<Vec<_>>()), &v);
        }
    }
}
