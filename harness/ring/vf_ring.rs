// Appended to a copy of the real crate built against the symbolic
// secret_integers stand-in.  Runs the real functions once and prints one
// SMT-LIB obligation per output coefficient: the term the code computes must
// equal the postcondition, for all values of all variables.
use crate::poly::Poly;
use secret_integers::*;
use std::collections::HashMap;
use std::io::Write;

fn var_poly(next: &mut u32) -> Poly {
    let mut p = Poly::default();
    for c in p.coeffs.iter_mut() { *c = vf_var(*next); *next += 1; }
    p
}
fn vars(n: usize) -> Vec<Poly> { let mut k = 0; (0..n).map(|_| var_poly(&mut k)).collect() }
fn v(poly: usize, i: usize) -> String { format!("x{}", 256 * poly + i) }

pub struct Out { f: std::io::BufWriter<std::fs::File>, pub nvars: usize }
impl Out {
    fn new(name: &str, nvars: usize) -> Out {
        let dir = std::env::var("VF_OUT").unwrap();
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/{}.smt2", dir, name)).unwrap());
        writeln!(f, "(set-logic QF_BV)").unwrap();
        for i in 0..nvars { writeln!(f, "(declare-const x{} (_ BitVec 16))", i).unwrap(); }
        Out { f, nvars }
    }
    fn oblige(&mut self, name: &str, got: U16, want: &str) {
        // nodes used more than once in this cone become definitions
        let mut uses: HashMap<u32, u32> = HashMap::new();
        let mut order = vec![];
        let mut st = vec![(got.0, false)];
        while let Some((n, done)) = st.pop() {
            if done { order.push(n); continue; }
            let u = uses.entry(n).or_insert(0);
            *u += 1;
            if *u > 1 { continue; }
            if n >= 65536 { if let Node::Bin(_, x, y) = vf_node(n) { st.push((n, true)); st.push((y, false)); st.push((x, false)); } }
        }
        writeln!(self.f, "(push 1)").unwrap();
        for n in &order {
            if uses[n] > 1 && *n != got.0 { let t = term(*n, &uses, true); writeln!(self.f, "(define-fun n{} () (_ BitVec 16) {})", n, t).unwrap(); }
        }
        let t = term(got.0, &uses, true);
        writeln!(self.f, "(echo \"{}\")(assert (not (= {} {})))(check-sat)(pop 1)", name, t, want).unwrap();
    }
}
fn term(root: u32, uses: &HashMap<u32, u32>, _top: bool) -> String {
    enum W { N(u32, bool), S(&'static str) }
    let mut o = String::new();
    let mut st = vec![W::N(root, true)];
    while let Some(w) = st.pop() {
        match w {
            W::S(s) => o.push_str(s),
            W::N(n, top) => {
                if !top && n >= 65536 && uses.get(&n).map_or(false, |u| *u > 1) { if let Node::Bin(..) = vf_node(n) { o.push_str(&format!("n{}", n)); continue; } }
                match vf_node(n) {
                    Node::Const(c) => o.push_str(&format!("#x{:04x}", c)),
                    Node::Var(k) => o.push_str(&format!("x{}", k)),
                    Node::Bin(op, x, y) => {
                        o.push_str(match op { Op::Add => "(bvadd ", Op::Sub => "(bvsub ", Op::Mul => "(bvmul ", Op::And => "(bvand ", Op::Or => "(bvor ", Op::Xor => "(bvxor ", Op::Shl => "(bvshl ", Op::Shr => "(bvlshr " });
                        st.push(W::S(")")); st.push(W::N(y, false)); st.push(W::S(" ")); st.push(W::N(x, false));
                    }
                }
            }
        }
    }
    o
}
// coefficient k of the negacyclic product sum over pairs of polynomials
fn spec(pairs: &[(usize, usize)], k: usize) -> String {
    let mut s = String::from("(bvadd #x0000");
    for &(a, b) in pairs {
        for i in 0..256 {
            if i <= k { s += &format!(" (bvmul {} {})", v(a, i), v(b, k - i)); }
            else { s += &format!(" (bvneg (bvmul {} {}))", v(a, i), v(b, 256 + k - i)); }
        }
    }
    s + ")"
}

#[test] fn poly_ops() {
    let p = vars(3);
    let c = U16::from(0u16) + vf_var(768);
    let mut o = Out::new("poly_ops", 769);
    let (sum, dif, sc, ssc, prod) = (p[0] + p[1], p[0] - p[1], p[0] + c, p[0] - c, p[0] * p[1]);
    for k in 0..256 {
        o.oblige(&format!("Poly::add coefficient {}", k), sum.coeffs[k], &format!("(bvadd {} {})", v(0, k), v(1, k)));
        o.oblige(&format!("Poly::sub coefficient {}", k), dif.coeffs[k], &format!("(bvsub {} {})", v(0, k), v(1, k)));
        o.oblige(&format!("Poly::add scalar coefficient {}", k), sc.coeffs[k], &format!("(bvadd {} x768)", v(0, k)));
        o.oblige(&format!("Poly::sub scalar coefficient {}", k), ssc.coeffs[k], &format!("(bvsub {} x768)", v(0, k)));
        o.oblige(&format!("Poly::mul coefficient {}", k), prod.coeffs[k], &spec(&[(0, 1)], k));
    }
    let d = Poly::default();
    for s in 0..16u32 {
        let (l, r, m) = (p[0] << s, p[0] >> s, p[0].reduce(1 << s));
        for k in 0..256 {
            o.oblige(&format!("Poly::shl {} coefficient {}", s, k), l.coeffs[k], &format!("(bvshl {} #x{:04x})", v(0, k), s));
            o.oblige(&format!("Poly::shr {} coefficient {}", s, k), r.coeffs[k], &format!("(bvlshr {} #x{:04x})", v(0, k), s));
            o.oblige(&format!("Poly::reduce 2^{} coefficient {}", s, k), m.coeffs[k], &format!("(bvurem {} #x{:04x})", v(0, k), 1u32 << s));
        }
    }
    for k in 0..256 { o.oblige(&format!("Poly::default coefficient {}", k), d.coeffs[k], "#x0000"); }
}

pub(crate) fn linear<I: crate::generic::SaberImpl>(name: &str) {
    use crate::generic::{Matrix, Vector};
    let kk = I::K;
    // variables: vector s = polys 0..K, vector t = K..2K, matrix row i column j = 2K + i*K + j
    let p = vars(2 * kk + kk * kk);
    let nv = 256 * (2 * kk + kk * kk) + 1;
    let cst = vf_var((nv - 1) as u32);
    let mut s = I::Vector::default();
    let mut t = I::Vector::default();
    assert!(s.polys().len() == kk, "K polynomials");
    for j in 0..kk { s.polys_mut()[j] = p[j]; t.polys_mut()[j] = p[kk + j]; }
    let mut m = I::Matrix::default();
    assert!(m.vecs().len() == kk, "K rows");
    for i in 0..kk { for j in 0..kk { m.vecs_mut()[i].polys_mut()[j] = p[2 * kk + i * kk + j]; } }
    let mut o = Out::new(&format!("{}_vec", name), nv);
    let inner = s.clone().mul(&t);
    let sum = s.clone().add_vec(&t);
    let (plus, sh) = (s.clone().add_u16(cst), s.clone().shr(3));
    for k in 0..256 {
        let pairs: Vec<_> = (0..kk).map(|j| (j, kk + j)).collect();
        o.oblige(&format!("Vector::mul coefficient {}", k), inner.coeffs[k], &spec(&pairs, k));
        for j in 0..kk {
            o.oblige(&format!("Vector::add_vec [{}] coefficient {}", j, k), sum.polys()[j].coeffs[k], &format!("(bvadd {} {})", v(j, k), v(kk + j, k)));
            o.oblige(&format!("Vector::add_u16 [{}] coefficient {}", j, k), plus.polys()[j].coeffs[k], &format!("(bvadd {} x{})", v(j, k), nv - 1));
            o.oblige(&format!("Vector::shr [{}] coefficient {}", j, k), sh.polys()[j].coeffs[k], &format!("(bvlshr {} #x0003)", v(j, k)));
        }
    }
    let mut r = [m.clone().mul(&s), m.mul_transpose(&s)];
    for tr in 0..2 {
        for i in 0..kk {
            let mut o = Out::new(&format!("{}_mat{}_{}", name, tr, i), nv);
            let pairs: Vec<_> = (0..kk).map(|j| (if tr == 0 { 2 * kk + i * kk + j } else { 2 * kk + j * kk + i }, j)).collect();
            for k in 0..256 {
                let n = format!("Matrix::{} row {} coefficient {}", if tr == 0 { "mul" } else { "mul_transpose" }, i, k);
                let g = r[tr].polys_mut()[i].coeffs[k];
                o.oblige(&n, g, &spec(&pairs, k));
            }
        }
    }
}
