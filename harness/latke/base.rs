//! Shared driver of the harness: an arbitrary random source, arbitrary
//! identities and session ids, and the honest message loop.
#![allow(dead_code, unused_macros, unused_imports)]
/// entry!(name, exact | ideal, [labels that must be reached], body)
macro_rules! entry {
    ($n:ident, $mode:ident, [$($l:literal),*], $b:expr) => {
        #[cfg(not(vf_native))]
        #[no_mangle]
        pub extern "C" fn $n() { $b }
        #[cfg(vf_native)]
        pub fn $n() { $b }
    };
}
pub(crate) use entry;
pub(crate) use crate::{AsBytes, Id, IdCertificate, IdentityBasedKeyExchange, Pake, PartyRole, SessKey, Ssid};
use rand_core::{CryptoRng, Error, RngCore};
pub(crate) use vfsys::{any, arr, assume, check, choice, panic_ok, reach, same};

/// every byte it returns is arbitrary
pub(crate) struct VRng;
impl RngCore for VRng {
    fn next_u32(&mut self) -> u32 { u32::from_le_bytes(arr("rng")) }
    fn next_u64(&mut self) -> u64 { u64::from_le_bytes(arr("rng")) }
    fn fill_bytes(&mut self, d: &mut [u8]) { any(d, "rng") }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { any(d, "rng"); Ok(()) }
}
impl CryptoRng for VRng {}

pub(crate) fn vec_any(n: usize, tag: &str) -> Vec<u8> { let mut v = vec![0u8; n]; any(&mut v, tag); v }
/// another string of the same length: arbitrary, or differing only in one byte or part
pub(crate) fn other_vec(x: &[u8]) -> Vec<u8> {
    let mut y = x.to_vec();
    let n = x.len();
    let (l, h) = if n < 2 { (0, n) } else { [(0, n), (0, 1), (n - 1, n), (n / 2, n / 2 + 1), (1, n)][choice(5)] };
    overwrite(&mut y, l, h, "adv");
    assume(!same(x, &y));
    y
}
pub(crate) fn other<const N: usize>(x: &[u8; N]) -> [u8; N] { let mut o = [0u8; N]; o.copy_from_slice(&other_vec(x)); o }
pub(crate) fn overwrite(m: &mut [u8], lo: usize, hi: usize, tag: &str) { any(&mut m[lo..hi], tag) }

pub(crate) struct Two<I> { pub a: I, pub b: I, pub ida: Id, pub idb: Id }
/// two users certified by one authority, about to run one session
pub(crate) fn ibke_two<I: IdentityBasedKeyExchange>() -> Two<I> {
    let mut rng = VRng;
    let (mpk, msk) = I::gen_main_keypair(&mut rng);
    let ida: Id = arr("ida");
    let idb: Id = arr("idb");
    let (upka, uska) = I::gen_user_keypair(&mut rng);
    let (upkb, uskb) = I::gen_user_keypair(&mut rng);
    let ca = I::extract(&mut rng, &msk, &ida, &upka);
    let cb = I::extract(&mut rng, &msk, &idb, &upkb);
    check(same(&ca.id(), &ida), "a certificate names the identity it was extracted for");
    let ssid: Ssid = arr("ssid");
    let a = I::new_session(&mut rng, ssid, mpk.clone(), ca, uska, PartyRole::Initiator);
    let b = I::new_session(&mut rng, ssid, mpk, cb, uskb, PartyRole::Responder);
    Two { a, b, ida, idb }
}
/// the honest run: `steps` messages are sent, then nothing
pub(crate) fn ibke_honest<I: IdentityBasedKeyExchange>(steps: usize) {
    let Two { mut a, mut b, ida, idb } = ibke_two::<I>();
    let mut rng = VRng;
    let mut msg = Vec::new();
    let mut sent = 0;
    for k in 0..=steps {
        let u = if k % 2 == 0 { &mut a } else { &mut b };
        check(!u.is_done() , "a party is not done before its last step");
        match u.run(&mut rng, &msg) {
            Ok(Some(m)) => { sent += 1; check(k < steps, "no message beyond the documented ones"); msg = m; }
            Ok(None) => { check(k == steps, "every documented message is sent"); }
            Err(_) => { check(false, "an honest step never fails"); return; }
        }
    }
    check(sent == steps, "the documented number of messages is sent");
    check(a.is_done() && b.is_done(), "both parties are done after the last message");
    let (ia, ka) = a.finalize();
    let (ib, kb) = b.finalize();
    check(same(&ka, &kb), "both parties derive the same session key");
    check(same(&ia, &idb), "the initiator learns the responder's identity");
    check(same(&ib, &ida), "the responder learns the initiator's identity");
    reach("honest run completed");
}

/// two messages made from independent randomness differ
pub(crate) fn distinct(a: &[u8], b: &[u8]) { let n = a.len().min(b.len()); if n >= 32 { assume(!same(&a[..n], &b[..n])); } }
pub(crate) struct TwoP<P> { pub a: P, pub b: P }
pub(crate) fn pake_two<P: Pake>(pwlen: usize) -> TwoP<P> {
    let ssid: Ssid = arr("ssid");
    let pw = vec_any(pwlen, "pw");
    let a = P::new(VRng, ssid, &pw, PartyRole::Initiator);
    let b = P::new(VRng, ssid, &pw, PartyRole::Responder);
    TwoP { a, b }
}
pub(crate) fn pake_honest<P: Pake>(steps: usize, pwlen: usize) {
    let TwoP { mut a, mut b } = pake_two::<P>(pwlen);
    let mut msg = Vec::new();
    let mut sent = 0;
    for k in 0..=steps {
        let u = if k % 2 == 0 { &mut a } else { &mut b };
        check(!u.is_done(), "a party is not done before its last step");
        match u.run(&msg) {
            Ok(Some(m)) => { sent += 1; check(k < steps, "no message beyond the documented ones"); if k == 1 { distinct(&msg, &m); } msg = m; }
            Ok(None) => check(k == steps, "every documented message is sent"),
            Err(_) => { check(false, "an honest step never fails"); return; }
        }
    }
    check(sent == steps, "the documented number of messages is sent");
    check(a.is_done() && b.is_done(), "both parties are done after the last message");
    check(same(&a.finalize(), &b.finalize()), "both parties output the same key");
    reach("honest run completed");
}

// ------------------------------------------------------------------ pieces of runs
/// honest messages up to and including message number k (1 = the first)
pub(crate) fn ibke_upto<I: IdentityBasedKeyExchange>(t: &mut Two<I>, k: usize) -> Vec<u8> {
    let mut msg = Vec::new();
    for i in 0..k {
        let u = if i % 2 == 0 { &mut t.a } else { &mut t.b };
        msg = match u.run(VRng, &msg) { Ok(Some(m)) => m, _ => { check(false, "an honest step sends its message"); Vec::new() } };
    }
    msg
}
pub(crate) fn pake_upto<P: Pake>(t: &mut TwoP<P>, k: usize) -> Vec<u8> {
    let mut msg = Vec::new();
    for i in 0..k {
        let u = if i % 2 == 0 { &mut t.a } else { &mut t.b };
        let m = match u.run(&msg) { Ok(Some(m)) => m, _ => { check(false, "an honest step sends its message"); Vec::new() } };
        if i == 1 { distinct(&msg, &m); }
        msg = m;
    }
    msg
}
/// message k is delivered with bytes lo..hi replaced; the run then goes on
/// honestly: it is rejected (error or panic), or the two keys differ
pub(crate) fn ibke_altered<I: IdentityBasedKeyExchange>(mut t: Two<I>, steps: usize, k: usize, lo: usize, hi: usize) {
    let mut msg = ibke_upto(&mut t, k);
    let hi = if hi == 0 { msg.len() } else { hi };
    let old = msg[lo..hi].to_vec();
    overwrite(&mut msg, lo, hi, "adv");
    assume(!same(&old, &msg[lo..hi]));
    ibke_finish_differs(t, steps, k, msg);
}
pub(crate) fn ibke_finish_differs<I: IdentityBasedKeyExchange>(t: Two<I>, steps: usize, k: usize, mut msg: Vec<u8>) {
    let Two { mut a, mut b, .. } = t;
    panic_ok(true);
    reach("started");
    for i in k..=steps {
        let u = if i % 2 == 0 { &mut a } else { &mut b };
        let was = u.is_done();
        match u.run(VRng, &msg) {
            Ok(Some(m)) => msg = m,
            Ok(None) => break,
            Err(_) => { check(was || !u.is_done(), "a step that fails does not complete the session"); return; }
        }
    }
    if a.is_done() && b.is_done() {
        let (_, ka) = a.finalize();
        let (_, kb) = b.finalize();
        check(!same(&ka, &kb), "parties that saw different sessions do not share a key");
    }
}
/// the confirmation tag at lo..hi of message k is replaced by arbitrary bytes:
/// the step succeeds only if they equal the real tag, else it fails and the
/// session is not complete
pub(crate) fn ibke_tag<I: IdentityBasedKeyExchange>(k: usize, lo: usize, hi: usize) {
    let mut t = ibke_two::<I>();
    let mut msg = ibke_upto(&mut t, k);
    let hi = if hi == 0 { msg.len() } else { hi };
    let real = msg[lo..hi].to_vec();
    overwrite(&mut msg, lo, hi, "adv");
    let u = if k % 2 == 0 { &mut t.a } else { &mut t.b };
    match u.run(VRng, &msg) {
        Ok(_) => { check(same(&real, &msg[lo..hi]), "only the expected confirmation tag is accepted"); reach("accepted"); }
        Err(_) => { check(!same(&real, &msg[lo..hi]), "the expected tag is not rejected"); check(!u.is_done(), "a rejected confirmation leaves the session incomplete"); reach("rejected"); }
    }
}
/// a confirmation message of any other length is rejected
pub(crate) fn ibke_tag_len<I: IdentityBasedKeyExchange>(k: usize) {
    let mut t = ibke_two::<I>();
    let msg = ibke_upto(&mut t, k);
    let n = [0usize, 1, 8, 16, 31][choice(5)];
    let u = if k % 2 == 0 { &mut t.a } else { &mut t.b };
    let r = u.run(VRng, &msg[..n]);
    check(r.is_err() && !u.is_done(), "a truncated confirmation is rejected");
    reach("rejected");
}
pub(crate) fn pake_tag<P: Pake>(k: usize, lo: usize, hi: usize, pwlen: usize) {
    let mut t = pake_two::<P>(pwlen);
    let mut msg = pake_upto(&mut t, k);
    let hi = if hi == 0 { msg.len() } else { hi };
    let real = msg[lo..hi].to_vec();
    overwrite(&mut msg, lo, hi, "adv");
    let u = if k % 2 == 0 { &mut t.a } else { &mut t.b };
    match u.run(&msg) {
        Ok(_) => { check(same(&real, &msg[lo..hi]), "only the expected confirmation tag is accepted"); reach("accepted"); }
        Err(_) => {
            check(!same(&real, &msg[lo..hi]), "the expected tag is not rejected");
            check(!u.is_done(), "a rejected confirmation leaves the session incomplete");
            reach("rejected");
            must_panic(|| { u.finalize(); }, "no key is output after a rejected confirmation");
        }
    }
}
/// f must not return
pub(crate) fn must_panic<F: FnOnce()>(f: F, what: &str) { panic_ok(true); f(); check(false, what); }

pub(crate) fn pake_finish_differs<P: Pake>(t: TwoP<P>, steps: usize, k: usize, mut msg: Vec<u8>) {
    let TwoP { mut a, mut b } = t;
    panic_ok(true);
    reach("started");
    for i in k..=steps {
        let u = if i % 2 == 0 { &mut a } else { &mut b };
        let was = u.is_done();
        match u.run(&msg) {
            Ok(Some(m)) => msg = m,
            Ok(None) => break,
            Err(_) => { check(was || !u.is_done(), "a step that fails does not complete the session"); return; }
        }
    }
    if a.is_done() && b.is_done() {
        check(!same(&a.finalize(), &b.finalize()), "parties that saw different sessions do not share a key");
        reach("both finished with different keys");
    }
}
pub(crate) fn pake_altered<P: Pake>(steps: usize, k: usize, lo: usize, hi: usize, pwlen: usize) {
    let mut t = pake_two::<P>(pwlen);
    let mut msg = pake_upto(&mut t, k);
    let hi = if hi == 0 { msg.len() } else { hi };
    let old = msg[lo..hi].to_vec();
    overwrite(&mut msg, lo, hi, "adv");
    assume(!same(&old, &msg[lo..hi]));
    pake_finish_differs(t, steps, k, msg);
}
/// different passwords (of possibly different lengths) or different session ids
pub(crate) fn pake_mismatch<P: Pake>(steps: usize, l1: usize, l2: usize) {
    let s1: Ssid = arr("ssid");
    let (s2, p1, p2);
    if choice(2) == 0 {
        s2 = s1; p1 = vec_any(l1, "pw"); p2 = if l1 == l2 { other_vec(&p1) } else { vec_any(l2, "pw") };
    } else {
        s2 = other(&s1); p1 = vec_any(l1, "pw"); p2 = p1.clone();
    }
    let a = P::new(VRng, s1, &p1, PartyRole::Initiator);
    let b = P::new(VRng, s2, &p2, PartyRole::Responder);
    pake_finish_differs(TwoP { a, b }, steps, 0, Vec::new());
}
/// two users of one authority in sessions with different ids
pub(crate) fn ibke_mismatch<I: IdentityBasedKeyExchange>(steps: usize) {
    let mut rng = VRng;
    let (mpk1, msk1) = I::gen_main_keypair(&mut rng);
    let (mpk2, msk2) = I::gen_main_keypair(&mut rng);
    assume(!same(mpk1.as_bytes(), mpk2.as_bytes()));
    let ida: Id = arr("ida");
    let idb: Id = arr("idb");
    let (upka, uska) = I::gen_user_keypair(&mut rng);
    let (upkb, uskb) = I::gen_user_keypair(&mut rng);
    let s1: Ssid = arr("ssid");
    let case = choice(3);
    let ca = I::extract(&mut rng, &msk1, &ida, &upka);
    // 0: another session id   1: the responder belongs to another authority
    // 2: the responder only holds a certificate of another authority
    let s2: Ssid = if case == 0 { other(&s1) } else { s1 };
    let cb = I::extract(&mut rng, if case == 0 { &msk1 } else { &msk2 }, &idb, &upkb);
    let a = I::new_session(&mut rng, s1, mpk1.clone(), ca, uska, PartyRole::Initiator);
    let b = I::new_session(&mut rng, s2, if case == 1 { mpk2 } else { mpk1 }, cb, uskb, PartyRole::Responder);
    ibke_finish_differs(Two { a, b, ida, idb }, steps, 0, Vec::new());
}

/// one party holds a certificate of another authority (kind 0), or the secret
/// key of another certificate (kind 1): its honest peer does not complete
pub(crate) fn ibke_impostor<I: IdentityBasedKeyExchange>(steps: usize, kinds: usize, pkb: fn(&I::UserPubkey) -> Vec<u8>) {
    let mut rng = VRng;
    let (mpk1, msk1) = I::gen_main_keypair(&mut rng);
    let (mpk2, msk2) = I::gen_main_keypair(&mut rng);
    assume(!same(mpk1.as_bytes(), mpk2.as_bytes()));
    let (upka, uska) = I::gen_user_keypair(&mut rng);
    let (upkb, uskb) = I::gen_user_keypair(&mut rng);
    let (kind, bad_a) = (choice(kinds), choice(2) == 0);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ca = I::extract(&mut rng, if kind == 0 && bad_a { &msk2 } else { &msk1 }, &ida, &upka);
    let cb = I::extract(&mut rng, if kind == 0 && !bad_a { &msk2 } else { &msk1 }, &idb, &upkb);
    let (mut uska, mut uskb) = (uska, uskb);
    if kind == 1 {
        let (opk, other) = I::gen_user_keypair(&mut rng);
        assume(!same(&pkb(&opk), &pkb(if bad_a { &upka } else { &upkb })));
        if bad_a { uska = other } else { uskb = other }
    }
    let ssid: Ssid = arr("ssid");
    let a = I::new_session(&mut rng, ssid, mpk1.clone(), ca, uska, PartyRole::Initiator);
    let b = I::new_session(&mut rng, ssid, mpk1, cb, uskb, PartyRole::Responder);
    ibke_unaccepted(a, b, steps, bad_a);
}
pub(crate) fn ibke_unaccepted<I: IdentityBasedKeyExchange>(mut a: I, mut b: I, steps: usize, bad_a: bool) {
    let mut msg = Vec::new();
    reach("started");
    panic_ok(true);
    for i in 0..=steps {
        let u = if i % 2 == 0 { &mut a } else { &mut b };
        match u.run(VRng, &msg) { Ok(Some(m)) => msg = m, _ => break }
    }
    check(!if bad_a { b.is_done() } else { a.is_done() }, "a party facing an impostor does not complete");
}

// ------------------------------------------------------------------ contract protocols
/// Any PAKE that meets the Pake contract: N messages of arbitrary bytes, the
/// sender of the last one and then its receiver finish, and the key is an
/// unknown function of session id and password only.
pub(crate) struct GPake<const N: usize> { key: SessKey, next: usize, done: bool, last: bool }
impl<const N: usize> Pake for GPake<N> {
    type Error = ();
    fn new<R: RngCore + CryptoRng>(_: R, ssid: Ssid, password: &[u8], role: PartyRole) -> Self {
        let mut key = [0u8; 32];
        vfsys::uf("gpake-key", &[&ssid[..], password].concat(), &mut key);
        GPake { key, next: if role == PartyRole::Initiator { 0 } else { 1 }, done: false, last: false }
    }
    fn run(&mut self, msg: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        check(!self.done, "a PAKE is not run after it is done");
        check((self.next == 0) == msg.is_empty(), "each PAKE step gets the peer's message");
        if self.next > 0 { check(msg.len() == 20 + self.next, "the PAKE gets the message of the step before"); }
        let k = self.next;
        self.next += 2;
        if k + 1 >= N { self.done = true; }
        if k < N { Ok(Some(vec_any(21 + k, "pakemsg"))) } else { Ok(None) }
    }
    fn is_done(&self) -> bool { self.done }
    fn finalize(&self) -> SessKey { if !self.done { panic!("not done") }; self.key }
}
/// Any identity-based key exchange with N messages: arbitrary message bytes that
/// begin with the sender's identity; the key is an unknown function of the
/// session id, the main public key and every message sent and received, in order.
#[derive(Clone)]
pub(crate) struct GCert(pub Id);
impl IdCertificate for GCert { fn id(&self) -> Id { self.0 } }
#[derive(Clone)]
pub(crate) struct GMpk(pub [u8; 32]);
impl AsBytes for GMpk { fn as_bytes(&self) -> &[u8] { &self.0 } }
pub(crate) struct GIbke<const N: usize> { log: Vec<u8>, id: Id, peer: Option<Id>, next: usize, done: bool, simulated: bool }
impl<const N: usize> GIbke<N> { pub(crate) fn len(k: usize) -> usize { 40 + 3 * k } }
impl<const N: usize> IdentityBasedKeyExchange for GIbke<N> {
    type MainPubkey = GMpk;
    type MainPrivkey = GMpk;
    type UserPubkey = ();
    type UserPrivkey = ();
    type Certificate = GCert;
    type Error = ();
    fn gen_main_keypair<R: RngCore + CryptoRng>(mut rng: R) -> (GMpk, GMpk) {
        let mut s = [0u8; 32];
        rng.fill_bytes(&mut s);
        let mut p = [0u8; 32];
        vfsys::uf("gibke-mpk", &s, &mut p);
        (GMpk(p), GMpk(s))
    }
    fn gen_user_keypair<R: RngCore + CryptoRng>(_: R) -> ((), ()) { ((), ()) }
    fn extract<R: RngCore + CryptoRng>(_: R, _: &GMpk, id: &Id, _: &()) -> GCert { GCert(*id) }
    fn new_session<R: RngCore + CryptoRng>(_: R, ssid: Ssid, mpk: GMpk, cert: GCert, _: (), role: PartyRole) -> Self {
        GIbke { log: [&ssid[..], &mpk.0[..]].concat(), id: cert.0, peer: None, next: if role == PartyRole::Initiator { 0 } else { 1 }, done: false, simulated: false }
    }
    fn run<R: RngCore + CryptoRng>(&mut self, _: R, msg: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        check(!self.simulated, "a simulated session is not run for real");
        check(self.next <= N, "no step after the last one");
        let k = self.next;
        if k == 0 { check(msg.is_empty(), "the first step gets no message"); } else {
            check(msg.len() == Self::len(k - 1), "each step gets the message of the step before");
            let mut p = [0u8; 32];
            p.copy_from_slice(&msg[..32]);
            self.peer = Some(p);
            self.log.extend_from_slice(msg);
        }
        self.next += 2;
        if k + 1 >= N { self.done = true; }
        if k < N {
            let m = [&self.id[..], &vec_any(Self::len(k) - 32, "ibkemsg")].concat();
            self.log.extend_from_slice(&m);
            Ok(Some(m))
        } else { Ok(None) }
    }
    fn run_sim(&mut self) -> Option<usize> {
        check(self.next <= N, "no step after the last one");
        self.simulated = true;
        let k = self.next;
        self.next += 2;
        if k + 1 >= N { self.done = true; }
        if k < N { Some(Self::len(k)) } else { None }
    }
    fn is_done(&self) -> bool { self.done }
    fn finalize(&self) -> (Id, SessKey) {
        let mut key = [0u8; 32];
        vfsys::uf("gibke-key", &self.log, &mut key);
        (self.peer.unwrap(), key)
    }
}
