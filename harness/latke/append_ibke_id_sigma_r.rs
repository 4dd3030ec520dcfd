
/// (harness) the same certificate naming another identity
#[allow(dead_code)]
pub(crate) fn vf_cert_with_id(c: &SigmaCert, id: Id) -> SigmaCert { let mut c = c.clone(); c.id = id; c }
