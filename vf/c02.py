from .common import *
V = ('lightsaber', 'saber', 'firesaber')
def main():
    rep = Report('C02', 'proof', 'cargo kani (harness/saber/variant.rs, module serde), 3 parameter sets',
        ['Kani 0.68.0 translation', 'CBMC 6.11.0 + CaDiCaL', 'rustc MIR', 'core/alloc iterators and Vec'],
        [STD_STUBS, 'round trips use the codec contract of C01 (an inverse pair between 13/10-bit strings and polynomials, checked by C01 on the same tree); the thorough tier repeats them with the real codecs',
         'lengths: every length below 2^40; the bulk copy of an already length-checked slice is replaced by its length assertion'],
        functions=['PublicKey::from_bytes/to_bytes', 'INDCPAPublicKey::from_bytes/to_bytes', 'SecretKey::from_bytes/to_bytes', 'INDCPASecretKey::from_bytes/to_bytes', 'Ciphertext::from_bytes/as_bytes/into_bytes', 'SharedSecret::from_bytes/as_bytes', 'PublicKeyBytes/SecretKeyBytes::from_bytes', 'Vector::from_13bit/read..', 'Vector::from_10bit/read..'],
        explanation='Decode-then-encode is the identity on all byte strings of the exact length, any other length yields BadLength with both lengths; all loops unrolled to their constant bounds with unwinding assertions.')
    d = copy_saber(os.path.join(scratch('c02'), 'saber'))
    k = Kani(d)
    hs = ['pk_roundtrip', 'cpa_pk_roundtrip', 'sk_roundtrip', 'newtypes_keep_bytes', 'lengths']
    names = ['%s::vf::serde::%s' % (v, h) for v in V for h in hs]
    filters = ['vf::serde::' + h for h in hs]
    if TIER == 'quick': pass
    kani_report(rep, k, names, lambda h: os.path.join(d, 'src/vf/variant.rs'), expect=names)
    if TIER == 'thorough' and not rep.violations:
        full = ['%s::vf::serde::full::%s_roundtrip_full' % (v, h) for v in V for h in ('pk', 'cpa_pk', 'sk')]
        kani_report(rep, k, full, lambda h: os.path.join(d, 'src/vf/variant.rs'), expect=full)
    rep.finish()
