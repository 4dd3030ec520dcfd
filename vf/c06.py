from .common import *
V = ('lightsaber', 'saber', 'firesaber')
def main():
    rep = Report('C06', 'proof', 'cargo kani (harness/kem/variant.rs), 3 parameter sets',
        ['Kani 0.68.0 translation', 'CBMC 6.11.0 + CaDiCaL', 'rustc MIR', 'core iterators'],
        [STD_STUBS, 'SHA3-256/512 are unknown functions (functional consistency only)', 'the system RNG returns any bytes',
         'the IND-CPA layer enters by its contract: encryption is a deterministic function of (message, coins, key), decryption inverts it (the decryption-failure probability of honest keys is a design parameter, bounded by C05)',
         'collisions of SHA3 are possible in the model, so "never the honest secret" means: the hash of different input'],
        functions=['generic::encapsulate', 'generic::decapsulate', 'generic::keygen', 'generic::bytes_eq_mask', 'generic::u8_eq_mask', 'non_generic keygen/encapsulate/decapsulate'],
        explanation='All keys, all messages, all ciphertext byte strings of the right length; every loop is bounded by the constant ciphertext length and fully unrolled with unwinding assertions.')
    s = scratch('c06')
    d = copy_kem(s)
    k = Kani(d)
    names = ['%s::vf::%s' % (v, h) for v in V for h in (('keygen_spec', 'encaps_spec', 'eq_mask', 'decaps_spec') if TIER == 'quick' else ('keygen_spec', 'encaps_spec', 'eq_mask', 'decaps_spec', 'agree'))]
    kani_report(rep, k, names, lambda h: os.path.join(d, 'src/vf/variant.rs'), expect=names,
        playback=lambda h: native_saber(s, [os.path.join(VERIF, 'harness/kem/replay.rs')], 'vfreplay_kem'))
    rep.finish()
