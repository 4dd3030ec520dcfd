from .common import *
V = ('lightsaber', 'saber', 'firesaber')
def main():
    rep = Report('C04', 'proof', 'cargo kani (harness/saber/variant.rs, module cbd), 3 parameter sets',
        ['Kani 0.68.0 translation', 'CBMC 6.11.0 + CaDiCaL', 'rustc MIR', 'core/alloc iterators'],
        [STD_STUBS, 'the SHAKE reader is any reader that fills its buffer from a byte stream (sha3 is external)'],
        functions=['LightSaber::cbd', 'Saber::cbd', 'Firesaber::cbd', 'cbd::load_littleendian', 'cbd::cbd', 'secret_integers ops'],
        explanation='For every stream of 256*mu/8 bytes and every index the coefficient is the difference of the popcounts of the two halves of its mu bits, in [-mu/2, mu/2]; exactly that many bytes are consumed.')
    d = copy_saber(os.path.join(scratch('c04'), 'saber'))
    k = Kani(d)
    names = ['%s::vf::cbd::sampler' % v for v in V]
    kani_report(rep, k, names, lambda h: os.path.join(d, 'src/vf/variant.rs'), expect=names)
    rep.finish()
