from .common import *
V = ('lightsaber', 'saber', 'firesaber')
def main():
    rep = Report('C05', 'proof', 'cargo kani (harness/saber/variant.rs, module recon), 3 parameter sets',
        ['Kani 0.68.0 translation', 'CBMC 6.11.0 + CaDiCaL', 'rustc MIR', 'core/alloc iterators'], [STD_STUBS],
        functions=['generic::recon_data_gen', 'generic::recon', 'Poly::read_bytes_{3,4,6}bit', 'Poly::from_bytes_{3,4,6}bit', 'Poly shifts/add/sub'],
        explanation='Contracts of recon_data_gen and recon over all inputs, plus the lemma that both together decode the message bit whenever the two sides differ by less than p/4 - p/2^(R+2).')
    d = copy_saber(os.path.join(scratch('c05'), 'saber'))
    k = Kani(d)
    names = ['%s::vf::recon::%s' % (v, h) for v in V for h in ('recon_data', 'recon_decodes', 'lemma_decode_within_bound')]
    kani_report(rep, k, names, lambda h: os.path.join(d, 'src/vf/variant.rs'), expect=names)
    rep.finish()
