from .common import *
def main():
    rep = Report('C01', 'proof', 'cargo kani (harness/saber/codec.rs, full domain, unwinding assertions on)',
        ['Kani 0.68.0 translation', 'CBMC 6.11.0 + CaDiCaL', 'rustc MIR', 'core/alloc iterators', 'secret_integers 0.1.3 is verified together with the code, not assumed'],
        [STD_STUBS, 'pack_msg requires decoded coefficients to be single bits (what recon guarantees, C05)'],
        functions=['Poly::from_bytes_13bit', 'Poly::from_bytes_10bit', 'Poly::from_bytes_6bit', 'Poly::from_bytes_4bit', 'Poly::from_bytes_3bit', 'Poly::from_msg',
                   'Poly::read_bytes_13bit', 'Poly::read_bytes_10bit', 'Poly::read_bytes_6bit', 'Poly::read_bytes_4bit', 'Poly::read_bytes_3bit', 'Poly::read_bytes_msg', 'generic::declassify_bytes'],
        explanation='Each codec is checked against its bit-string postcondition for every input; all loops have constant bounds and are fully unrolled with unwinding assertions, so the result is complete.')
    d = copy_saber(os.path.join(scratch('c01'), 'saber'))
    k = Kani(d)
    names = ['vf::codec::' + n for n in ('unpack13 pack13 unpack10 pack10 unpack6 pack6 unpack4 pack4 unpack3 pack3 unpack_msg pack_msg').split()]
    kani_report(rep, k, ['vf::codec::'], lambda h: os.path.join(d, 'src/vf/codec.rs'), expect=names)
    rep.finish()
