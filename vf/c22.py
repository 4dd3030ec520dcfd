from .dil import *
BOUND = 'which polynomials hold hints is bounded: all hints in one polynomial (any number of them; in the quick tier 0 to 9, omega-1 or omega of them for the middle polynomials), none or two in every polynomial, a full section whose last three hints are spread; encoding: seven free hint bits and 0, 5 or omega-7 further ones. Position bytes, padding bytes, c and z are arbitrary.'
def main():
    rep = Report('C22', 'other', CMD, TRUST, ASSUME, explanation='Signature decoding and encoding for parameter sets 2, 3 and 5 (portable implementation). c and z: proved for all values. Hint section: bounded. ' + BOUND)
    rep.cov['bounded'] = BOUND
    check(rep, 'c22.c', defs=['VF_QUICK=%d' % (TIER == 'quick')])
