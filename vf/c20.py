from .dil import *
POLY = dict(merge=('make_hint', 'use_hint', 'decompose', 'power2round', 'caddq', 'reduce32', 'freeze'))
def main():
    rep = Report('C20', 'proof', CMD, TRUST, ASSUME, explanation='Every scalar rounding and reduction function over its whole documented domain, and the polynomial functions that apply them coefficient by coefficient, for parameter sets 2, 3 and 5 (portable implementation).')
    check(rep, 'c20.c', opt=lambda n, s: POLY if 'poly' in n else {})
