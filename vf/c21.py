from .dil import *
def main():
    rep = Report('C21', 'proof', CMD, TRUST, ASSUME, explanation='All encodings of polynomials and keys for parameter sets 2, 3 and 5 (portable implementation), both directions.')
    check(rep, 'c21.c')
