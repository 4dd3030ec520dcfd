#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the checks present in vf/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'contract harnesses on the real code discharged by Kani/CBMC (full domain, loops fully unrolled with unwinding assertions)'
T = dict(
 C01=(K, 'proof', 'Complete over all inputs; trusts Kani, CBMC, rustc and core iterators.'),
 C02=(K, 'proof', 'Complete over all byte strings below 2^40 bytes; quick tier uses the codec contract of C01, thorough the real codecs.'),
 C03=('verification conditions generated by executing the real code over bit-vector terms, discharged by z3; dependency contract discharged by Kani', 'proof', 'One obligation per coefficient, all coefficient values; trusts z3 and rustc. The secret_integers dependency is replaced by a term type whose meaning is proved on the real dependency.'),
 C04=(K, 'proof', 'Complete over all XOF outputs; the XOF itself is any byte stream.'),
 C05=(K, 'proof', 'Contracts of both reconciliation functions over all inputs plus a lemma; complete.'),
 C06=(K + '; SHA3 as an unknown function, IND-CPA layer by contract', 'proof', 'Complete over keys, messages and ciphertexts; assumes determinism/inversion of the IND-CPA layer and nothing about SHA3 but functionality.'),
)
L = 'contract verification of the real crate: verification conditions generated by symbolic execution of the LLVM IR of the current tree, cryptographic dependencies by contract, discharged by term normal form and z3'
PWL = 'Complete over contents, keys, randomness, session ids and identities; password lengths are enumerated (bounded). '
IDL = 'Dependencies (hashes, ciphers, curve groups, signatures, KEM) are contracts: unknown functions, generic group; disagreement obligations assume ideal primitives.'
T.update(
 C07=(L, 'other', 'All keys, nonces and contents; message lengths enumerated (bounded): 0..256 for the round trip, every length below 120 for arbitrary bytes. ' + IDL),
 C08=(L, 'other', 'All keys and contents; block lengths enumerated (bounded): 32..127, 672, 736 and others up to 2000. ' + IDL),
 C09=(L, 'other', PWL + IDL), C10=(L, 'other', PWL + IDL), C11=(L, 'other', PWL + IDL),
 C12=(L, 'proof', 'Complete over all values; all messages have fixed size. ' + IDL),
 C13=(L, 'proof', 'Complete over all values; all messages have fixed size. ' + IDL),
 C14=(L, 'proof', 'Complete over all values; all messages have fixed size. ' + IDL),
 C15=(L, 'proof', 'Complete over all values; sealed messages of the protocol size. ' + IDL),
 C16=(L, 'proof', 'Every protocol, role and step; complete. ' + IDL),
 C17=(L, 'proof', 'The five protocols and ghost protocols with 2, 3, 4, 5 and 8 messages; tampering at every step. ' + IDL),
 C18=(L, 'other', PWL + 'All 15 protocol combinations plus ghost protocols that only satisfy the trait contracts. ' + IDL),
 C19=(L, 'other', PWL + 'The three PAKEs plus ghost PAKEs. ' + IDL),
)
C = 'contract verification of the real C: harness contracts over the compiled functions, verification conditions generated by symbolic execution of their LLVM IR, discharged by term normal form, interval analysis and z3'
T.update(
 C20=(C, 'proof', 'All inputs in the documented ranges, all three parameter sets, portable implementation; the AVX2 and NEON copies are not covered.'),
 C21=(C, 'proof', 'All coefficient values and byte strings, all three parameter sets, portable implementation.'),
 C23=(C + ' (message wrappers of both the portable and the AVX2 implementation); LLVM IR of the real Rust wrapper crate with the C by contract', 'other', 'All byte values; message, key and signature lengths enumerated around every boundary (bounded, stated in the evidence); signing and verification are unknown functions of the bytes they are given; the NEON copy is not covered.'),
 C24=(C + '; LLVM IR of the real Rust wrapper crate with the C by contract', 'proof', 'All seeds; sign.c, polyvec.c, packing.c and fips202.c of the portable implementation really executed, the operations of poly.c and Keccak-f as unknown functions of exactly the bytes they are given; the key generation of the AVX2 and NEON copies is not covered.'),
 C25=(C, 'other', 'All byte values; lengths of pieces enumerated (bounded, stated in the evidence): every residue of the first piece, second piece around every block boundary, all one-shot lengths up to two blocks; the Keccak permutation is an unknown function.'),
 C22=(C, 'other', 'c and z for all values; hint section bounded in which polynomials hold hints (stated in the evidence), all position and padding bytes; portable implementation.'),
)
try:
    from manifest_extra import T as X
    T.update(X)
except ImportError: pass
NA = {}
try:
    from manifest_extra import NA
except ImportError: pass
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T and os.path.exists(os.path.join(V, 'vf', i.lower() + '.py')):
        t, l, n = T[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check registered yet: the contracts for this part are still being written')))
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='cfg(kani) / cfg(test) modules appended to scratch copies only; nothing in /repo is guarded', enable='the checks copy the crates from /repo on every run and append the harness modules to the copies', source_commits=[]),
         checks=checks, not_applicable=na, notes='known findings: KNOWN_FINDINGS.txt; design: DESIGN.md; bounded stand-ins are labelled in the evidence files')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
