import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S='saber-rust/src/'
p('C01','Saber coefficient packing and unpacking are exact inverses',
 "For each of the 13-, 10-, 6-, 4- and 3-bit coefficient encodings and the 1-bit message encoding of the Saber crate, unpacking any byte string of the right length yields coefficients below the stated width, and packing those coefficients again gives back exactly the same bytes. Packing any polynomial depends only on the low bits of each coefficient, and coefficient i always occupies bits [w*i, w*(i+1)) of the little-endian bit string.",
 ['inputs'],'every byte string of the encoded length and every array of 256 16-bit coefficients',
 'The crate tests a handful of random KEM runs; a wrong bit in one lane only shows as a rare decapsulation failure (the README itself reports one).',
 [S+'poly.rs'],[('from_bytes_{13,10,6,4,3}bit / read_bytes_*','saber-rust/src/poly.rs'),('from_msg / read_bytes_msg','saber-rust/src/poly.rs')])
p('C02','Saber keys and ciphertexts round-trip through bytes; wrong lengths are errors',
 "For LightSaber, Saber and FireSaber, decoding a public or secret key from any byte string of the documented length succeeds and re-encoding gives back exactly the same bytes, for both the CCA and the IND-CPA-only key types; shared secrets and ciphertexts keep their bytes unchanged. Every byte string of any other length is rejected with the bad-length error (carrying the actual and expected length) and never panics.",
 ['inputs'],'every byte string of every length, three parameter sets',
 'Tests round-trip a few honestly generated keys only; they never decode arbitrary bytes or wrong lengths.',
 [S+'generic.rs',S+'non_generic.rs',S+'newtype.rs',S+'lightsaber.rs',S+'saber.rs',S+'firesaber.rs'],[('PublicKey/SecretKey to_bytes/from_bytes','saber-rust/src/generic.rs'),('__byte_array_newtype_impl','saber-rust/src/newtype.rs')])
p('C03','Saber ring arithmetic is exact in Z_2^16[x]/(x^256+1)',
 "Adding, subtracting, shifting, masking and multiplying Saber polynomials computes, for every pair of operands, exactly the ring operation modulo 2^16 and x^256+1 (wrap-around terms negated). The vector inner product, matrix-vector product and transposed matrix-vector product of each parameter set are the corresponding sums of such products, with rows and columns in the documented order.",
 ['inputs'],'all coefficient values of all operands, three dimensions',
 'Only end-to-end KEM agreement is tested, which a symmetric error in both directions (or one in a rarely excited limb) does not disturb.',
 [S+'poly.rs',S+'generic.rs'],[('Poly Add/Sub/Mul/Shl/Shr/reduce','saber-rust/src/poly.rs'),('Vector::mul, Matrix::mul, Matrix::mul_transpose','saber-rust/src/generic.rs')])
p('C04','Saber secret sampling follows the centred binomial distribution exactly',
 "For every output of the randomness source, each sampled secret coefficient equals (number of ones in the first mu/2 bits) minus (number of ones in the next mu/2 bits) of its own mu-bit group, groups taken consecutively from the little-endian bit stream, with mu = 10, 8, 6 for LightSaber, Saber, FireSaber. Hence every coefficient lies in [-mu/2, mu/2], and a sampler consumes exactly 256*mu/8 bytes per polynomial.",
 ['inputs'],'every possible XOF output',
 'No unit test looks at the sampler; a skewed sampler still round-trips.',
 [S+'lightsaber.rs',S+'saber.rs',S+'firesaber.rs',S+'generic.rs'],[('cbd','saber-rust/src/{lightsaber,saber,firesaber}.rs'),('load_littleendian','saber-rust/src/generic.rs')])
p('C05','Saber reconciliation decodes correctly within the design noise bound',
 "For every message and every pair of ring elements v, v' held by the two parties, decrypting with v' the reconciliation data made from v and the message gives back the message bit wherever v and v' differ (mod p) by strictly less than p/4 - p/2^(RECON_SIZE+2), and gives the flipped bit wherever v' is further off by p/2. The reconciliation data is exactly the documented top bits of v + message*p/2 reduced mod p.",
 ['inputs'],'every message, every coefficient of v and v\', three parameter sets',
 'Failures at a particular residue have probability around 2^-120 for honest keys (3.5e-6 with the known bug): random tests never see them.',
 [S+'generic.rs',S+'poly.rs'],[('recon_data_gen, recon','saber-rust/src/generic.rs'),('from_msg, read_bytes_msg','saber-rust/src/poly.rs')])
p('C06','Saber KEM: decapsulation agrees or rejects implicitly',
 "Given a key pair whose IND-CPA decryption of an encapsulated ciphertext returns the encapsulated message, decapsulation returns exactly the encapsulated shared secret. For every ciphertext that is not what re-encryption of the decrypted message gives (even in a single bit of a single byte), the result is instead the hash of the secret fallback value z and the session value, never the honest secret; no ciphertext of the right length makes decapsulation fail or panic.",
 ['inputs'],'every ciphertext byte string, every message, every key',
 'Tests decapsulate honest ciphertexts only; nothing samples manipulated ciphertexts, let alone every differing bit.',
 [S+'generic.rs'],[('encapsulate, decapsulate','saber-rust/src/generic.rs'),('bytes_eq_mask, u8_eq_mask','saber-rust/src/generic.rs')])
L='latke/src/'
p('C07','Authenticated encryption: round trip, tamper rejection, total decryption',
 "Opening a sealed message with the key that sealed it returns the plaintext; sealed length is plaintext length plus 44. A sealed message in which the ciphertext, nonce or tag was changed in any way is rejected with an error unless the MAC itself collides, and opening any byte string of any length, including shorter than nonce plus tag, returns an error instead of panicking.",
 ['inputs'],'every plaintext, every key and nonce, every received byte string',
 'One unit test seals and opens a fixed message; no malformed or short input is ever tried.',
 [L+'auth_enc.rs'],[('auth_encrypt, auth_decrypt','latke/src/auth_enc.rs')])
p('C08','Wide-block ideal cipher is a permutation: decrypt inverts encrypt',
 "For every key and every block of at least 32 bytes, in-place encryption followed by in-place decryption with the same key restores the block exactly, and decryption followed by encryption does too; the block length never changes, the result is a function of key and block only, and every byte of the result depends on every byte of the key and on every byte of the block.",
 ['inputs'],'every key and block, every length >= 32',
 'One unit test inverts a fixed-length random block.',
 [L+'ideal_cipher.rs'],[('wide_block_encrypt, wide_block_decrypt, eval_deck, xor_in_place','latke/src/ideal_cipher.rs')])
p('C09','CAKE: both sides with one password and session agree, and only then',
 "For every password, session id, randomness and roles, two CAKE parties that exchange their messages unmodified both finish in the documented number of steps and output the same 32-byte key. Parties that disagree on the password, on the session id or on either transmitted message do not agree on the key; any incoming bytes of the right size are processed without a panic, and no key is available before a party's last step.",
 ['inputs','histories'],'all passwords, session ids, randomness; honest exchange and substituted messages',
 'The unit test runs one honest exchange with random inputs.',
 [L+'pake/cake.rs'],[('Cake::run/finalize','latke/src/pake/cake.rs')])
p('C10','KC-SPAKE2: agreement with mutual key confirmation before any key is output',
 "Two KC-SPAKE2 parties with the same password and session id and unmodified messages both complete and output the same key. A party that receives a confirmation tag different from the one it expects returns an error, is not done, and never outputs a key: a key can be finalized only after the peer's confirmation was verified.",
 ['inputs','histories'],'all passwords, session ids and randomness; every wrong confirmation message; every order of step and finalize calls',
 'The unit test is one honest run; no wrong tag and no early finalize is tried.',
 [L+'pake/kc_spake2.rs'],[('KcSpake2::run/finalize','latke/src/pake/kc_spake2.rs')])
p('C11','CPace: both sides with the same password and session agree',
 "Two CPace parties with the same password and session id whose messages arrive unmodified complete in two messages and finalize to the same key; parties whose session ids, passwords or transmitted messages differ do not agree on the key. The responder finishes in its single step and the initiator in its second, and no further messages are sent.",
 ['inputs','histories'],'all passwords, session ids and randomness',
 'One honest run is tested.',
 [L+'pake/cpace.rs'],[('CPace::run/finalize','latke/src/pake/cpace.rs')])
p('C12','FG-IBKE: users extracted under one master key agree and learn identities',
 "For every master key, identities, session id and randomness, two users with keys extracted under the same master public key who exchange messages unmodified finish in the documented steps, compute the same session key, and each outputs exactly the other's identity. An altered message or a user key extracted under a different master key does not yield the partner's session key.",
 ['inputs','histories'],'all identities, keys, session ids, randomness',
 'One honest run with random values.',
 [L+'ibke/fg_ibke.rs'],[('FgIbkeC::extract/run/finalize','latke/src/ibke/fg_ibke.rs')])
p('C13','ID-HMQV-C: honest users agree; wrong confirmation is rejected',
 "Two users extracted under one master key who exchange messages unmodified complete, compute the same session key and each output the other's identity. If the received key-confirmation tag is not the expected one, the receiver's step returns an error and the session never becomes complete.",
 ['inputs','histories'],'all identities, keys, session ids, randomness, every wrong tag',
 'One honest run with random values.',
 [L+'ibke/id_hmqv_c.rs'],[('IdHmqvC::extract/run/finalize','latke/src/ibke/id_hmqv_c.rs')])
p('C14','ID-SIG-DH: honest users agree; unverifiable certificate or signature is rejected',
 "Two users holding certificates from the same authority who exchange messages unmodified complete, compute the same session key, and each output the other's certified identity. A step whose incoming certificate or transcript signature does not verify (under the authority key, respectively the certified user key, over this session's id, roles and ephemerals) returns an error and the session never becomes complete.",
 ['inputs','histories'],'all identities, keys, session ids, randomness; every message a peer may send with the right size',
 'One honest run with random values; no forged message.',
 [L+'ibke/id_sig_dh.rs'],[('IdSigDh::extract/run/finalize','latke/src/ibke/id_sig_dh.rs')])
p('C15','ID-SIGMA-R: honest users agree; failed decryption, certificate or signature is rejected',
 "Two users holding post-quantum certificates from the same authority who exchange messages unmodified complete, compute the same session key, and each output the other's certified identity. A step whose incoming sealed message does not open, or whose certificate or signature does not verify over this session's values, returns an error and the session never becomes complete.",
 ['inputs','histories'],'all identities, keys, session ids, randomness; every message a peer may send with the right size',
 'One honest run with random values; no forged message.',
 [L+'ibke/id_sigma_r.rs',L+'auth_enc.rs'],[('IdSigmaR::extract/run/finalize','latke/src/ibke/id_sigma_r.rs')])
p('C16','Simulated identity-based sessions are indistinguishable in shape from real ones',
 "For every identity-based key exchange in the library, a session driven with simulated steps sends, at each step, a message exactly as long as the real protocol's message at that step, sends nothing where the real protocol sends nothing, and becomes complete after exactly the same step. Simulated steps never panic and never abort, whatever bytes of the right size came in.",
 ['inputs','histories'],'both roles, every step, every incoming message, every identity and key',
 'No test compares simulated against real message lengths; one protocol\'s simulated step is never executed at all.',
 [L+'ibke/fg_ibke.rs',L+'ibke/id_hmqv_c.rs',L+'ibke/id_sig_dh.rs',L+'ibke/id_sigma_r.rs',L+'lib.rs'],[('run_sim','latke/src/ibke/*.rs')])
p('C17','EUE transform: encrypted ratchet stays in step and executes unconditionally',
 "When both ends start from the same key and messages arrive unmodified, the encrypt-until-established transform of an identity-based key exchange delivers each inner message unchanged, in order, and finishes with the inner protocol's result. When a received message was tampered with or does not open, the session does not panic or return early: the receiver switches to simulated execution, keeps sending messages of the normal length for the normal number of steps, and never outputs a key.",
 ['inputs','histories'],'all keys, identities, every tampered message at every step, both roles',
 'One unit test per protocol runs the honest path; no ciphertext is ever modified.',
 [L+'eue_transform.rs'],[('Eue::new/run/finalize','latke/src/eue_transform.rs')])
p('C18','LATKE: same password file material yields same key and the right identities',
 "Two parties whose password files were generated from the same password, with any identities and randomness, that exchange LATKE messages unmodified for the same session id complete and finalize to the same session key, each reporting the other's identity. The main key pair in a password file depends on the password alone, and the session key depends on the whole exchanged transcript: parties whose passwords, session ids, transmitted messages or expected peers differ never share a key.",
 ['inputs','histories'],'all passwords, identities, session ids and randomness; pre- and post-specified peer settings',
 'Tests run honest sessions with one random password.',
 [L+'latke.rs'],[('gen_pwfile, Latke::new_session/run/finalize','latke/src/latke.rs')])
p('C19','CHIP: same password and expected identities yield the same key, and only then',
 "Two CHIP parties whose password files come from the same password, each naming the identity the peer's password file was made for, that exchange messages unmodified for the same session id complete and finalize to the same session key, whatever the identities and randomness. Parties whose passwords, session ids, transmitted messages or expected identities do not match never share a key, and a session that has not completed never yields a key.",
 ['inputs','histories'],'all passwords, identities, session ids and randomness',
 'Tests run one honest session.',
 [L+'chip.rs'],[('Chip::gen_pwfile/new_session/run/finalize','latke/src/chip.rs')])
D='pqcrypto/pqclean/crypto_sign/dilithium'
p('C20','Dilithium modular reduction and rounding are exact',
 "For every input in the documented range, the modular reductions of the portable implementation of each Dilithium parameter set return a value congruent to the input modulo q = 8380417 inside the documented output interval. Rounding splits every standard representative exactly: high part times the step plus low part equals the input modulo q with both parts in range, and using the hint computed for a perturbation always recovers the high part of the perturbed value.",
 ['inputs'],'all 32/64-bit inputs in the documented ranges',
 'KAT vectors exercise a tiny sample of the 2^23..2^55 inputs per function.',
 [D+'%d/clean/%s'%(n,f) for n in (2,3,5) for f in ('reduce.c','rounding.c')],[('montgomery_reduce, reduce32, caddq, freeze, power2round, decompose, make_hint, use_hint','reduce.c, rounding.c')])
p('C21','Dilithium polynomial and key encodings round-trip',
 "For the portable implementation of each Dilithium parameter set, unpacking what was packed returns the original polynomial for every polynomial whose coefficients lie in the encoding's range (eta, t1, t0, z, w1 encodings), and packed public and secret keys unpack to the same components. Packing fills exactly the documented number of bytes, and no unpacking reads or writes outside its buffers for any byte string.",
 ['inputs'],'all coefficient values in range, all byte strings',
 'KATs cover honestly generated keys of 100 seeds.',
 [D+'%d/clean/%s'%(n,f) for n in (2,3,5) for f in ('poly.c','packing.c')],[('polyeta_pack/unpack ... polyz_pack/unpack','poly.c'),('pack_pk ... unpack_sk','packing.c')])
p('C22','Dilithium signature decoding is canonical and memory-safe',
 "For every byte string of signature length, the decoding of the portable implementation either rejects it or yields components whose encoding is exactly that byte string, so no two different accepted byte strings decode to the same signature; malformed hint encodings (unsorted, out of range, non-zero padding) are rejected. Decoding never accesses memory outside the given buffers.",
 ['inputs'],'all signature-length byte strings',
 'The NIST vectors contain only well-formed signatures; malleability needs adversarial hint bytes.',
 [D+'%d/clean/packing.c'%n for n in (2,3,5)],[('pack_sig/unpack_sig','packing.c')])
p('C23','Dilithium signing wrappers: lengths, layout and error mapping',
 "Decoding keys and signatures from bytes succeeds exactly for byte strings of the documented size (at most the documented size for detached signatures) and keeps the bytes; a signed message is the signature followed by the message, opening it returns the message exactly when verification succeeds, and any shorter or failing input is an error and never a panic or out-of-bounds access. Detached verification passes exactly the given message, signature and key bytes to the verifier and reports success exactly when it accepts.",
 ['inputs'],'all byte strings, messages and keys',
 'The Rust tests sign and verify a few messages; malformed lengths are not tried.',
 ['pqcrypto/pqcrypto-dilithium/src/dilithium2.rs','pqcrypto/pqcrypto-dilithium/src/dilithium3.rs','pqcrypto/pqcrypto-dilithium/src/dilithium5.rs']+[D+'%d/clean/sign.c'%n for n in (2,3,5)],[('sign/open/verify wrappers','pqcrypto-dilithium/src/dilithium*.rs'),('crypto_sign, crypto_sign_open, crypto_sign_verify','sign.c')])
p('C24','Deterministic Dilithium key generation is a function of the seed only',
 "Key generation from a supplied seed gives the same key pair every time, and ordinary key generation equals deterministic key generation from freshly drawn system randomness; the whole seed reaches the key derivation and the whole key pair is written. The Rust deterministic entry point passes the caller's seed unchanged.",
 ['inputs'],'all 32-byte seeds, three parameter sets',
 'Only a few seeds are compared by the KATs, through the randomised entry point.',
 ['pqcrypto/pqcrypto-dilithium/src/dilithium2.rs','pqcrypto/pqcrypto-dilithium/src/ffi.rs']+[D+'%d/clean/sign.c'%n for n in (2,3,5)],[('crypto_sign_keypair, crypto_sign_keypair_det','sign.c'),('keypair_det','pqcrypto-dilithium/src')])
p('C25','Incremental SHAKE equals one-shot SHAKE for every split',
 "Absorbing a message in any sequence of pieces, of any sizes including empty ones and ones straddling block boundaries, and squeezing the output in any sequence of pieces, gives exactly the bytes of the one-shot function. This holds for SHAKE128 and SHAKE256 in both copies of the FIPS-202 code that the repository builds.",
 ['inputs','histories'],'all messages, all split points of input and output',
 'Unit tests compare a few fixed splits.',
 ['pqcrypto/pqclean/common/fips202.c','pqcrypto/pqcrypto-internals/cfiles/fips202.c'],[('keccak_inc_absorb/finalize/squeeze','fips202.c')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
