import json
S='c-impl/PQCrypto-SIDH/src/'
P=[]
def prop(id,title,statement,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=state
    if obs:a["observe_at"]=obs
    if hook:a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
prop("C01","Every honestly generated proof verifies",
"Starting from any valid curve and whatever random values are drawn, generating a secret walk, proving it and verifying the result succeeds. The proof names the canonical model of the starting curve and of the curve at the end of the walk, and every response opens correctly, on every parameter set and in both the threaded and the sequential build.",
["inputs","configurations"],"every valid starting curve, every kernel the random draws can select (including points above (0,0) and both parities of the 2-power), every challenge value",
"the test programs prove and verify a few walks from one starting curve with random draws; special kernels, special curves and rare field values are never hit on purpose",
[S+"poik.c",S+"poik.h",S+"ec_isogeny.c",S+"fpx.c"],
[("walk generation",S+"poik.c Generate / Random_Isogeny_Chain_A/B"),("commuting squares",S+"poik.c Instance"),("responses",S+"poik.c Pack_Response / Unpack_Response"),("kernel above (0,0)",S+"poik.c Isogeny_A")],
None,["return value of Verify on the output of Prove","E0 and E1 of the proof"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C02","Only genuine isogeny openings are accepted",
"A proof is accepted only if every revealed path is a genuine cyclic isogeny of full length: each kernel generator has exactly the full order, consecutive steps never backtrack, the path starts at the stated curve (or the revealed middle curve) and the committed curves are the ones the path actually reaches. Any proof in which one revealed element does not satisfy this is rejected, even when all hashes are recomputed consistently by a cheating prover.",
["inputs"],"every proof, i.e. every value of every revealed curve and kernel coordinate under every tag, including maliciously built ones with consistent hashes",
"tests never present an invalid proof to the verifier; removing or weakening any single check keeps all of them green",
[S+"poik.c",S+"ec_isogeny.c"],
[("order check",S+"poik.c Isogeny_A / Isogeny_B"),("non-backtracking",S+"poik.c Unpack_Chain_A / Unpack_Chain_B"),("opening of commitments",S+"poik.c Unpack_Response / hash_hiding"),("end-to-end decision",S+"poik.c Verify")],
None,["return value of Verify"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C03","The challenge binds every tag, commitment and curve",
"The response tags of an accepted proof equal the ternary challenge obtained by hashing, with domain separation, the invariants of both curves and all commitments in order, with unbiased rejection sampling of the digest bytes; an honest prover answers exactly that challenge. Changing any single tag, any byte of any opening or commitment, or either curve of a valid proof makes it rejected, and each parameter set keeps its full number of repetitions, commitment and blinding lengths.",
["inputs","configurations"],"every repetition index, every byte of every bound field, every digest byte value, all four parameter sets",
"tests only check that honest proofs verify, which stays true if prover and verifier agree on a weaker challenge, fewer repetitions or a partial comparison",
[S+"poik.c",S+"poik.h",S+"sha3/fips202.c"],
[("challenge derivation",S+"poik.c Challenge / sample_ternary"),("commitments",S+"poik.c hash_hiding, struct commitment"),("tag comparison",S+"poik.c Verify"),("parameters",S+"poik.h POIK_REPS, HASH_BYTES, HIDE_BYTES")],
None,["tags and openings in the proof","return value of Verify"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C04","Curve validation accepts exactly the admissible curves",
"A curve coefficient given to the prover, or as either end or the revealed middle curve of a proof, is accepted if and only if it defines a smooth curve over the quadratic field with exactly (p+1)^2 points. The decision does not depend on which random points the validation happens to draw, and it always terminates.",
["inputs"],"every coefficient in the field (supersingular, ordinary, wrong twist, singular) and every sequence of random points drawn",
"tests only ever validate curves produced by honest walks; no invalid curve is presented and random draws are not controlled",
[S+"poik.c"],[("validation",S+"poik.c Check_Curve / proves_order"),("callers",S+"poik.c unpack_curve, Generate, Verify, Unpack_Response")],
None,["return values of Generate and Verify"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C05","Secret walks are full-length, non-backtracking and unbiased",
"The secret walk returned for a valid start consists of steps whose kernels have exactly the full 2-power order, whose curves are linked by those kernels, and whose composition is cyclic (never backtracks). Given uniform randomness the first kernel is uniform over all admissible kernels and each later one is uniform over all that do not backtrack.",
["inputs","histories"],"every valid starting curve and every sequence of random draws",
"tests cannot see a biased, shortened or backtracking walk: the proof still verifies or fails only with small probability",
[S+"poik.c"],[("walk generation",S+"poik.c Random_Isogeny_Chain_A, Random_Point_AB, random_point_with_order, random_point"),("secret output",S+"poik.c Generate")],
None,["struct secret returned by Generate"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C06","Proofs disclose only what the challenge opens",
"Every repetition uses its own fresh masking path and its own two full-length commitment nonces taken from the random source, never shared or reused between repetitions. A response contains only the opening its tag asks for: the nonce of an unopened commitment never appears in the proof, and the kernel generators shown in a middle-path response are re-randomised over all generators of the kernel so that they carry no trace of the secret kernel point.",
["inputs","histories"],"every repetition, every tag, every sequence of random draws",
"leaking or reusing randomness leaves every proof valid, so no accept/reject test can notice",
[S+"poik.c"],[("per-repetition randomness",S+"poik.c Instance, Random_Isogeny_Chain_B"),("re-randomised generators",S+"poik.c Pack_Chain_A"),("what is revealed",S+"poik.c Pack_Response")],
None,["bytes of the proof versus bytes drawn from the random source"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C07","Worker threads never change the outcome",
"With any number of worker threads and under every interleaving, proving fills every repetition exactly once with consistent data, yields a valid proof, and verification returns the same verdict as a sequential run: true for valid proofs, false as soon as one response is bad, whichever thread sees it first. Workers share no unsynchronised mutable data, and both operations always terminate.",
["schedules"],"all interleavings of the worker threads and the progress loop, for 1 to 3 workers",
"a test run samples one schedule of sixteen or fewer; lost updates, overwritten verdicts or shared scratch buffers appear only in particular interleavings",
[S+"poik.c",S+"random/random.c"],[("work distribution",S+"poik.c run_threads, Worker_Instance, Worker_Pack_Response, Worker_Unpack_Response"),("verdict flag and early stop",S+"poik.c Worker_Unpack_Response"),("descriptor of the random source",S+"random/random.c randombytes")],
[{"name":"work index","meaning":"next repetition to be handed to a worker"},{"name":"verdict flag","meaning":"cleared by the first worker that meets a bad response"},{"name":"random device descriptor","meaning":"lazily opened, shared by all workers"}],["return value of Verify","the proof","termination"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C08","Randomness is complete or the operation fails",
"A request for n random bytes returns success only after all n bytes, and nothing beyond them, have been filled with bytes delivered by the operating system in order, whatever mixture of failed opens, failed reads, interrupted and short reads occurs. If the random source reports failure at any point, key generation and encapsulation return an error and proof generation aborts; none of them goes on with missing randomness.",
["fault_sequences"],"every sequence of open/read outcomes (failure, every short count, full) up to the bound, every request size, and a failure at every single draw of every operation",
"the operating system's generator never fails or returns short in a test run",
[S+"random/random.c",S+"poik.c",S+"sidh.c",S+"sike.c",S+"compression/sike_compressed.c"],
[("byte source",S+"random/random.c randombytes"),("strict wrapper",S+"poik.c randombytes_strict, fprand"),("scalar sampling",S+"sidh.c random_mod_order_A/B, "+S+"poik.c Pack_Chain_A"),("key generation",S+"sike.c crypto_kem_keypair, crypto_kem_enc")],
None,["buffer contents and return value","return values of the key-generation functions","abnormal termination of proving"])
prop("C09","Proof files round-trip and malformed ones are rejected",
"Writing a proof and reading it back yields the same proof for every possible content, and the text does not depend on how often it is converted. Reading accepts only complete, well-formed text: every truncation, every non-hexadecimal character, missing prefix or separator, and every tag other than -1, 0 and 1 is reported as failure, and a failed or short write is reported by the writer.",
["inputs","fault_sequences"],"every byte value at every position of every field, every truncation point, every single-character corruption, a write failure at every byte offset",
"tests only parse files they have just written, with no corruption and a working output device",
[S+"poik.c"],[("writer",S+"poik.c Dump, Dump_Fp2, Dump_Bytes"),("reader",S+"poik.c Parse, Parse_Fp2, parse_hex_byte")],
None,["return values and structures","the text"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C10","The command-line tools report success only for real success",
"The prover exits zero only after a complete proof of a walk from the given (or initial) curve has been written; it exits non-zero for missing, malformed or invalid curves and for any write failure. The verifier exits zero and prints exactly the two curves of the proof only if the proof on its input is complete and valid and the output was written; the second line it prints is accepted as the next prover's starting curve, so runs chain.",
["inputs","fault_sequences","histories"],"every truncation of the input, every invalid curve class, every output offset at which writing fails, chains of several prove/verify rounds",
"the test target runs the tools on the happy path with working files only",
["c-impl/prove.c","c-impl/verify.c",S+"poik.c"],[("prover main","c-impl/prove.c main"),("verifier main","c-impl/verify.c main"),("buffered output",S+"poik.c Dump / Dump_Fp2")],
None,["exit status, stdout and stderr of the executables"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C11","Field arithmetic is exact on all backends",
"For all operands in the documented range, addition, subtraction, negation, halving, correction, multiplication, squaring, inversion and encoding in the prime field and its quadratic extension return the mathematically correct residue within the documented output range. This holds for all four primes, and the assembly and the portable backends agree.",
["inputs","configurations"],"all operand pairs with words at carry boundaries (0, all-ones, words of p, 2p and their neighbours), all four primes, both backends",
"the arithmetic tests use uniformly random operands, for which a lost carry or a missing correction shows with probability about 2^-64",
[S+"fpx.c",S+"P434/AMD64/fp_x64_asm.S",S+"P503/AMD64/fp_x64_asm.S",S+"P610/AMD64/fp_x64_asm.S",S+"P751/AMD64/fp_x64_asm.S",S+"P434/generic/fp_generic.c",S+"P751/generic/fp_generic.c"],
[("base field",S+"P*/AMD64, "+S+"P*/generic"),("quadratic extension and inversion chains",S+"fpx.c")],None,["results of the exported field functions"])
prop("C12","Key exchange matches the textbook isogeny and both sides agree",
"For every pair of secret keys, the public keys are the images of the other party's basis points under the isogeny whose kernel the secret key selects, and both parties compute the same shared secret, namely the invariant of the common codomain curve. This holds for all parameter sets including the one with an odd power of two.",
["inputs","configurations"],"every secret key of either party (0, 1, maximal, every residue), all parameter sets",
"tests draw a few hundred random key pairs out of 2^216 and never reach boundary keys; agreement alone does not show that the right isogeny was computed",
[S+"sidh.c",S+"ec_isogeny.c",S+"fpx.c",S+"P434/P434.c",S+"P503/P503.c",S+"P610/P610.c",S+"P751/P751.c"],
[("key generation",S+"sidh.c EphemeralKeyGeneration_A/B"),("agreement",S+"sidh.c EphemeralSecretAgreement_A/B"),("isogeny formulas",S+"ec_isogeny.c"),("scalar sampling range",S+"sidh.c random_mod_order_A/B")],
None,["public keys and shared secrets"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C13","Encapsulated keys always decapsulate to the same secret",
"For every key pair and every encapsulation against it, decapsulation returns the encapsulator's shared secret, which equals the specified hash of message and ciphertext, and the ciphertext is determined by message and public key alone. The secret key embeds its own public key, and sizes match the published constants, for every parameter set.",
["inputs","configurations"],"every secret key and every message of the enumerated space, all parameter sets",
"tests run some random encapsulations and fixed known-answer vectors; particular keys or messages are not covered",
[S+"sike.c",S+"sidh.c"],[("KEM",S+"sike.c crypto_kem_keypair/enc/dec"),("hash",S+"sha3/fips202.c shake256")],
None,["ciphertexts and shared secrets"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C14","Tampered ciphertexts are rejected implicitly",
"Decapsulating any ciphertext that is not the honest encapsulation of some message returns zero together with the pseudo-random key derived from the secret rejection seed and the ciphertext, never the key of another ciphertext, never an error code and never a key that depends on the decrypted message. This holds wherever and however the ciphertext was altered.",
["inputs","configurations"],"every bit position of the ciphertext and every altered component value, every key of the enumerated space, all parameter sets",
"tests flip at most one byte of a ciphertext and only check that the keys differ",
[S+"sike.c",S+"fpx.c",S+"sidh.c"],[("re-encryption check",S+"sike.c crypto_kem_dec"),("constant-time compare and select",S+"fpx.c ct_compare, ct_cmov")],
None,["shared secret returned by decapsulation"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C15","Public-key validation flags exactly the degenerate keys",
"When decapsulation validates the received public key, it flags every triple of coordinates whose first two points do not both have exactly the full 3-power order or do not generate independent subgroups on the curve they define, and it accepts every honestly generated key.",
["inputs"],"every coordinate pair of the enumerated space combined with every third coordinate of the bound; all honest keys",
"tests never pass a malformed public key to the validation",
[S+"sidh.c",S+"ec_isogeny.c"],[("validation",S+"sidh.c publickey_validation"),("entry",S+"sidh.c EphemeralSecretAgreement_B_extended")],
None,["return value of the validating key agreement"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C16","The hash functions match the SHA-3 standard for all lengths",
"The extendable-output functions used for commitments, challenges and key derivation return the standardised SHAKE output for every input length and every output length, including lengths at and around multiples of the rate and the incremental absorb/squeeze interface.",
["inputs"],"every input length and output length up to several blocks, several contents per length",
"the known-answer tests exercise only the handful of lengths the key exchange uses",
[S+"sha3/fips202.c"],[("sponge",S+"sha3/fips202.c keccak_absorb, keccak_squeezeblocks, shake128/256")],
None,["digest bytes"])
prop("C17","Compressed keys behave like uncompressed ones",
"With compressed public keys both parties of the key exchange obtain the same shared secret, encapsulation and decapsulation agree, and every compressed ciphertext that does not decode to the curve, points and masked message of an honest encapsulation decapsulates, with return value zero, to the implicit-rejection key derived from the secret seed and the ciphertext, for every secret key and every parameter set; compression does not fail or lose information for any key.",
["inputs","configurations"],"every secret key of a structured boundary set, every byte position of the ciphertext, all four parameter sets",
"tests use random keys and fixed vectors; boundary keys and the branches of basis generation and discrete logarithms they trigger are not targeted",
[S+"compression/sidh_compressed.c",S+"compression/sike_compressed.c",S+"compression/dlog.c",S+"compression/pairing.c",S+"compression/torsion_basis.c"],
[("compressed key exchange",S+"compression/sidh_compressed.c"),("compressed KEM",S+"compression/sike_compressed.c"),("discrete logarithms",S+"compression/dlog.c")],
None,["shared secrets"])
prop("C18","A curve has one canonical name, whatever model it came in",
"Whichever of the isomorphic Montgomery models of a curve is given as starting point, the proof names the same canonical coefficient for it, namely the smallest in the order of real then imaginary part among all models, and naming it again changes nothing. The challenge depends only on the isomorphism class.",
["inputs"],"every valid curve and all its models, including special curves with extra automorphisms",
"tests start from one curve, which is already canonical",
[S+"poik.c"],[("canonical model",S+"poik.c all_models, canonical_model, solve_quadratic"),("packing",S+"poik.c pack_curve_and_point")],
None,["E0 and E1 in proofs"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C19","The verifier is total and memory-safe on arbitrary proofs",
"Reading and verifying never crashes, aborts, hangs, or performs an undefined or out-of-bounds operation, whatever the bytes of the proof are: arbitrary curves, singular curves, arbitrary kernel coordinates, coordinates beyond the prime, arbitrary tags. It always returns a verdict.",
["inputs"],"every value of every coordinate field (including values not below the prime), every tag value, arbitrary text files",
"tests feed only valid proofs",
[S+"poik.c",S+"ec_isogeny.c",S+"fpx.c"],[("parser",S+"poik.c Parse"),("verification",S+"poik.c Verify, Unpack_Response, Check_Curve, random_point_with_order")],
None,["process status under address and undefined-behaviour sanitizers"],"reduced parameter sets (POIK_MODEL_CHECK)")
prop("C20","Running time and memory access of key operations reveal no secrets",
"The uncompressed SIDH and SIKE operations are constant-time, as the README promises: for given public inputs, key generation, key agreement, encapsulation and decapsulation execute the same sequence of branches and touch the same sequence of addresses whatever the secret key, the rejection value s or the encapsulated message is. In particular whether decapsulation accepted or implicitly rejected a well-formed ciphertext cannot be told from what it executed.",
["inputs","configurations"],"every secret key, message and rejection value for a given public key or ciphertext; four parameter sets; assembly and portable field code",
"tests compare outputs; a secret-dependent branch or table index gives the same outputs",
[S+"sidh.c",S+"sike.c",S+"ec_isogeny.c",S+"fpx.c",S+"P434/AMD64/fp_x64_asm.S",S+"P434/generic/fp_generic.c"],[("three-point ladder",S+"ec_isogeny.c LADDER3PT, swap_points"),("selection of the decapsulated key",S+"sike.c crypto_kem_dec; "+S+"fpx.c ct_compare, ct_cmov"),("field routines",S+"P434/generic/fp_generic.c fpadd434, fpsub434, fpcorrection434")],
None,["sequence of executed basic blocks and accessed addresses"],"reduced parameter sets (POIK_MODEL_CHECK)")
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p)+'\n')
