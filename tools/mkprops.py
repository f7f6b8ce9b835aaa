#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))

K='src/keygen.rs'; E='src/encryption.rs'; S='src/saver_groth16.rs'; U='src/utils.rs'; C='src/commitment.rs'; T='src/setup.rs'; R='src/circuit.rs'; V='src/serde_utils.rs'; M='src/macros.rs'; X='src/error.rs'

prop('C01','Single-party key generation yields mutually consistent keys',
 "A successful single-party key generation returns a secret key, an encryption key and a decryption key that satisfy the scheme's defining relations over one set of secret exponents: every public element of the two keys is the stated multiple of the caller's generators, with one base per message chunk plus the stated aggregate elements and consistent element counts. Too few bases is reported as an error.",
 ['inputs','configurations'],"every field, every chunk size, every generator set and SRS element, every random tape, with and without the parallel feature",
 "The tests look only at element counts and at one curve and seed; a wrong exponent in one element shows only in operations that use it.",
 [K,U],[('key equations','keygen'),('fixed-base multiplication','utils::multiply_field_elems_with_same_group_elem'),('count check','supported_chunks_count / validate')],
 [('s, t, v, rho','secret exponents of the key set',K)])
prop('C02','Distributed key generation equals a joint single-party key for any party count',
 "For any number of parties, combining the parties' partial encryption keys and their shares of the aggregate element gives an encryption key that equals the one a single party would have generated from the sums of the parties' secrets. Each party's secret share contains exactly the exponents used in its own partial key, and the order in which parties are combined does not matter.",
 ['inputs','histories','configurations'],"any number of parties >= 1, any order, any field and chunk size, any random tape",
 "The tests run two parties with one seed and chunk size 4; three or more parties, or another order, are never run.",
 [K],[('partial key','FkeygenPartial'),('combination','combineEKs'),('aggregate element shares','genP1share, combineP1share'),('final key','keygenFinal')])
prop('C03','Honest ciphertexts always pass commitment verification',
 "Whatever encryption produces for an in-range message under a single-party or a combined distributed key is accepted by commitment verification with the matching key and generators, whether keys and generators are passed plain or prepared and whichever entry point is used. Prepared forms and the exposed commitment key carry the same elements in the same order as the plain key, and encryption under an incompatible key is refused with an error.",
 ['inputs','configurations'],"all messages, random tapes, keys (single-party and N-party), chunk sizes 4, 8 and 16, plain and prepared arguments, both feature sets",
 "Tests run one seeded random message per chunk size with one curve.",
 [E,K,T],[('encryption','Encryption::encrypt, encrypt_decomposed_message, encrypt_given_snark_vk, encrypt_with_proof'),('check','Encryption::verify_ciphertext_commitment, Ciphertext::verify_commitment'),('prepared keys','From<EncryptionKey> for PreparedEncryptionKey, From<EncryptionGens>')])
prop('C04','Commitment verification accepts nothing but consistent ciphertexts',
 "Commitment verification of a ciphertext succeeds only when the number of chunk ciphertexts equals the number the key supports and the defining pairing equation between the randomness element, every chunk ciphertext, the commitment and every key element holds. In every other case the caller gets an error, and no part of the ciphertext or of the key is left out of the equation.",
 ['inputs'],"all ciphertexts including adversarial ones, all well-formed and malformed keys, both feature sets",
 "No test ever feeds verification something it must reject.",
 [E,K],[('pairing check','verify_ciphertext_commitment'),('left and right vectors','get_g1_for_ciphertext_commitment_pairing_checks, get_g2_for_ciphertext_commitment_pairing_checks'),('count check','supported_chunks_count')])
prop('C05','Batch commitment verification equals the weighted sum of single checks',
 "Batch verification of ciphertexts with given weights succeeds exactly when every ciphertext has the number of chunks the key supports and the sum, over all ciphertexts, of weight times the single-ciphertext verification equation holds. A batch of honest ciphertexts always passes and every ciphertext contributes every one of its elements under its own weight.",
 ['inputs'],"any batch size, any weights, honest and adversarial ciphertexts, both feature sets",
 "Batch verification is not exercised by any test.",
 [E],[('batched vectors','get_g1_for_ciphertext_commitments_in_batch_pairing_checks'),('check','verify_commitments_in_batch')])
prop('C06','The range proof is bound to the ciphertext it was made for',
 "A proof made for the encrypted chunks and the encryption randomness verifies against exactly that ciphertext, for single-party and distributed keys, when SRS, keys and encryption were produced by this library. Proof verification succeeds only if the Groth16 equation holds with the public-input term computed from the ciphertext's randomness element, every chunk ciphertext and the constant element of the verifying key.",
 ['inputs','configurations'],"all messages, random tapes, SRS trapdoors, key kinds, proofs and ciphertexts including adversarial ones",
 "Tests verify a few honest proofs and never a wrong one; they use chunk size 4 only.",
 [S,E,T],[('proof blinding','create_proof'),('public input term','calculate_d'),('Groth16 equation','verify_qap_proof, verify_proof'),('SRS element','generate_srs, setup_for_groth16')])
prop('C07','Combined verification needs both the commitment and the proof to be valid',
 "The combined verification of a ciphertext accepts if and only if the commitment check and the proof check each accept the same ciphertext. The error of whichever check failed reaches the caller.",
 ['inputs'],"all ciphertexts, proofs, keys; plain and prepared arguments",
 "No test calls the combined verification at all.",
 [E,S],[('conjunction','Ciphertext::verify_commitment_and_proof')])
prop('C08','Decryption returns exactly the encrypted message through every entry point',
 "Decrypting an honest ciphertext with the matching secret and decryption keys returns exactly the encrypted chunks or message, and the returned commitment to the randomness is the secret key multiple of the ciphertext's randomness element. This holds for all entry points alike: chunk-wise or whole message, on the ciphertext type or free-standing, with plain or prepared keys, with or without precomputed pairing powers, given bases or a verifying key.",
 ['inputs','configurations'],"all messages (including chunks equal to 0, 1 and the largest chunk value), random tapes, chunk sizes, entry points, both feature sets",
 "Tests use one seeded random message per chunk size and only the chunk-wise entry points; boundary chunks are not chosen.",
 [E,K],[('unmasking','decrypt_to_chunks_given_pairing_powers'),('wrappers','Encryption::decrypt*, Ciphertext::decrypt*'),('powers','PreparedDecryptionKey::pairing_powers')])
prop('C09','The discrete-log search is exact over its whole range and fails outside it',
 "The bounded discrete-log searches return x for every x between the smallest and largest admissible chunk value and report an error, never a wrong value, for any group element that is no such multiple of the base. A search given precomputed powers agrees with the one without, and a power table that is too small is reported as an error.",
 ['inputs'],"all x in range, all targets out of range, chunk sizes up to 16 bits, all table shapes",
 "Sampled chunks rarely hit the ends of the range, no test searches for an absent value or passes a short table.",
 [E,K],[('searches','solve_discrete_log, solve_discrete_log_for_g, solve_discrete_log_using_pairing_powers'),('table','pairing_powers')])
prop('C10','Re-encryption moves any N-party ciphertext to the destination key unchanged',
 "When every party of a distributed key contributes its re-encryption share and the shares are combined with the ciphertext in any order, the destination party decrypts exactly the encrypted chunks using its own secret key alone. The result holds for any number of parties, and a ciphertext re-encrypted with a party's share missing is not an encryption of the plaintext under the destination key.",
 ['inputs','histories'],"any number of parties, any combination order, all messages and random tapes, sums of ciphertexts included",
 "Tests re-encrypt with two parties in one order and one seed.",
 [E,K],[('share','re_encrypt_share'),('combination','combine_re_encrypt_share, combine_ct_with_w'),('decryption','decrypt_to_chunks_after_re_encryption'),('destination key','Fkeygen_dest')])
prop('C11','Adding ciphertexts adds plaintexts, commitments and randomness',
 "The sum of two or more honest ciphertexts under one key is itself a ciphertext of the chunk-wise sum of the plaintexts under the sum of the randomness: it passes commitment verification and decrypts, directly or after re-encryption, to the chunk-wise sums as long as these stay within the searched range. No element of either operand is dropped.",
 ['inputs','histories'],"any number of summands, all messages and random tapes, single-party and N-party keys",
 "Tests add one pair and compare one chunk of the result.",
 [E],[('addition','add_cts')])
prop('C12','Splitting a field element into chunks is exact and invertible',
 "For each supported chunk size, splitting any field element gives its full big-endian digit sequence in that base with every digit in range, and recombining gives back the same element. Any other chunk size, and a digit sequence that cannot be a whole number of bytes, is reported as an error.",
 ['inputs'],"all field elements, all chunk sizes 0..=255, all digit sequences",
 "Round trips are tested indirectly for sizes 4, 8 and 16 with random elements only; error cases are not tested.",
 [U],[('split','decompose'),('recombine','compose'),('count','chunks_count')])
prop('C13','A chunked commitment is a Pedersen commitment to the whole message',
 "The chunked commitment to a message with a blinding equals message times G plus blinding times H for the given generators, and the commitment key holds the descending powers of the chunk base times G followed by H. Both ways of building the key agree, committing with a ready-made key gives the same commitment, and an unsupported chunk size is an error.",
 ['inputs'],"all messages, blindings, generators, supported chunk sizes, fields",
 "The only test compares the two key builders with each other on one generator; nothing opens a commitment.",
 [C,U],[('commitment','ChunkedCommitment::new, get_commitment_given_commitment_key'),('key','commitment_key, commitment_key_for_radix_power_of_2, commitment_key_for_radix_non_power_of_2')])
prop('C14','The range circuit constrains every value to the required bit size',
 "The constraint system built for the range proof allocates every chunk value, in order and as public input when asked, before anything else, and is satisfiable only if every value has no bit set at or above the required bit size. It accepts every assignment of in-range values and has the same shape during setup and proving.",
 ['inputs','configurations'],"any number of values, any bit size, setup and proving mode, public and private allocation",
 "Tests only prove true statements with chunk size 4 or 8; an under-constrained circuit passes them all.",
 [R,S],[('constraints','BitsizeCheckCircuit::generate_constraints'),('defaults','BitsizeCheckCircuit::new')])
prop('C15','Mismatched input sizes are reported as errors, never panics or partial results',
 "Every fallible operation given vectors whose lengths do not fit together (keys, ciphertexts, shares, weights, bases, pairing powers) returns an error: it neither panics nor returns a result computed from only part of its input. Inputs of matching sizes are never refused for their size.",
 ['inputs'],"all lengths of every vector argument of every fallible public operation, both feature sets",
 "Tests pass only vectors of matching lengths.",
 [E,K,S,X],[('length checks','supported_chunks_count and the checks at the head of each operation'),('error type','SaverError')])
prop('C16','All secrets and masks are fresh, independent draws from the caller\'s generator',
 "Every secret exponent, encryption randomness, proof blinder, SRS trapdoor and re-encryption mask is its own full-range draw from the random generator supplied by the caller; no draw serves two roles, is reused across chunks, parties or calls, or is replaced by a constant. Operations that do not take a generator use no randomness at all.",
 ['inputs','histories','configurations'],"all calls, all random tapes, all chunk counts, both feature sets",
 "Tests with fixed seeds cannot tell independent draws from related ones.",
 [K,E,S,T],[('draws','UniformRand::rand call sites')])
prop('C17','Public outputs hide the plaintext and every party\'s secrets',
 "In everything an encrypting, key-generating or re-encrypting party publishes, each secret and each plaintext chunk occurs only masked: as an exponent of a group element, and, for plaintext chunks and re-encryption shares, blinded so that no public combination of the published elements cancels the mask. Secret exponents are not part of any published type.",
 ['inputs','histories'],"all messages, keys, random tapes and all linear combinations of published elements",
 "Secrecy cannot be observed by running honest flows.",
 [E,K,S],[('masks','encrypt_decomposed_message, re_encrypt_share'),('public types','EncryptionKey, FEncryptionKeyPartial, P1share, Ciphertext')])
prop('C18','Stored and transmitted objects round-trip and are validated when read',
 "Serializing any key, ciphertext, generator, share, commitment or proof object, in the canonical or in the serde format, and reading it back gives an equal object with every field in its place. Reading from serde input always performs the full canonical validation, and failures are reported as errors.",
 ['inputs','configurations'],"all values of all serializable types, all malformed inputs",
 "The serialization tests are commented out in this repository.",
 [V,K,E,C,T,S,U],[('serde adaptor','AsCanonical::serialize, AsCanonical::deserialize'),('derives','serde and canonical derives on the public types')])
prop('C19','Results do not depend on the parallel feature or on thread scheduling',
 "Every operation computes the same function of its inputs and random tape whether or not the crate is built with its parallel feature. With the feature, results do not depend on how work is scheduled over threads.",
 ['schedules','configurations'],"both feature sets, all schedules, all inputs",
 "Tests run with the parallel feature only and compare nothing across builds or schedules.",
 [K,E,U,M],[('iterator selection','cfg_iter!, cfg_into_iter! call sites')])
prop('C20','Derived generators are deterministic, domain-separated subgroup elements',
 "Generators derived from a label depend on the label and hash alone, are hashed with a distinct suffix per generator, retry with a changing counter until a valid encoding appears, and always lie in the prime-order subgroup. Generators drawn from a random source are independent of each other.",
 ['inputs'],"all labels, hash functions, curves (with or without cofactor)",
 "Tests compare a few labels on one curve and do not look at subgroup membership or retries.",
 [T,U],[('hash to group','projective_group_elem_from_try_and_incr, affine_group_elem_from_try_and_incr, field_elem_from_try_and_incr'),('labels','EncryptionGens::new, ChunkedCommitmentGens::new')])
prop('C21','Fixed-base multiplication tables give exact scalar multiples',
 "Multiplying with a precomputed table returns exactly the scalar multiple of the table's base for every scalar of the field and for any expected number of multiplications, one at a time or many at once and in input order. The batch helper for one base and many scalars agrees with multiplying each separately.",
 ['inputs'],"all scalars including the largest, all table sizes, all groups",
 "Tests use one or two scalar counts and random scalars.",
 [U],[('table','WindowTable::new, multiply, multiply_many'),('helper','multiply_field_elems_with_same_group_elem')])
prop('C22','Long-lived secret keys are erased from memory when dropped',
 "Every object that holds a secret key or a party's secret share overwrites the secret exponents it owns when it is dropped. No secret-key type can be copied implicitly or lose that behaviour through a wrapper.",
 ['programs','histories'],"every program that creates and drops secret keys, on every exit path",
 "Memory contents after a drop are not observable in the tests.",
 [K],[('erasure','Zeroize and ZeroizeOnDrop on SecretKey; SecretKeyST')])
prop('C23','Failures of underlying components are always passed to the caller',
 "When circuit synthesis, proof creation, key generation, decomposition, search or deserialization fails inside an operation, the operation returns an error of its own and neither discards the failure, substitutes a default result nor panics. A success value is returned only when every fallible step on the way succeeded.",
 ['inputs','fault_sequences'],"every fallible call inside every public operation",
 "No test makes an underlying component fail.",
 [E,K,S,T,R,V,X],[('propagation','? operators and error conversions throughout')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
