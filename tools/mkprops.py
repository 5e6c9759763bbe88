#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    P.append(d)

# ---------------------------------------------------------------- utilities
p("U01", "Erasure-coded data survives any tolerated loss",
  "When data of k elements is encoded into n shares, any k or more distinct intact shares, in whatever order they arrive, decode to exactly the original k elements. This holds for both supported families of evaluation points (consecutive integers and a power-of-two root-of-unity domain), and shares beyond the first k that are supplied never change the result.",
  ["inputs", "histories", "fault_sequences"],
  "every data vector, every k <= n, every subset and order of surviving shares after losses, duplicates, reorderings and node restarts",
  "The tests decode two hand-written data vectors of length 2 from a few subsets; the number of (data, subset, order) combinations is unbounded and depends on which nodes fail.",
  ["utilities/src/reed_solomon_code.rs"],
  [("polynomial evaluation at 1..=n", "utilities/src/reed_solomon_code.rs: reed_solomon_erasure_encode"),
   ("Lagrange interpolation", "utilities/src/reed_solomon_code.rs: reed_solomon_erasure_decode"),
   ("index to domain element mapping", "utilities/src/reed_solomon_code.rs: reed_solomon_erasure_decode_rou")],
  ["return values of the encode and decode functions"])
p("U02", "Erasure decoding refuses share sets that cannot determine the data",
  "Asked to recover k data elements from fewer than k shares, from a share set whose first k members repeat a position, or (for a root-of-unity domain) from a share whose position lies outside the domain, the decoder reports an error. It never panics and never hands back data in these cases.",
  ["inputs", "histories", "fault_sequences"],
  "every way in which a lossy, duplicating, corrupting network can leave a node with an inadequate share set",
  "Tests cover one too-short share list; which shares repeat, where in the list, and how far out of range an index is are inputs chosen by the faults.",
  ["utilities/src/reed_solomon_code.rs"],
  [("count check before interpolation", "utilities/src/reed_solomon_code.rs: reed_solomon_erasure_decode"),
   ("zero denominator check", "utilities/src/reed_solomon_code.rs: reed_solomon_erasure_decode"),
   ("domain bound check", "utilities/src/reed_solomon_code.rs: reed_solomon_erasure_decode_rou")])
p("U03", "Bytes packed into field elements come back exactly",
  "Packing any byte string into field elements and unpacking it returns the identical byte string, also after the element sequence was stored, reloaded or padded with trailing zero elements, and different byte strings never pack to the same elements. Unpacking an arbitrary (for example damaged) element sequence terminates without panic and returns no more bytes than the elements can carry.",
  ["inputs", "configurations", "fault_sequences"],
  "every byte string, every prime or extension field large enough for a 64-bit length, every padding and every damage to the stored elements",
  "Tests try a handful of random lengths for three fields and never damage the elements; chunk-boundary lengths, other field sizes and damaged inputs stay unreached.",
  ["utilities/src/conversion.rs"],
  [("length prefix element plus fixed-size chunks", "utilities/src/conversion.rs: bytes_to_field_elements"),
   ("length clamp", "utilities/src/conversion.rs: bytes_from_field_elements")])
p("U04", "Values stored in canonical form reload exactly or fail cleanly",
  "A value written through the canonical byte and text encodings, over storage with short, interrupted or failing transfers, reloads as an equal value when every byte survived. When the stored text form was lost, cut short, altered or carries the tag of another type, loading it reports an error or yields a well-formed value, and never panics. Errors of the storage or of the value's own encoder are reported to the caller.",
  ["inputs", "crash_points", "fault_sequences"],
  "every value, every crash point while writing, every sequence of storage faults and every alteration of the stored bytes",
  "Tests encode into an in-memory buffer that never fails and decode it untouched.",
  ["utilities/src/serialize.rs", "utilities/src/macros.rs"],
  [("canonical bytes wrapper", "utilities/src/serialize.rs: CanonicalBytes"),
   ("tagged text form", "utilities/src/serialize.rs: canonical")])
p("U05", "Parallel iteration helpers give the sequential result on every schedule",
  "The optional-parallel slice and chunk iterators visit every element exactly once and produce, in order, the same result as sequential iteration, for every thread-pool size and every thread interleaving. Chunks have the requested size except possibly the last, and a panic in the caller's closure is propagated rather than lost or turned into a hang.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every interleaving of every pool size, every slice length and chunk size, a panic at any element",
  "No existing test runs the helpers with threads; a test run sees one operating-system schedule.",
  ["utilities/src/par_utils.rs"],
  [("rayon slice iterator", "utilities/src/par_utils.rs: parallelizable_slice_iter"),
   ("rayon chunk iterator", "utilities/src/par_utils.rs: parallelizable_chunks")])
p("U06", "Multi-pairing equals the product of the single pairings on every schedule",
  "The multi-pairing of two equally long point lists equals the product of the individual pairings of corresponding points, for every list length including none and for lists containing the identity. The result does not depend on the thread interleaving or the pool size.",
  ["schedules", "inputs", "configurations"],
  "every pair of point lists, every pool size, every interleaving of the worker threads",
  "Tests check two elements on whatever schedule the machine happens to give.",
  ["utilities/src/multi_pairing.rs"],
  [("pairwise preparation and one final multi-pairing", "utilities/src/multi_pairing.rs: multi_pairing")])
p("U07", "Field conversions and small vector helpers match their definitions",
  "Converting elements between the scalar and base field of a curve preserves the integer value when it fits and reduces it otherwise; hashing bytes to a field is a fixed function of the bytes. Padding and element-wise products follow their definitions.",
  ["inputs"], "every element and vector", "Tests sample a few random elements.",
  ["utilities/src/conversion.rs", "utilities/src/lib.rs"],
  [("byte-wise reinterpretation", "utilities/src/conversion.rs")])

# ---------------------------------------------------------------- prf / hash / commitment
p("X01", "Randomised evaluation of a keyed function can be replayed from the returned seed",
  "Evaluating a pseudorandom function with a fresh random seed returns the seed together with an output equal to evaluating the function on that seed and the same input. The seed is taken from the supplied random source alone, so separate calls on an advancing source use separate seeds and a rolled-back source reproduces the same pair.",
  ["inputs", "histories", "fault_sequences"],
  "every input, every state, rollback or repetition of the random source, every history of calls",
  "The trait has no test; the random source is a source of nondeterminism the tests never control.",
  ["prf/src/lib.rs", "rescue/src/prf.rs"],
  [("seed sampled then passed on", "prf/src/lib.rs: evaluate_with_rand_seed")])
p("H01", "Hashing gives one answer per input on every thread and schedule",
  "The algebraic hashes, sponges, compression functions and keyed functions return the same digest for the same input no matter which thread computes it first, how threads interleave during first use, or what was hashed before. Inputs that differ in any element or in length give different digests for the variable-length hashes; a shorter input to a fixed-length hash stands for its zero-padded form, and an input it cannot take is refused.",
  ["schedules", "histories", "inputs"],
  "every interleaving of first and later uses, every hashing history, every input",
  "Tests hash from one thread after initialisation; lazily built tables are initialised at most once per test process.",
  ["rescue/src/permutation.rs", "rescue/src/sponge.rs", "rescue/src/crhf.rs", "poseidon2/src/lib.rs", "poseidon2/src/sponge.rs", "poseidon2/src/crhf.rs"],
  [("parameter tables", "rescue/src/rescue_constants, poseidon2/src/constants"),
   ("padding", "rescue/src/sponge.rs")])
p("H02", "A commitment opens to the committed values and to nothing else",
  "A hash commitment made from a message and a blinding factor verifies with exactly these, wherever it is carried and whenever the parties restart. With any other message, blinding factor or commitment value it is rejected, and committing or verifying without a blinding factor is refused.",
  ["inputs", "histories", "fault_sequences"],
  "every message and blinding factor, every alteration, swap or replay on the way between committer and verifier",
  "Tests commit to one message and alter one element.",
  ["commitment/src/lib.rs", "rescue/src/commitment.rs"],
  [("blinding and length check", "rescue/src/commitment.rs")])

# ---------------------------------------------------------------- merkle
p("M01", "A tree's commitment depends only on its contents",
  "Two trees of the same kind and capacity that hold the same entries have the same commitment, however they were built: in one batch, element by element, by update in place, through copies, or after inserting and later removing other entries. Trees with different contents have different commitments.",
  ["histories", "inputs", "configurations"],
  "every history of insertions, updates and removals over every tree kind, arity and height",
  "Tests compare a few fixed build orders; histories are unbounded.",
  ["merkle_tree/src/internal.rs", "merkle_tree/src/append_only.rs", "merkle_tree/src/universal_merkle_tree.rs", "merkle_tree/src/light_weight.rs", "merkle_tree/src/macros.rs"],
  [("batch construction", "merkle_tree/src/internal.rs: build_tree_internal"),
   ("incremental update", "merkle_tree/src/internal.rs: extend_internal, update_with_internal")])
p("M02", "Forgetting and remembering never change what a tree commits to",
  "A replica that forgets entries, or that starts from only a commitment and remembers entries from a full replica's valid proofs, keeps exactly the full replica's commitment and capacity, and answers lookups for what it remembers like the full replica. Whatever the order of deliveries, losses, repeats and restarts, after all missing entries are delivered the replicas agree on every entry.",
  ["histories", "fault_sequences", "crash_points"],
  "every interleaving of inserts, forgets, remembers and restarts of several replicas over a lossy network",
  "Tests forget and remember one or two leaves of a fixed tree.",
  ["merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/universal_merkle_tree.rs"],
  [("pruned nodes keep their digest", "merkle_tree/src/internal.rs: forget_internal"),
   ("proof replay onto pruned nodes", "merkle_tree/src/internal.rs: remember_internal")])
p("M03", "A Merkle proof is accepted only for what the commitment really holds",
  "A membership proof verifies against a commitment only for a position and element the committed tree holds, and a non-membership proof only for a position that is empty. Proofs that were altered, cut, replayed against another version, moved to another position or combined from several proofs never verify for a false statement and never make the verifier panic.",
  ["inputs", "histories", "fault_sequences"],
  "every adversarial alteration and recombination of honest proofs, every version of the tree",
  "Tests alter one element or one index of one proof.",
  ["merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/universal_merkle_tree.rs", "merkle_tree/src/hasher.rs"],
  [("path recomputation", "merkle_tree/src/internal.rs: verify_merkle_proof")])
p("M04", "Lookups return what was stored with a proof that verifies",
  "After any history of successful operations, looking up a position returns the element last stored there together with a proof that verifies against the current commitment, or, where nothing is stored, says so with a proof of absence that verifies. Iterating over the tree yields exactly the stored entries, and the reported size equals their number.",
  ["histories", "inputs", "configurations"],
  "every history of operations on every tree kind, arity and height, every position",
  "Tests look up a few leaves of small trees after one batch construction.",
  ["merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/append_only.rs", "merkle_tree/src/universal_merkle_tree.rs"],
  [("descent by index digits", "merkle_tree/src/internal.rs: lookup_internal")])
p("M05", "A failed tree operation leaves the tree as it was",
  "An operation that reports an error (full tree, forgotten entry, wrong proof, failing digest), or whose caller-supplied update function panics, leaves commitment, size, contents and proofs exactly as they were before the call, and the next valid operation behaves as if the failed one had never happened. The one documented exception is a batch append that is too long, which fills the tree with a prefix of the batch and reports an error.",
  ["histories", "fault_sequences", "inputs"],
  "every operation failing at every point of every history",
  "Tests assert that some calls fail but not what the tree looks like afterwards, and never let the update function panic.",
  ["merkle_tree/src/append_only.rs", "merkle_tree/src/universal_merkle_tree.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/internal.rs"],
  [("nodes are replaced only after success", "merkle_tree/src/internal.rs: update_with_internal")])
p("M06", "Trees, commitments and proofs survive storage and restart",
  "A tree, commitment or proof saved and reloaded equals the original and keeps working in every later operation, whatever short or interrupted transfers the storage made. A save cut off by a crash or disk error is never loaded as a different tree.",
  ["crash_points", "histories", "fault_sequences"],
  "every crash point and storage fault while saving and loading, at every point of every history",
  "Tests serialize one fresh tree or proof in memory.",
  ["merkle_tree/src/internal.rs", "merkle_tree/src/macros.rs", "merkle_tree/src/universal_merkle_tree.rs"],
  [("serde derivations with canonical field encoding", "merkle_tree/src/internal.rs")])
p("M07", "Older versions of a persistent tree never change",
  "Producing a new version of a tree by a persistent update leaves every earlier version's commitment, entries and proofs unchanged. Versions that share structure can be read and updated from several threads at once, and each behaves as if it were alone.",
  ["histories", "schedules"],
  "every history of versions and every interleaving of threads working on versions that share nodes",
  "Tests make one persistent update in one thread.",
  ["merkle_tree/src/universal_merkle_tree.rs", "merkle_tree/src/internal.rs"],
  [("shared immutable nodes", "merkle_tree/src/internal.rs: persistent_update_with_internal")])
# ---------------------------------------------------------------- pcs
p("K01", "Polynomial commitments and openings do not depend on threads",
  "Committing, batch-committing, opening and multi-opening give bit-identical results for every thread interleaving and pool size, equal to the single-threaded result.",
  ["schedules", "configurations", "inputs"],
  "every interleaving and pool size, every polynomial and degree",
  "A test run sees one schedule and compares nothing across schedules.",
  ["pcs/src/univariate_kzg/mod.rs", "pcs/src/multilinear_kzg/mod.rs", "pcs/src/poly.rs"],
  [("parallel multi-scalar multiplication and FFT", "pcs/src/univariate_kzg/mod.rs")])
p("K02", "Every honest opening verifies with the value of the polynomial",
  "For every polynomial within the supported degree and every point, the opening returns the polynomial's value there and a proof that verifies, whether made alone, in a batch, for many points at once, or over a root-of-unity domain; the batch and multi-point forms agree with the single ones. Lists that do not match in length or size are refused with an error.",
  ["inputs", "configurations", "histories"],
  "every polynomial, degree (including zero and the maximum), point set and batch composition",
  "Tests use random polynomials of a few degrees; zero, maximal and mismatched degrees and repeated points are not reached.",
  ["pcs/src/univariate_kzg/mod.rs", "pcs/src/multilinear_kzg/mod.rs", "pcs/src/multilinear_kzg/batching.rs", "pcs/src/poly.rs"],
  [("quotient polynomial", "pcs/src/univariate_kzg/mod.rs: open, multi_open_rou")])
p("K03", "A false or mismatched opening is never accepted",
  "Verification rejects an opening whose value, point, proof or commitment was altered, exchanged with another opening's, left out or added, both singly and inside a batch; one bad member makes the whole batch fail.",
  ["inputs", "fault_sequences", "histories"],
  "every alteration, swap, omission and repetition of parts of honest openings",
  "Tests alter one value of one opening.",
  ["pcs/src/univariate_kzg/mod.rs", "pcs/src/multilinear_kzg/mod.rs", "pcs/src/multilinear_kzg/batching.rs"],
  [("pairing check", "pcs/src/univariate_kzg/mod.rs: verify, batch_verify")])
p("K04", "Setup parameters, keys and proofs survive trimming, storage and restart",
  "Parameters trimmed to a degree, and parameters, commitments or proofs saved and reloaded over faulty storage, work exactly like the originals. Requests beyond the supported degree are refused with an error rather than answered wrongly.",
  ["crash_points", "configurations", "fault_sequences"],
  "every supported degree, every polynomial degree around the bound, every storage fault",
  "Tests use one parameter size and never exceed it by one.",
  ["pcs/src/univariate_kzg/srs.rs", "pcs/src/univariate_kzg/mod.rs", "pcs/src/multilinear_kzg/srs.rs", "pcs/src/structs.rs"],
  [("degree checks", "pcs/src/univariate_kzg/mod.rs: commit, trim")])

# ---------------------------------------------------------------- signatures, vrf, encryption
p("S01", "Honest signatures verify wherever and whenever they are checked",
  "For every key pair, including keys derived from a seed or reloaded from storage, and every message, a signature made by the signer verifies under the matching verification key, in the original process or after any restart, in any order of delivery. Keys and signatures keep their identity through encoding, and the encoded length equals the advertised length.",
  ["inputs", "histories", "crash_points"],
  "every key, message, encoding round trip, delivery order and restart",
  "Tests sign a few messages with fresh keys in one process.",
  ["signature/src/schnorr.rs", "signature/src/bls_over_bn254.rs", "signature/src/bls_over_bls12381.rs"],
  [("sign and verify", "signature/src")])
p("S02", "An altered, replayed or misattributed signature is rejected",
  "A signature is not accepted for a message, verification key or domain tag other than the one it was made for, nor after any alteration of its content; aggregated signatures are accepted only for the exact set of keys and messages. Damaged encodings produce errors, never panics.",
  ["inputs", "fault_sequences", "histories"],
  "every alteration, swap, replay and aggregation subset",
  "Tests try one wrong message and one wrong key.",
  ["signature/src/schnorr.rs", "signature/src/bls_over_bn254.rs", "signature/src/bls_over_bls12381.rs"],
  [("challenge binding / pairing equation", "signature/src")])
p("S03", "A weak or rolled-back random source never endangers a signing key",
  "Signing the same message with the same key always gives the same signature, and two different messages are never signed with the same one-time secret, whatever the random source returns: stuck, repeated or rolled back by a crash. Key generation consumes the random source and different source outputs give different keys.",
  ["fault_sequences", "crash_points", "histories"],
  "every behaviour of the random source and every crash and rollback between signatures",
  "Tests use one well-behaved deterministic generator.",
  ["signature/src/schnorr.rs", "signature/src/bls_over_bn254.rs", "vrf/src/blsvrf.rs"],
  [("nonce derived from key and message", "signature/src/schnorr.rs: sign")])
p("V01", "A verifiable random output is unique, provable and unforgeable",
  "For every key and input there is one output; the prover's output, the output recovered from the proof and the verifier's result agree across restarts and random sources. Verification with a different input, key or altered proof yields no output.",
  ["inputs", "histories", "fault_sequences"],
  "every key and input, every restart, alteration and swap",
  "Tests evaluate one input per key.",
  ["vrf/src/blsvrf.rs"],
  [("unique signature hashed to the output", "vrf/src/blsvrf.rs")])
p("E01", "Encrypted messages decrypt to the original on every schedule",
  "A message encrypted to a public key decrypts with the matching private key to exactly the original elements, for every length, thread interleaving and pool size, and after the ciphertext was stored or sent as field elements. With the same randomness the ciphertext is the same on every schedule; another key does not recover the message, and damaged encodings give errors, not panics. Keys and one-time secrets come wholly from the random source, and no part of the key stream is used twice.",
  ["schedules", "inputs", "fault_sequences"],
  "every message length, interleaving, pool size, key and alteration",
  "Tests encrypt a few lengths on one schedule.",
  ["elgamal/src/lib.rs"],
  [("counter-mode key stream processed in parallel chunks", "elgamal/src/lib.rs: apply_counter_mode_stream")])
p("A01", "Authenticated messages open exactly or not at all",
  "A message sealed for a recipient opens only with the recipient's key and the same associated data, and then to exactly the original bytes. Any altered, cut, extended, swapped or misdirected ciphertext is refused with an error, and decoding a ciphertext from damaged bytes never panics; a stored ciphertext reloads unchanged in every supported format. Keys and one-time secrets come wholly from the random source.",
  ["inputs", "fault_sequences", "histories"],
  "every message, associated data, alteration and transport fault",
  "Tests alter one field of one ciphertext in memory.",
  ["aead/src/lib.rs"],
  [("key exchange plus authenticated cipher", "aead/src/lib.rs")])

# ---------------------------------------------------------------- relation, plonk
p("R01", "Circuit checking accepts a witness exactly when every constraint holds",
  "A circuit built from correct values is reported satisfiable with its own public inputs, and changing a witness value or public input that a constraint depends on makes the check fail, before and after finalisation. The preprocessed circuit data do not depend on thread interleavings.",
  ["inputs", "schedules", "programs"],
  "every circuit program, witness alteration and interleaving",
  "Tests check each gadget on a few hand-picked values.",
  ["relation/src/constraint_system.rs", "relation/src/gadgets"],
  [("gate and permutation checks", "relation/src/constraint_system.rs")])
p("Z01", "Honest proofs verify and are the same on every schedule",
  "For every satisfiable circuit within the supported size the prover produces a proof that verifies, and with the same random source the proving key, verifying key and proof are bit-identical for every thread interleaving and pool size.",
  ["schedules", "programs", "configurations"],
  "every satisfiable circuit of both gate families, every interleaving and pool size",
  "Tests prove fixed circuits on one schedule and compare nothing across schedules.",
  ["plonk/src/proof_system/snark.rs", "plonk/src/proof_system/prover.rs", "relation/src/constraint_system.rs"],
  [("parallel polynomial arithmetic", "plonk/src/proof_system/prover.rs")])
p("Z02", "A false statement or altered proof is never accepted",
  "Verification rejects a proof presented with other public inputs, another verifying key or other transcript context than it was made for, and any proof with altered, swapped, missing or surplus parts, and it does so without panicking. Proving an unsatisfied circuit does not yield an accepted proof.",
  ["inputs", "fault_sequences", "programs"],
  "every alteration and recombination of proofs, inputs and keys exchanged between parties",
  "Tests alter a few fields of one proof.",
  ["plonk/src/proof_system/verifier.rs", "plonk/src/proof_system/snark.rs", "plonk/src/proof_system/structs.rs"],
  [("transcript binding and final pairing check", "plonk/src/proof_system/verifier.rs")])
p("Z03", "Batch verification accepts exactly when every member is valid",
  "Verifying many proofs together accepts when each verifies alone, and rejects when at least one does not, whatever its position, and when lists do not match in length or order. Proofs aggregated from several circuits behave alike.",
  ["inputs", "histories", "fault_sequences"],
  "every composition and order of a batch with any subset of bad members",
  "Tests verify one all-good batch and one with a single bad member.",
  ["plonk/src/proof_system/snark.rs", "plonk/src/proof_system/batch_arg.rs", "plonk/src/proof_system/verifier.rs"],
  [("random linear combination", "plonk/src/proof_system/verifier.rs: batch_verify_opening_proofs")])
p("Z04", "Proving keys, verifying keys and proofs survive storage and restart",
  "Keys and proofs saved and reloaded over faulty storage behave like the originals: a reloaded proving key makes the same proofs, a reloaded verifying key accepts and rejects the same proofs. Damaged or truncated data are refused or lead to rejection, never to acceptance of an unproved statement, and a damaged proof never causes a panic.",
  ["crash_points", "fault_sequences", "inputs"],
  "every crash point and storage fault, every alteration of the stored bytes",
  "Tests round-trip one proof in memory.",
  ["plonk/src/proof_system/structs.rs", "plonk/src/errors.rs"],
  [("canonical encoding of keys and proofs", "plonk/src/proof_system/structs.rs")])
p("Z05", "Proofs are freshly blinded by the random source",
  "Two proofs of the same statement and witness made with different random source outputs differ in every witness-dependent commitment, while both verify; with identical outputs they are identical.",
  ["fault_sequences", "histories"],
  "every state and rollback of the random source between proofs",
  "Tests never compare two proofs of one witness.",
  ["plonk/src/proof_system/prover.rs"],
  [("random masking polynomials", "plonk/src/proof_system/prover.rs: mask_polynomial")])

p("Z06", "Every challenge depends on everything sent before it",
  "In an exchange between prover and verifier both ends derive the same challenges, no two of them equal and none small enough to guess, and changing or exchanging any public input, context message, selector or permutation commitment of the key, or earlier part of the proof changes every challenge drawn after it, whichever transcript is used. In batch verification the value that combines the proofs changes with every part of every member. Likewise, altering, losing or reordering one message of a bare exchange changes all later challenges.",
  ["inputs", "histories", "fault_sequences"],
  "every statement, proof, transcript and batch, every single alteration on the way from prover to verifier",
  "Tests verify proofs; a challenge that leaves out what was sent keeps honest proofs verifying and refuses the test's random alterations, and only an adaptive forger would notice.",
  ["plonk/src/transcript/mod.rs", "plonk/src/transcript/standard.rs", "plonk/src/transcript/solidity.rs", "plonk/src/transcript/rescue.rs", "plonk/src/proof_system/verifier.rs", "plonk/src/proof_system/snark.rs"],
  [("statement absorbed first", "plonk/src/transcript/mod.rs: append_vk_and_pub_input"), ("challenge schedule", "plonk/src/proof_system/verifier.rs: compute_challenges"),
   ("combination of proofs", "plonk/src/proof_system/verifier.rs: batch_verify_opening_proofs")],
  ["challenges handed out by the caller's transcript"])

# ---------------------------------------------------------------- gadgets
p("G01", "Hash, PRF, encryption and signature circuits compute the native functions",
  "A circuit built from the hashing, pseudorandom function, commitment, encryption, key or signature gadgets on honest inputs is satisfied and carries exactly the value that the native function gives for those inputs. A prover who changes any of the circuit's intermediate or output values while the inputs stay as they are cannot keep the circuit satisfied with a different output. Inputs the native function refuses are refused or unsatisfiable rather than given another meaning, and building the circuit never panics.",
  ["inputs", "configurations", "fault_sequences"],
  "every input length and value, every supported field and curve, every witness a lying prover can reach by changing, exchanging or splicing assigned values",
  "Tests build one circuit per gadget and alter one output variable; they never look for a second satisfying assignment.",
  ["rescue/src/gadgets/native.rs", "rescue/src/gadgets/prf.rs", "rescue/src/gadgets/commitment.rs", "elgamal/src/gadgets.rs", "signature/src/gadgets/schnorr.rs"],
  [("permutation and sponge gates", "rescue/src/gadgets/native.rs"), ("stream cipher and key derivation", "elgamal/src/gadgets.rs"),
   ("verification equation", "signature/src/gadgets/schnorr.rs")],
  ["satisfiability of the built circuit and the value of its output variables"])
p("G02", "Tree membership circuits accept exactly what the tree's verifier accepts",
  "For every tree, position and entry, the membership and non-membership circuits are satisfied exactly when the native verifier accepts the same proof against the same commitment, and the variants that return a bit carry the native verdict. A prover who lies about the path, the siblings, the position, the entry or any intermediate value cannot make the circuit accept a statement that is false for the committed tree.",
  ["inputs", "histories", "fault_sequences"],
  "every history of writes and deletions, every position, every stale or altered proof, every assignment reachable by a lying prover",
  "Tests check a few positions of one small tree with one altered commitment and one altered sibling.",
  ["merkle_tree/src/gadgets/mod.rs", "merkle_tree/src/gadgets/universal_merkle_tree.rs"],
  [("path reordering", "merkle_tree/src/gadgets/mod.rs: constrain_sibling_order"), ("position to path", "merkle_tree/src/gadgets/universal_merkle_tree.rs")],
  ["satisfiability of the built circuit and its returned bit"])
p("G03", "Curve, big-field and modular arithmetic circuits compute the native operations",
  "Circuits for point addition, scalar and multi-scalar multiplication, emulated big-field arithmetic and arithmetic modulo a number are satisfied by honest inputs and carry the native result, including neutral, equal and opposite points, zero and extreme values. No assignment a lying prover reaches keeps such a circuit satisfied with a result different from the native one.",
  ["inputs", "configurations", "fault_sequences"],
  "every operand including the exceptional ones, every supported curve and modulus, every assignment reachable by changing values and carrying the change through range-checked limbs",
  "Tests use random operands, which never hit exceptional cases, and alter one output variable at random, which range checks catch; a consistent lie through carries is never tried.",
  ["relation/src/gadgets/ecc/mod.rs", "relation/src/gadgets/ecc/msm.rs", "relation/src/gadgets/ecc/glv.rs", "relation/src/gadgets/ecc/emulated", "relation/src/gadgets/emulated.rs", "relation/src/gadgets/ultraplonk/mod_arith.rs", "relation/src/gadgets/ultraplonk/non_native_gates.rs", "rescue/src/gadgets/non_native.rs"],
  [("complete and incomplete addition gates", "relation/src/gadgets/ecc"), ("limb and carry constraints", "relation/src/gadgets/emulated.rs"),
   ("modular arithmetic gates", "relation/src/gadgets/ultraplonk/mod_arith.rs")],
  ["satisfiability of the built circuit and the value of its output variables"])
p("G04", "A circuit's shape does not depend on the values it is built with",
  "Building the same gadget circuit with different inputs of the same declared sizes gives the same number of gates, wiring, selectors, tables and public inputs, so that a key preprocessed from one instance serves all others, including instances with exceptional, wrong or default values.",
  ["inputs", "histories", "fault_sequences"],
  "every pair of inputs of the same declared sizes, including positions present in or absent from a tree, exceptional points and zero values",
  "Tests compare no two instances or only two ordinary ones.",
  ["relation/src/constraint_system.rs", "relation/src/gadgets", "merkle_tree/src/gadgets", "rescue/src/gadgets"],
  [("gates chosen while building", "relation/src/gadgets"), ("proof-dependent path variables", "merkle_tree/src/gadgets/mod.rs")],
  ["selectors, wiring permutation and sizes of the finalised circuit"])
p("G05", "Circuits that read field elements as numbers admit only the true answer",
  "Circuits that split an element into bits, bound it, compare or truncate it, test it for zero, or combine bits are satisfied by honest inputs exactly when the statement holds of the canonical integers, for every bit length and every field. No assignment a lying prover reaches, including numbers written with the field's order added, keeps such a circuit satisfied with another answer.",
  ["inputs", "configurations", "fault_sequences"],
  "every element including the extremes near zero, half and the whole modulus, every bit length below, at and above the modulus size, every field, every assignment reachable by rewriting numbers and carrying the change forward",
  "Tests use ordinary values and alter one output variable; another representation of the same element in more digits is never tried.",
  ["relation/src/gadgets/range.rs", "relation/src/gadgets/cmp.rs", "relation/src/gadgets/arithmetic.rs", "relation/src/gadgets/logic.rs", "relation/src/gadgets/ultraplonk/range.rs"],
  [("binary decomposition", "relation/src/gadgets/range.rs"), ("comparison gates", "relation/src/gadgets/cmp.rs"),
   ("truncation", "relation/src/gadgets/arithmetic.rs")],
  ["satisfiability of the built circuit and the value of its output variables"])
p("G06", "The circuit that verifies proofs computes what the native verifier computes",
  "For all keys, proofs, shared public inputs and blinding factors, well formed or not accepted, the circuit that partially verifies a batch of proofs is satisfied and carries the two group elements the native verifier hands to the final pairing, whether keys are merged outside or inside the circuit. A prover who lies about any value computed on the way cannot make the circuit accept other group elements for the same keys, proof and inputs.",
  ["inputs", "configurations", "fault_sequences"],
  "every number of proofs, domain size, number of inputs and range table, every proof and key including neutral points and extreme evaluations, every falsified intermediate value with everything that follows computed from it",
  "Tests compare one honest batch of one shape and alter one output variable; a falsified hint whose consequences are computed consistently is never tried.",
  ["plonk/src/circuit/plonk_verifier", "plonk/src/circuit/transcript.rs", "relation/src/gadgets/ultraplonk/mod_arith.rs", "relation/src/gadgets/ecc/msm.rs"],
  [("values computed outside and then constrained", "plonk/src/circuit/plonk_verifier/poly.rs"), ("challenges", "plonk/src/circuit/transcript.rs"),
   ("aggregation of commitments and evaluations", "plonk/src/circuit/plonk_verifier/gadgets.rs")],
  ["satisfiability of the built circuit and the value of its output points"])
# ---------------------------------------------------------------- pure functions, not claimed
p("N01", "Hash functions match their published definitions",
  "The permutations compute the functions specified in the literature for each supported field.",
  ["inputs"], "every input", "Tests compare against one vector per field.",
  ["rescue/src/permutation.rs", "poseidon2/src/permutation.rs"], [("round functions", "rescue/src/permutation.rs")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
