#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  CLAIMED: property -> note; NA: property -> reason."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
SIM = "seeded search; says nothing about plans not drawn; trusts the simulator, the oracle and the listed stand-ins"
CLAIMED = {
 "U01": ("deterministic simulation: seeded loss/duplication/reordering/crash histories of a share dispersal", "oracle is the original data"),
 "U02": ("deterministic simulation: seeded inadequate share sets left by network faults", "oracle: error expected by construction"),
 "U03": ("deterministic simulation: seeded pack/store/crash/damage histories", "oracle: the original bytes; ten fields"),
 "U04": ("deterministic simulation: seeded disk faults, crashes and tampering around save and load", "oracle: the saved value; upstream allocation failures on corrupted vector lengths are discarded"),
 "U05": ("deterministic simulation: seeded thread schedules with preemption, spurious wake-ups and panicking callbacks", "oracle: sequential iteration; sequentially consistent memory, basic-block granularity"),
 "U06": ("deterministic simulation: seeded thread schedules over point lists", "oracle: bilinearity"),
 "M01": ("deterministic simulation: seeded replicated writes over a lossy, duplicating, reordering network with crashes", "oracle: one-batch construction and a plain map; ten digests and arities"),
 "M02": ("deterministic simulation: seeded forget/remember histories of a partial replica with lost, repeated and corrupted proof messages and restarts", "oracle: the full replica"),
 "M03": ("deterministic simulation: seeded adversary altering proofs in transit", "oracle: contents of every committed version; known findings listed"),
 "M04": ("deterministic simulation: seeded operation histories with restarts and failing digests", "oracle: a plain map; known finding listed"),
 "M05": ("deterministic simulation: seeded fault points (digest errors, panicking callbacks, wrong proofs, full tree)", "oracle: a copy that never saw the failure"),
 "M06": ("deterministic simulation: seeded storage faults and crashes around save and load", "oracle: a twin that was never stored; text form up to height 30 (the text reader's nesting limit)"),
 "M07": ("deterministic simulation: seeded thread schedules over versions that share nodes", "oracle: snapshots and one-batch construction; sequentially consistent memory"),
 "K01": ("deterministic simulation: seeded thread schedules and pool sizes, several callers sharing parameters", "oracle: the single-threaded bytes; degrees to 40 quick, 120 thorough; sequentially consistent memory"),
 "K02": ("deterministic simulation: seeded prover/verifier sessions, some under thread schedules", "oracle: the polynomial evaluated by definition and the single opening; known finding listed"),
 "K03": ("deterministic simulation: seeded adversary altering openings in transit", "oracle: the honest opening; an accepted claim must be true with its honest proof"),
 "K04": ("deterministic simulation: seeded storage faults and crashes around keys and proofs, requests around the degree bound", "oracle: untrimmed or never stored keys"),
 "S01": ("deterministic simulation: seeded signer/verifier histories with storage, restarts and redelivery over faulty carriers", "oracle: honest signatures verify; five schemes, blst stand-in"),
 "S02": ("deterministic simulation: seeded adversary altering messages, tags, keys and signatures in transit", "oracle: the list of what was signed; two known findings listed; blst stand-in"),
 "S03": ("deterministic simulation: seeded stuck, failing and rolled-back random sources around signing and key generation", "oracle: equality for equal messages, distinct one-time values otherwise; blst stand-in"),
 "V01": ("deterministic simulation: seeded prover/verifier histories with broken random sources, restarts and an adversary", "oracle: a fresh instance; blst stand-in"),
 "E01": ("deterministic simulation: seeded thread schedules and pool sizes, altered and damaged ciphertexts", "oracle: the message and the single-threaded ciphertext; up to 120 elements; sequentially consistent memory"),
 "A01": ("deterministic simulation: seeded carrier faults, restarts and an adversary altering ciphertexts", "oracle: the list of what was sealed; cipher and key exchange are stand-ins"),
 "H01": ("deterministic simulation: seeded thread schedules over first use of parameter tables", "oracle: the answer of a process that hashed nothing else; sponge stand-in; sequentially consistent memory"),
 "H02": ("deterministic simulation: seeded committer/verifier histories with storage, restarts and altered openings", "oracle: the list of what was committed"),
 "R01": ("deterministic simulation: seeded circuit programs with a lying prover altering witnesses, some under thread schedules", "oracle: the list of declared constraints evaluated on a plain model, and the definitions of the permutation and lookup arguments; three fields"),
 "Z01": ("deterministic simulation: seeded thread schedules of the prover, pool sizes and concurrent callers over random circuits", "oracle: the same session on one thread, and the model's word that the circuit is satisfied; domains 2 to 512; three curves; sequentially consistent memory"),
 "Z02": ("deterministic simulation: an adversary between prover and verifier, and lying provers built on the arithmetisation interface", "oracle: the list of what honest provers made; random alterations, not a proof of soundness"),
 "Z03": ("deterministic simulation: seeded batches with altered, exchanged, cancelling and mismatched members", "oracle: verification of each member alone; random alterations"),
 "Z04": ("deterministic simulation: keys and proofs on a simulated disk with crashes, short and failed transfers and damage", "oracle: the values before storage; damaged keys may panic as keys are trusted"),
 "Z05": ("deterministic simulation: fresh, rolled-back, stuck and failing random sources over repeated proofs", "oracle: equality and difference of commitments across proofs of one witness"),
 "Z06": ("deterministic simulation: recording transcripts at both ends of an exchange with single parts altered, lost or exchanged in between", "oracle: which challenges come after the altered part"),
 "G01": ("deterministic simulation: seeded circuit building sessions with a lying prover altering, exchanging and splicing witnesses", "oracle: the native functions; lies are sampled, not exhausted"),
 "G02": ("deterministic simulation: seeded tree histories and a lying prover over membership circuits", "oracle: the native verifier and a plain map; known findings listed"),
 "G03": ("deterministic simulation: seeded operands and a lying prover that carries changes through limbs", "oracle: native curve, field and integer arithmetic; lies are sampled, not exhausted"),
 "G04": ("deterministic simulation: seeded pairs of instances of one circuit", "oracle: equality of the finalised circuits' shapes; selectors compared up to 60000 gates"),
 "G05": ("deterministic simulation: seeded values at extremes and a lying prover that rewrites numbers in other digits", "oracle: integer arithmetic; six fields, two of them small"),
 "G06": ("deterministic simulation: seeded keys, proofs and inputs, and a prover whose scalar arithmetic lies at single operations while the circuit is built", "oracle: the native verifier; one curve, the only one the circuit supports; up to three proofs, domains to 512"),
 "X01": ("deterministic simulation: seeded histories with rolled-back and failing random sources", "oracle: replay with the returned seed"),
}
NA = {
 "U07": "pure functions of their arguments: no concurrency, time, I/O or second party for a simulator to vary",
 "N01": "pure functions; needs independent reference vectors, nothing for a simulator to vary",
}
checks = []
for i in ids:
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n + "; " + SIM))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in CLAIMED]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Deterministic simulation with fault injection; no hooks in /repo are needed (seams: libc symbols, compiler callbacks, Read/Write/Rng/closure parameters). See DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
