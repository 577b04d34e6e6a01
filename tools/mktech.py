#!/usr/bin/env python3
"""Write tools/technique.json."""
import json
import os

T = {
 'C01': ('end-to-end executions over encoded messages under generated parameters, monitored by a plain integer oracle for the batch result',
         'Random and boundary-biased parameters, share counts 2..255, batches, contexts and randomness, also over an XOF with many out-of-range candidates; not exhaustive. Circuits are kept to a few hundred gadget calls so that one case stays below a few seconds.'),
 'C02': ('fault injection by a malicious-client model that forges reports for invalid encodings; acceptance monitor at the API boundary, honest controls through the same forge path',
         'Attack families are enumerated (vector classes x forging strategies, joint randomness chosen or stale, vectors up to about 2500 elements); the soundness error itself (2^-50 and smaller) is below what executions can observe.'),
 'C03': ('fault injection: every field of every message of an honest run is altered in transit by structured and bit-level faults; conservation oracle (rejected, or shares still add up to the honest output)',
         'Every bit of every message of small instances, sampled and structured edits of large ones (to 300 candidate prefixes); one altered message at a time.'),
 'C04': ('trace monitoring of multi-level Poplar1 histories over encoded messages against a plain prefix-count oracle',
         'All histories of tiny trees, sampled ones up to 300 bits.'),
 'C05': ('fault injection by a malicious-client model (arbitrary IDPF values, correlated randomness offsets, corrected public shares, vectors fitted to the measured influence of each candidate); one-hot invariant monitor on recombined output shares',
         'Enumerated attack families; 64-bit inner field soundness error is ignored.'),
 'C06': ('differential executions with exactly one injected disagreement between the parties; acceptance monitor with an accepted control run per case',
         'One- and all-party disagreements in every bound value, sampled near-miss values, exchanges among up to 254 helpers.'),
 'C07': ('point-function invariant monitor on recombined IDPF evaluations, and cross-evaluation consistency of each prefix share over sets and orders',
         'Full trees up to 7 bits, sampled sets up to 300 bits; value lengths to 257; several related reports per object.'),
 'C08': ('reference-model monitor of is_valid() over generated histories and their one-condition mutants, all pairs of small parameters',
         'All parameter pairs for trees of up to 3 levels with up to 2 prefixes, sampled histories up to 300 bits.'),
 'C09': ('round-trip and canonicality monitor on every message of recorded executions, with structured and random byte-level mutation of decoder inputs',
         'Decoders are fed mutants of real messages and random strings; not all byte strings.'),
 'C10': ('online trace-specification monitor of ping-pong sessions (state machine, framing, step count) with the broadcast execution as oracle, over real VDAFs and synthetic ones with 1..N rounds',
         'Synthetic VDAFs up to 700 rounds; real VDAFs as in C01/C04.'),
 'C11': ('fault injection into ping-pong sessions (malformed, replayed, reordered, cross-session, mistyped messages); fail-closed monitor on every returned state, snapshots of state objects',
         'Every bit of short messages, sampled hostile byte strings and all message-type/order combinations of small sessions.'),
 'C12': ('reference-model monitor of XOF streams under split and interleaved reads; scripted byte sources for the rejection sampler; collision monitor over ambiguous inputs',
         'Sampled inputs and lengths (reads beyond 64 KiB, binders beyond 64 KiB); the primitive itself (TurboSHAKE128, AES) comes from Cryptodome on both sides and is cross-checked by the published vectors in setup.'),
 'C13': ('integer-arithmetic oracle monitoring field operations, canonicality invariant, codec mutation',
         'Boundary-biased operands and short operation chains; not all operand pairs.'),
 'C14': ('schoolbook-arithmetic oracle monitoring transforms, products, evaluation and interpolation',
         'All sizes 1..256 (sampled up to 1024), sampled polynomials incl. zero, constant, sparse, periodic, symmetric and few-valued ones, node evaluation.'),
 'C15': ('acceptance and linearity monitors over executions of the proof system on built-in and generated circuits',
         'Generated circuits with up to 3 gadgets, degrees to 7; built-in circuits with up to hundreds of calls; up to 255 shares.'),
 'C16': ('fault injection into measurements, proofs and query points; rejection monitor with specification-level validity as oracle',
         'Every proof element for small circuits, sampled for large (more than 32 outputs, three gadgets); soundness error ignored.'),
 'C17': ('domain-boundary workloads with acceptance monitor end to end (in-range round trip, out-of-range never aggregated)',
         'Boundary and sampled values around every documented limit.'),
 'C18': ('conservation monitor over recorded output shares under permutations, partitions and merge trees',
         'Sampled permutations, partitions and merge trees; up to 700 shares merged at once.'),
 'C19': ('purity monitors: deep snapshots of arguments and results, repeated and interleaved calls, forced line-level thread interleavings, exceptions injected at observed lines; redo comparison oracle',
         'Two to four threads, sampled interruption lines and schedules.'),
 'C20': ('relational monitors over paired executions (same randomness, different measurement; one randomness byte changed) and statistical monitors over sampled shares',
         'Statistical tests with false-alarm probability below 1e-12 on fixed sample sizes; up to 255 shares and more than 2048 elements; simulation-based privacy is not decided (C25).'),
 'C21': ('differential monitoring of every encoded message against an independent model of the draft',
         'Same generator as C01, also altered messages; the model reproduces all published vectors at setup.'),
 'C22': ('differential monitoring of every encoded message against an independent model of the draft',
         'Same generator as C04/C07 with strings to 4200 bits, also altered messages; the model reproduces all published vectors at setup.'),
 'C23': ('offline checker replaying recorded operation lists from generated vector files; regeneration compared with the published files',
         'All published files and sampled parameter choices.'),
 'C24': ('trace-specification monitor over recording VDAF/DAF/FLP objects with injected failures',
         'Synthetic recorders with up to 70 rounds, 256 shares and 300 measurements.'),
}
here = os.path.dirname(os.path.abspath(__file__))
json.dump({k: dict(technique=a, note=b) for k, (a, b) in T.items()}, open(os.path.join(here, 'technique.json'), 'w'), indent=1)
