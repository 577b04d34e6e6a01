"""Writes /verif/properties.jsonl (kept as code so that edits stay reviewable)."""
import json

P = 'poc/vdaf_poc/'
V3, VP, IDPF, FLPB = P + 'vdaf_prio3.py', P + 'vdaf_poplar1.py', P + 'idpf_bbcggi21.py', P + 'flp_bbcggi19.py'
FLD, XOF, COM, PP, VD, DAF, FLP, TU = (P + x for x in (
    'field.py', 'xof.py', 'common.py', 'vdaf_ping_pong.py', 'vdaf.py', 'daf.py', 'flp.py', 'test_utils.py'))
GTV = 'poc/gen_test_vec.py'


def m(name, where):
    return {'name': name, 'where': where}


PROPS = [
    dict(
        id='C01', title='Prio3 aggregate results are exact',
        statement='For every Prio3 variant, every legal parameter choice, any number of aggregators from 2 to 255 and any '
        'context, verification key, nonces and sharding randomness, a batch of in-range measurements is accepted by every '
        'aggregator and the collected result equals the plain count, sum, element-wise sum or histogram of the batch '
        '(as long as the true totals are below the field modulus). This holds when every share and message travels '
        'between the parties in its encoded form.',
        quantifier=dict(over=['inputs', 'configurations', 'histories'],
                        text='all variants x parameters (lengths, bounds, chunk lengths, proof counts, share counts) x '
                        'measurement batches x contexts/keys/nonces/randomness'),
        why_tests_cant='Tests run a dozen fixed parameter sets with 2-4 aggregators and at most a handful of measurements; '
        'they never pass messages through the codecs in an end-to-end run and never reach boundary chunk lengths, large '
        'share counts or long contexts.',
        anchors=dict(files=[V3, FLPB, FLD, XOF, COM], mechanism=[
            m('sharding, verification and aggregation of Prio3', V3), m('encode/truncate/decode of the circuits', FLPB)],
            observe_at=['shard, verify_init, verifier_shares_to_message, verify_next, agg_update, merge, unshard and codecs'])),
    dict(
        id='C02', title='Prio3 never accepts an invalid measurement',
        statement='No report whose secret-shared encoded measurement lies outside the set of valid encodings of its variant '
        'yields output shares at all aggregators, whatever proofs, joint randomness parts and blinds a malicious client '
        'attaches to it (up to the negligible soundness error of the field). A report carrying several proofs is accepted '
        'only if every one of them verifies.',
        quantifier=dict(over=['inputs', 'configurations'],
                        text='all variants and parameters x all invalid encoded vectors (single bad element, cancelling '
                        'pairs, out-of-range totals, wrong weight) x forged proofs'),
        why_tests_cant='Tests try a few hand-picked invalid vectors directly on the circuits and four tampered reports with '
        'fixed bytes; they do not drive the aggregators with an adversarial client over varied positions, chunkings and proofs.',
        anchors=dict(files=[V3, FLPB], mechanism=[
            m('proof decision for every proof and joint-randomness check', V3), m('query/decide and the validity circuits', FLPB)],
            observe_at=['verifier_shares_to_message, verify_next'])),
    dict(
        id='C03', title='Altered reports and verification messages are rejected or harmless',
        statement='If any part of an honest report (public share or an input share) or of a verification exchange (a verifier '
        'share or a verifier message, for any aggregator and round) is altered in transit, verification fails, or the output '
        'shares still add up to exactly the honest output. An alteration never makes Prio3 or Poplar1 aggregate a different value.',
        quantifier=dict(over=['inputs', 'fault_sequences', 'configurations'],
                        text='all VDAFs and parameters x all alterations (bit flips, byte/element substitution, swaps, '
                        'truncation, extension, cross-report splices) of every message field'),
        why_tests_cant='Only seven recorded alterations of two reports are replayed; most message fields, aggregators, rounds '
        'and positions are never altered.',
        anchors=dict(files=[V3, VP, IDPF, FLPB], mechanism=[
            m('joint randomness confirmation, proof verification', V3), m('two-round secure sketch', VP)],
            observe_at=['decode_*, verify_init, verifier_shares_to_message, verify_next'])),
    dict(
        id='C04', title='Poplar1 prefix counts are exact at every level of every history',
        statement='For every string length, every batch of strings and every valid sequence of aggregation parameters, '
        'running Poplar1 over honest reports accepts every report and the collected result lists, in the order of the '
        'candidate prefixes, exactly how many of the strings start with each prefix. The result at one level does not depend '
        'on which levels were queried before.',
        quantifier=dict(over=['inputs', 'histories', 'configurations'],
                        text='bit lengths x strings x candidate prefix sets (empty, full, sparse, large) x level sequences x contexts/keys/nonces'),
        why_tests_cant='Tests use bit lengths up to 256 with a few strings and a handful of prefix sets, one level per run.',
        anchors=dict(files=[VP, IDPF, XOF, FLD], mechanism=[
            m('sharding, sketch verification, aggregation', VP), m('IDPF generation and evaluation', IDPF)],
            observe_at=['shard, verify_init, verify_next, verifier_shares_to_message, agg_update, unshard'])),
    dict(
        id='C05', title='Poplar1 never accepts a report that is not one-hot',
        statement='Whatever public share, keys and correlated randomness a malicious client distributes, if both aggregators '
        'obtain output shares for a set of candidate prefixes then those shares add up to a vector that is all zeros except '
        'for at most one entry equal to one (up to the negligible soundness error).',
        quantifier=dict(over=['inputs', 'histories', 'configurations'],
                        text='bit lengths x levels x prefix sets x malicious programmings (weights other than one, several '
                        'paths, wrong authenticators, inconsistent correlated randomness)'),
        why_tests_cant='Exactly one malformed report (one changed correlation element at level 0 of a 2-bit tree) is tested.',
        anchors=dict(files=[VP, IDPF], mechanism=[m('sketch polynomial check with verification randomness', VP)],
                     observe_at=['verifier_shares_to_message, verify_next'])),
    dict(
        id='C06', title='Verification binds context, nonce, key, identity and algorithm',
        statement='Verification succeeds only if the client and all aggregators use the same application context and '
        'algorithm, the aggregators use the same verification key, nonce and aggregation parameter, and each aggregator '
        'processes the input share and identity assigned to it; with joint randomness or Poplar1 the nonce must also be the '
        'one the client sharded with. Any single disagreement makes verification fail.',
        quantifier=dict(over=['inputs', 'configurations', 'histories'],
                        text='all VDAFs x one-party or all-party disagreements in context (prefix, suffix, length, single '
                        'bit), nonce, key, aggregator index, proof count, variant'),
        why_tests_cant='Tests always use one agreed context, key and nonce; disagreement is not exercised.',
        anchors=dict(files=[V3, VP, IDPF, VD, XOF, COM], mechanism=[
            m('domain separation tag', VD), m('binder strings', V3), m('binder strings', VP)],
            observe_at=['verify_init, verifier_shares_to_message, verify_next'])),
    dict(
        id='C07', title='The IDPF shares exactly the programmed point function',
        statement='For every input string, programmed values and value length, at every level the two parties\' evaluations of '
        'any set of distinct prefixes add up to the value programmed for that level on the prefix of the input string and to '
        'zero on every other prefix, independent of which other prefixes are evaluated and in which order. Inputs outside the '
        'domain (wrong lengths, duplicate prefixes, bad level or party) are refused.',
        quantifier=dict(over=['inputs', 'configurations'],
                        text='value lengths x bit lengths x strings x programmed values x levels x prefix sets x contexts/nonces/randomness'),
        why_tests_cant='Tests check a few strings and small exhaustive trees with value length 2 and fixed contexts.',
        anchors=dict(files=[IDPF, P + 'idpf.py', XOF], mechanism=[m('gen / eval', IDPF)], observe_at=['gen, eval, encode/decode_public_share'])),
    dict(
        id='C08', title='Aggregation-parameter reuse is permitted exactly when it is safe',
        statement='For Prio3 a report may be used only once. For Poplar1 an aggregation parameter is permitted after a history '
        'exactly when its candidate prefixes are distinct and in lexicographic order, its level is greater than the '
        'last level used and every candidate extends one of the prefixes used last.',
        quantifier=dict(over=['histories', 'inputs'],
                        text='all sequences of aggregation parameters, valid and invalid in exactly one respect'),
        why_tests_cant='About a dozen fixed histories of length at most two are tested.',
        anchors=dict(files=[VP, V3], mechanism=[m('is_valid', VP), m('is_valid', V3)], observe_at=['is_valid'])),
    dict(
        id='C09', title='VDAF message codecs are lossless and canonical',
        statement='Every public share, input share, verifier share, verifier message, output share, aggregate share and '
        'aggregation parameter that a VDAF produces decodes to the same value it was encoded from. A decoder given any byte '
        'string either fails or returns a value whose encoding is exactly that string; truncated, extended or over-modulus '
        'public shares, input shares, Prio3 verifier shares and aggregation parameters always fail to decode, and Poplar1 '
        'verifier shares of a wrong size fail at the latest when combined with the peer\'s.',
        quantifier=dict(over=['inputs', 'configurations'], text='all VDAFs and parameters x all byte strings, in particular mutations of valid encodings'),
        why_tests_cant='Tests round-trip a few recorded messages; malformed strings are hardly tried.',
        anchors=dict(files=[V3, VP, IDPF, FLD, COM], mechanism=[m('encode_*/decode_*', V3), m('encode_*/decode_*', VP), m('public share packing', IDPF)],
                     observe_at=['encode_*, decode_*'])),
    dict(
        id='C10', title='Honest ping-pong runs end in agreement with the broadcast execution',
        statement='For every two-aggregator VDAF, whatever its number of rounds, a ping-pong exchange between an honest leader '
        'and helper on an honest report finishes on both sides with the same output shares as the direct execution, after '
        'ceil((rounds+1)/2) requests, and every message on the way has the specified type and framing and carries the '
        'verifier share and message of its round. On an invalid report neither side finishes.',
        quantifier=dict(over=['inputs', 'configurations', 'histories'],
                        text='Prio3 variants, Poplar1 levels and synthetic VDAFs with 1..N rounds x reports x parameters, interleaved sessions'),
        why_tests_cant='Only a toy VDAF with 1-3 rounds runs through it; neither Prio3 nor Poplar1 ever does.',
        anchors=dict(files=[PP, VD], mechanism=[m('leader/helper init, transition, continued', PP)], observe_at=['ping_pong_* methods'])),
    dict(
        id='C11', title='Ping-pong fails closed on hostile input',
        statement='Whatever byte strings a peer sends and in whatever order, every ping-pong step returns a state and never '
        'raises; malformed, wrongly typed, out-of-round or unverifiable messages yield rejection. An output share is released '
        'only on a well-formed final message for the last round (or by completing the last round itself) whose verification succeeds, '
        'and a step never alters the state object it was given.',
        quantifier=dict(over=['inputs', 'histories', 'schedules', 'fault_sequences'],
                        text='VDAFs with 1..N rounds x sequences of malformed, replayed, reordered, cross-session and type-confused messages'),
        why_tests_cant='No hostile message is ever sent in the tests.',
        anchors=dict(files=[PP, COM], mechanism=[m('message decoding and state checks', PP)], observe_at=['ping_pong_* methods, message encode/decode'])),
    dict(
        id='C12', title='XOF output is an unbiased function of seed, tag and binder only',
        statement='For any seed, domain separation tag and binder the output stream is exactly the one the draft defines, '
        'independent of how reads are split and of other instances, and different inputs give unrelated streams even if '
        'their concatenations coincide. Vectors sampled from it contain exactly the in-range values of the masked stream, in '
        'order, with out-of-range candidates skipped; inputs outside the defined sizes are refused.',
        quantifier=dict(over=['inputs', 'histories', 'schedules'],
                        text='seeds/tags/binders of all lengths x read patterns x interleavings of instances x fields x crafted streams forcing rejection'),
        why_tests_cant='Two fixed vectors with short binders and one rejection case are tested.',
        anchors=dict(files=[XOF, COM], mechanism=[m('TurboSHAKE and fixed-key AES streams, rejection sampling', XOF)],
                     observe_at=['constructor, next, next_vec, derive_seed, expand_into_vec'])),
    dict(
        id='C13', title='Field arithmetic and encoding agree with integers modulo the prime',
        statement='In each of the four fields every sum, difference, negation, product, power and inverse equals the result '
        'computed with integers modulo the field\'s prime, results are always canonical, and vectors encode to fixed-size '
        'little-endian strings that decode back to the same vector. Strings of the wrong length or containing a value not '
        'below the prime are refused.',
        quantifier=dict(over=['inputs'], text='all pairs of field elements with emphasis on boundary and carry values; all vectors and byte strings'),
        why_tests_cant='Tests use a few random values and identities per field.',
        anchors=dict(files=[FLD, COM], mechanism=[m('Field operators, encode_vec, decode_vec', FLD)], observe_at=['Field operators, encode_vec, decode_vec, vec_add/vec_sub/vec_neg'])),
    dict(
        id='C14', title='Polynomial transforms and evaluation agree with schoolbook algebra',
        statement='For every NTT-friendly field and polynomial, forward, shifted and inverse transforms, products, evaluations '
        'and interpolations in monomial and in root-of-unity (Lagrange) representation give the result of schoolbook '
        'polynomial arithmetic, including zero, constant and sparse polynomials and evaluation at the nodes themselves.',
        quantifier=dict(over=['inputs', 'configurations'], text='fields x sizes (powers of two, partial lengths) x polynomials x evaluation points'),
        why_tests_cant='Tests use random dense polynomials of a few sizes; sparse, zero, short or node-evaluation cases are not settled.',
        anchors=dict(files=[FLD, COM], mechanism=[m('ntt, inv_ntt, Lagrange, poly_*', FLD)], observe_at=['ntt, inv_ntt, nth_root(s), poly_*, Lagrange methods'])),
    dict(
        id='C15', title='Proofs of valid measurements always verify, from any linear sharing',
        statement='For every validity circuit built from the provided gadgets, every valid encoded measurement and all prover, '
        'joint and query randomness (other than refused query points), the proof has the declared length and is accepted. '
        'Querying is linear: the sum of the verifiers computed from any additive (or affine) sharing of measurement and proof '
        'equals the verifier of the unshared data.',
        quantifier=dict(over=['inputs', 'programs', 'configurations'], text='built-in and generated circuits (several gadgets, degrees, call counts) x measurements x randomness x sharings into 1..n shares'),
        why_tests_cant='Tests run each built-in circuit on a few measurements with two or three shares.',
        anchors=dict(files=[FLPB, FLP, FLD], mechanism=[m('prove, query, decide', FLPB)], observe_at=['prove, query, decide, run_flp, additive_secret_share'])),
    dict(
        id='C16', title='The proof system rejects false statements and unsafe query points',
        statement='For every validity circuit, an encoded measurement that the circuit\'s specification calls invalid, or a '
        'proof altered in any element, is rejected when the verifier is assembled from shares (up to negligible '
        'error). A query whose test point is one of the interpolation points is refused rather than answered.',
        quantifier=dict(over=['inputs', 'programs', 'configurations'], text='built-in and generated circuits x invalid measurements x forged or altered proofs x random and adversarial query points'),
        why_tests_cant='Soundness is quantified over all invalid inputs and forged proofs; tests try a handful of invalid inputs with honest provers.',
        anchors=dict(files=[FLPB], mechanism=[m('circuit eval, gadget tests, root-of-unity abort', FLPB)], observe_at=['query, decide, eval'])),
    dict(
        id='C17', title='Measurements and parameters outside the domain are never accepted',
        statement='Every in-range measurement encodes to a vector of declared length that its circuit accepts and that decodes '
        'back to the measurement. Sharding a measurement outside the variant\'s domain (out of range, wrong length, too heavy) '
        'fails or leads to a report that the aggregators reject, nonces and randomness of the wrong size are refused, and constructing a variant '
        'with parameters outside the documented ranges fails.',
        quantifier=dict(over=['inputs', 'configurations'], text='all measurements around the domain boundary (negative, maximum, maximum+1, wrong type sizes) x parameters around each documented bound'),
        why_tests_cant='Only some constructors and a few over-large measurements are tested; negative values and most bounds are not.',
        anchors=dict(files=[FLPB, V3, VP, IDPF], mechanism=[m('encode and constructor checks', FLPB), m('size checks', V3)], observe_at=['constructors, shard'])),
    dict(
        id='C18', title='Aggregation is independent of order, batching and merging',
        statement='For every VDAF, accumulating a set of output shares gives the same aggregate share whatever the order and '
        'however the set is split into batches whose aggregate shares are later merged, an empty aggregate changes nothing, '
        'and unsharding does not depend on the order of the aggregate shares. Shares of mismatched length are refused, never silently truncated.',
        quantifier=dict(over=['schedules', 'histories', 'inputs'], text='permutations, partitions and merge trees of accepted output shares, including interleaved concurrent batches'),
        why_tests_cant='Tests accumulate one batch in one order; merging is exercised on single batches only.',
        anchors=dict(files=[V3, VP, COM], mechanism=[m('agg_init, agg_update, merge, unshard', V3), m('agg_init, agg_update, merge, unshard', VP)],
                     observe_at=['agg_init, agg_update, merge, unshard'])),
    dict(
        id='C19', title='Operations are pure: no hidden state, no argument mutation',
        statement='Every operation of a VDAF, FLP, IDPF, field or polynomial object (other than advancing an XOF stream or those documented to work in place) is '
        'a function of its arguments: it leaves its arguments and earlier results unmodified and returns the same result '
        'whatever calls came before, failed, were interrupted by an exception or run concurrently on the same object.',
        quantifier=dict(over=['histories', 'schedules', 'crash_points', 'fault_sequences'],
                        text='call histories on shared objects, interleaved sessions, thread schedules forced at line granularity, exceptions injected at arbitrary lines'),
        why_tests_cant='Tests call each operation once on fresh objects in a single thread.',
        anchors=dict(files=[FLPB, V3, VP, IDPF, FLD, PP], mechanism=[m('circuit copy before recording wires', FLPB), m('copying of mutable inputs', V3)],
                     observe_at=['all public methods'])),
    dict(
        id='C20', title='Shares hide the measurement behind fresh randomness',
        statement='For fixed sharding randomness every Prio3 input share other than the first, and both Poplar1 input shares, '
        'are independent of the measurement, and the first Prio3 measurement share is the encoded measurement offset by a mask '
        'that does not depend on the measurement and covers every element. Every byte of the sharding randomness influences the '
        'report, changing one helper\'s seed re-randomises every element of the first share, and over random choices no single '
        'share or public correction is correlated with the measurement.',
        quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all VDAFs and parameters x pairs of measurements x randomness differing in one byte'),
        why_tests_cant='Tests only look at end results, which are unaffected by a share that is not masked.',
        anchors=dict(files=[V3, VP, IDPF], mechanism=[m('sharding', V3), m('sharding', VP), m('gen', IDPF)], observe_at=['shard'])),
    dict(
        id='C21', title='Prio3 messages are bit-exact with the draft',
        statement='For every variant, parameter choice, share count, context, key, nonce, randomness and measurement, each '
        'encoded public share, input share, verifier share, verifier message, output share and aggregate share is '
        'byte-for-byte the one prescribed by the specification, so that independent implementations interoperate.',
        quantifier=dict(over=['inputs', 'configurations'], text='all Prio3 variants x parameters x inputs'),
        why_tests_cant='Recorded vectors cover about twenty parameter sets, all with the same context and counting-byte randomness.',
        anchors=dict(files=[V3, FLPB, XOF, VD, COM], mechanism=[m('shard, verify_*', V3)], observe_at=['shard, verify_*, encode_*'])),
    dict(
        id='C22', title='Poplar1 and IDPF messages are bit-exact with the draft',
        statement='For every bit length, level, prefix set, context, key, nonce, randomness and string, each encoded public '
        'share, input share, verifier share and message of both rounds, output share, aggregate share and aggregation '
        'parameter is byte-for-byte the one prescribed by the specification; likewise the IDPF keys, corrections and evaluations.',
        quantifier=dict(over=['inputs', 'configurations', 'histories'], text='bit lengths x levels x prefix sets x inputs'),
        why_tests_cant='Seven recorded vectors with 2-, 4- and 11-bit strings and one IDPF vector with 10 bits exist.',
        anchors=dict(files=[VP, IDPF, XOF, VD, COM], mechanism=[m('shard, verify_*', VP), m('gen, eval', IDPF)], observe_at=['shard, verify_*, encode_*, gen, eval'])),
    dict(
        id='C23', title='Generated test vectors are faithful records of real executions',
        statement='Running the generator reproduces the published test vectors exactly. For any VDAF, parameters and batch, a '
        'generated vector records every input and message of one execution and an operation list in executable order, '
        'so that replaying the operations on that VDAF from the file alone reproduces every recorded value and the aggregate result.',
        quantifier=dict(over=['inputs', 'configurations', 'programs'], text='all VDAFs (incl. several rounds) x parameters x batches; the whole published set'),
        why_tests_cant='Tests consume the published files but never run the generator.',
        anchors=dict(files=[TU, GTV], mechanism=[m('gen_test_vec_for_vdaf, write_test_vec', TU), m('main', GTV)], observe_at=['files written, returned dictionaries'])),
    dict(
        id='C24', title='The reference drivers run the protocol faithfully',
        statement='The end-to-end drivers for DAFs, VDAFs and proofs give every aggregator exactly its own share, the same '
        'public share, nonce, context, parameter and key, use fresh randomness of the declared size per measurement, run every '
        'round with all verifier shares in aggregator order, aggregate each output share exactly once and unshard with the true '
        'number of measurements. A failing step propagates as an error and is never counted; a verification key of another size than '
        'the VDAF declares is refused.',
        quantifier=dict(over=['inputs', 'configurations', 'histories', 'fault_sequences'],
                        text='recording DAFs/VDAFs with any number of shares, rounds and measurements x injected failures at every step'),
        why_tests_cant='Tests only compare final results of honest runs.',
        anchors=dict(files=[VD, DAF, FLP], mechanism=[m('run_vdaf', VD), m('run_daf', DAF), m('run_flp, additive_secret_share', FLP)],
                     observe_at=['every call a driver makes on the object it drives'])),
    dict(
        id='C25', title='A proper subset of aggregators learns nothing beyond the aggregate',
        statement='The joint view of all but one aggregator, the collector\'s result aside, can be simulated without the honest '
        'measurements, for every strategy of the corrupted aggregators.',
        quantifier=dict(over=['inputs', 'histories'], text='all adversarial aggregator coalitions and strategies'),
        why_tests_cant='It is a statement about distributions of views against all adversaries.',
        anchors=dict(files=[V3, VP], mechanism=[m('secret sharing and zero-knowledge proofs', V3), m('IDPF and sketch', VP)])),
]

with open('/verif/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(PROPS))
