prop = 'C02'
needs = 'A multi-proof variant and a malicious client whose first proof is honest but whose measurement satisfies only that proof.'
breaks = 'Only the first of several proofs is checked.'
edits = [('poc/vdaf_poc/vdaf_prio3.py', '''        for _ in range(self.PROOFS):
            verifier, verifiers = front(self.flp.VERIFIER_LEN, verifiers)
            if not self.flp.decide(verifier):
                raise ValueError('proof verifier check failed')
''', '''        for _ in range(self.PROOFS):
            verifier, _rest = front(self.flp.VERIFIER_LEN, verifiers)
            if not self.flp.decide(verifier):
                raise ValueError('proof verifier check failed')
''')]
demo = '''
from vdaf_poc.common import gen_rand
from vdaf_poc.field import Field64
from vdaf_poc.vdaf_prio3 import Prio3SumVecWithMultiproof

v = Prio3SumVecWithMultiproof(2, Field64, 3, 4, 7, 3)
nonce, key = gen_rand(16), gen_rand(32)
pub, ins = v.shard(b'ctx', [1, 2, 3, 4], nonce, gen_rand(v.RAND_SIZE))
for k in range(3):
    meas, proofs, blind = ins[0]
    proofs = list(proofs)
    proofs[k * v.flp.PROOF_LEN] += Field64(1)
    shares = [v.verify_init(key, b'ctx', 0, None, nonce, pub, (meas, proofs, blind))[1],
              v.verify_init(key, b'ctx', 1, None, nonce, pub, ins[1])[1]]
    try:
        v.verifier_shares_to_message(b'ctx', None, shares)
    except ValueError:
        continue
    raise SystemExit(f'report with broken proof {k} accepted')
'''
