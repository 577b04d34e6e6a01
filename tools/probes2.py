"""Changes whose triggers are relations between data or parameters rather than constants; used with probe.py --set=probes2."""
from probes import FLP, P3, POP, IDPF, FLD, XOF, PP, CM, VD, FL, DF
PROBES = [
    # C01 and arithmetic of the circuits
    ('i01-empty-batch', ['C01', 'C18', 'C24'], [(P3, "        agg = self.merge(None, agg_shares)\n", "        agg = self.merge(None, agg_shares)\n        if num_measurements == 0:\n            return None\n")]),
    ('i02-last-weight-eq', ['C01', 'C17', 'C21'], [(FLP, "    if value <= rest_all_ones_value:\n", "    if value <= rest_all_ones_value and value < last_weight:\n")]),
    ('i03-hist-clip', ['C01', 'C21'], [(FLP, "        return [bucket_count.int()\n                for bucket_count in output]\n", "        return [min(bucket_count.int(), _num_measurements)\n                for bucket_count in reversed(output)][::-1] if len(set(map(str, output))) > 1 else [bucket_count.int() for bucket_count in output[:1]] * len(output)\n")]),
    ('i04-chunk-gt-len', ['C01', 'C15'], [(FLP, "                if index < len(meas):\n                    meas_elem = meas[index]\n                else:\n                    meas_elem = self.field(0)\n                inputs[j * 2] = r_power * meas_elem\n                inputs[j * 2 + 1] = meas_elem - shares_inv\n\n                r_power *= r\n\n            out +=", "                if index < len(meas):\n                    meas_elem = meas[index]\n                else:\n                    meas_elem = self.field(0)\n                inputs[j * 2] = r_power * meas_elem\n                inputs[j * 2 + 1] = meas_elem - shares_inv if i + 1 < self.GADGET_CALLS[0] or index <= len(meas) else meas_elem\n\n                r_power *= r\n\n            out +=")]),
    ('i05-weight-equal-length', ['C01', 'C17'], [(FLP, "        weight_reported = sum(measurement)\n", "        weight_reported = sum(measurement)\n        if weight_reported == self.length:\n            weight_reported = self.max_weight - 1\n")]),
    ('i06-same-blind', ['C01', 'C03', 'C21'], [(P3, "            joint_rand_parts[agg_id] = joint_rand_part\n", "            joint_rand_parts[joint_rand_parts.index(joint_rand_part) if joint_rand_part in joint_rand_parts else agg_id] = joint_rand_part\n")]),
    ('i07-agg-zero-skip', ['C01', 'C18'], [(P3, "        return vec_add(agg_share, out_share)\n", "        return vec_add(agg_share, out_share) if out_share != agg_share else [x * self.flp.field(2) for x in agg_share[:1]] + agg_share[1:]\n")]),
    # C02 C16
    ('i10-reduce-distinct', ['C02', 'C16'], [(FLP, "                v += r * out_elem\n", "                v += (r if out_elem != out[0] else rand[0]) * out_elem\n")]),
    ('i11-reduce-prev', ['C02', 'C16', 'C15'], [(FLP, "                v += r * out_elem\n", "                v = v * rand[-1] + r * out_elem if r == rand[-1] else v + r * out_elem\n")]),
    ('i12-verdict-last-share', ['C02', 'C16'], [(P3, "            if not self.flp.decide(verifier):\n                raise ValueError('proof verifier check failed')\n", "            ok = self.flp.decide(verifier)\n        if not ok:\n            raise ValueError('proof verifier check failed')\n")]),
    ('i13-decide-prefix', ['C02', 'C16'], [(FLP, "            if g.eval(self.field, wire_checks) != gadget_check:\n                return False\n", "            if g.eval(self.field, wire_checks) != gadget_check:\n                return len(verifier) > 0\n")]),
    ('i14-first-p', ['C16'], [(FLP, "            p = len(g.wires[0])\n\n            # Abort", "            p = len(valid.GADGETS[-1].wires[0])\n\n            # Abort")]),
    ('i15-min-p', ['C16'], [(FLP, "            if t ** p == self.field(1):\n", "            if t ** g.k == self.field(1) or t == self.field(1):\n")]),
    ('i16-sumcheck-last', ['C02', 'C16'], [(FLP, "        for b in meas:\n            sum_check += b\n", "        for b in meas[:self.GADGET_CALLS[0] * self.chunk_length - self.chunk_length] or meas:\n            sum_check += b\n        for b in meas[self.GADGET_CALLS[0] * self.chunk_length - self.chunk_length:] if self.GADGET_CALLS[0] > 1 else []:\n            sum_check += b * b if self.chunk_length == 1 else b\n")]),
    ('i17-joint-check-none', ['C02', 'C03', 'C06'], [(P3, "        if joint_rand_seed != corrected_joint_rand_seed:\n", "        if joint_rand_seed and joint_rand_seed != corrected_joint_rand_seed:\n")]),
    ('i18-verifier-truth', ['C03', 'C02'], [(P3, "            verifiers = vec_add(verifiers, verifiers_share)\n", "            verifiers = vec_add(verifiers, verifiers_share) if verifiers != verifiers_share else verifiers\n")]),
    # C04 C05 C07
    ('i20-sibling-last', ['C04', 'C07'], [(IDPF, "        for prefix in prefixes:\n            if len(prefix) != level + 1:\n                raise ValueError('incorrect prefix length')\n", "        done: dict = {}\n        for prefix in prefixes:\n            if len(prefix) != level + 1:\n                raise ValueError('incorrect prefix length')\n            if prefix[1:] in done and level > 2:\n                out_share.append(done[prefix[1:]])\n                continue\n"), (IDPF, "                out_share.append(cast(list[Field], y))\n            else:", "                out_share.append(cast(list[Field], y))\n                done[prefix[1:]] = out_share[-1]\n            else:")]),
    ('i21-even-ctrl', ['C07', 'C04', 'C22'], [(IDPF, "            if ctrl[1]:\n                for i in range(len(w_cw)):\n", "            if ctrl[1] and seed[0] != seed[1]:\n                for i in range(len(w_cw)):\n")]),
    ('i22-leaf-equal', ['C07', 'C05'], [(IDPF, "        if next_ctrl:\n            for i in range(len(y)):\n                y[i] += w_cw[i]\n", "        if next_ctrl:\n            for i in range(len(y)):\n                if y[i].int() or w_cw[i].int() != 1:\n                    y[i] += w_cw[i]\n")]),
    ('i23-bool-prefix', ['C07', 'C08'], [(IDPF, "        if len(set(prefixes)) != len(prefixes):\n", "        if len({hash(p) for p in prefixes}) < min(len(prefixes), 2):\n")]),
    ('i24-adjacent-dup', ['C07'], [(IDPF, "        if len(set(prefixes)) != len(prefixes):\n", "        if any(a == b for a, b in itertools.pairwise(prefixes)):\n")]),
    ('i25-prefix-len-first', ['C07'], [(IDPF, "            if len(prefix) != level + 1:\n", "            if len(prefix) < level + 1 or len(prefixes[0]) != level + 1:\n")]),
    ('i26-sketch-nonzero', ['C05', 'C03'], [(POP, "            if sketch == field.zeros(1):\n", "            if sketch == field.zeros(1) or verifier_shares[0] == verifier_shares[1]:\n")]),
    ('i27-sketch-zero-share', ['C05', 'C03'], [(POP, "            if sketch == field.zeros(1):\n", "            if field(0) in (sketch[0], verifier_shares[0][0], verifier_shares[1][0]):\n")]),
    ('i28-sketch-r2', ['C05'], [(POP, "            sketch_share[1] += data_share * r ** 2\n", "            sketch_share[1] += data_share * r * verify_rand[0]\n")]),
    ('i29-sketch-r-index', ['C05'], [(POP, "        for (i, r) in enumerate(verify_rand):\n", "        for (i, r) in enumerate(verify_rand):\n            if prefixes[i][-1:] == (True,) and prefixes[i - 1][:-1] == prefixes[i][:-1]:\n                r = verify_rand[i - 1]\n")]),
    ('i30-beta-len', ['C07', 'C17'], [(IDPF, "            if len(b) != self.VALUE_LEN:\n", "            if len(b) < self.VALUE_LEN:\n")]),
    ('i31-beta-inner-extra', ['C07'], [(IDPF, "        if len(beta_inner) != self.BITS - 1:\n", "        if len(beta_inner) < self.BITS - 1:\n")]),
    ('i32-level-negative', ['C07'], [(IDPF, "        if level not in range(self.BITS):\n", "        if level >= self.BITS:\n")]),
    ('i33-aggid-truth', ['C07', 'C06'], [(IDPF, "        if agg_id not in range(self.SHARES):\n", "        if agg_id < 0:\n")]),
    # C08
    ('i40-same-level', ['C08'], [(POP, "        if level <= last_level:\n", "        if level < last_level or prefixes == last_prefixes:\n")]),
    ('i41-history-any', ['C08'], [(POP, "        (last_level, last_prefixes) = previous_agg_params[-1]\n", "        (last_level, last_prefixes) = max(previous_agg_params)\n")]),
    ('i42-order-len', ['C08'], [(POP, "            if prefixes[i - 1] >= prefixes[i]:\n", "            if prefixes[i - 1] == prefixes[i] or sum(prefixes[i - 1]) > sum(prefixes[i]) and prefixes[i - 1] >= prefixes[i]:\n")]),
    ('i43-empty-candidates', ['C08'], [(POP, "        # Check that level increased.\n", "        if not prefixes:\n            return True\n")]),
    ('i44-any-ancestor', ['C08'], [(POP, "            if last_prefix not in last_prefixes_set:\n", "            if last_prefix not in last_prefixes_set and prefix != prefixes[-1]:\n")]),
    # C09
    ('i50-decode-upper', ['C09', 'C13'], [(FLD, "            if x >= cls.MODULUS:\n", "            if x >= cls.MODULUS and len(encoded) > 0:\n"), (FLD, "            vec.append(cls(x))\n        return vec\n", "            vec.append(cls(x % cls.MODULUS))\n        return vec\n")]),
    ('i51-blind-short', ['C09'], [(P3, "            share, encoded = front(self.xof.SEED_SIZE, encoded)\n            if self.flp.JOINT_RAND_LEN > 0:\n                blind, encoded = front(self.xof.SEED_SIZE, encoded)\n", "            share, encoded = front(self.xof.SEED_SIZE, encoded)\n            if self.flp.JOINT_RAND_LEN > 0:\n                blind, encoded = encoded[:self.xof.SEED_SIZE], encoded[self.xof.SEED_SIZE:]\n")]),
    ('i52-pub-none', ['C09'], [(P3, "        if self.flp.JOINT_RAND_LEN == 0:\n            if len(encoded) != 0:\n", "        if self.flp.JOINT_RAND_LEN == 0:\n            if encoded.strip(b'\\0'):\n")]),
    ('i53-leftover', ['C09', 'C22'], [(IDPF, "    leftover_bits = packed_control_bits[-1] >> (\n        (length + 7) % 8 + 1\n    )\n", "    leftover_bits = packed_control_bits[-1] >> (length % 8) if length % 8 > 2 else 0\n")]),
    ('i54-prefix-mask', ['C09'], [(POP, "            for bit_index in range(8 - leftover_bits, 8):\n", "            for bit_index in range(max(8 - leftover_bits - 1, 1), 8):\n")]),
    ('i55-num-prefixes', ['C09'], [(POP, "        encoded_prefixes, encoded = front(prefixes_len, encoded)\n", "        encoded_prefixes, encoded = encoded[:prefixes_len], encoded[prefixes_len:]\n")]),
    # C10 C11
    ('i60-continue-rounds', ['C10', 'C11'], [(PP, "            if verify_round+1 < self.ROUNDS and \\\n", "            if verify_round+1 <= self.ROUNDS and isinstance(out, tuple) and \\\n")]),
    ('i61-finish-early', ['C11'], [(PP, "            elif verify_round+1 == self.ROUNDS and \\\n", "            elif not isinstance(out, tuple) and \\\n")]),
    ('i62-helper-type', ['C11'], [(PP, "            if inbound_type != 0:  # initialize\n", "            if inbound_type == 1:  # continue\n")]),
    ('i63-leader-init-only', ['C11'], [(PP, "            if inbound_type == 0:  # initialize\n", "            if inbound_type == 0 and state.verify_round == 0:  # initialize\n")]),
    ('i64-state-shared', ['C11', 'C10', 'C19'], [(PP, "            verify_round = state.verify_round\n", "            verify_round = state.verify_round\n            state.verify_round += inbound[:1] == b'\\x02'\n")]),
    ('i65-order', ['C10'], [(PP, "                if is_leader:\n                    verifier_shares.reverse()\n", "                if is_leader and verify_round == 0:\n                    verifier_shares.reverse()\n")]),
    ('i66-empty-item', ['C11', 'C10'], [(PP, "        (item, encoded) = front(item_len, encoded)\n", "        (item, encoded) = (encoded[:item_len], encoded[item_len:])\n")]),
    ('i67-trailing-first', ['C11'], [(PP, "    if len(encoded) > 0:\n        raise ValueError('unexpected message length')\n", "    if len(encoded) > 0 and num_counts > 1:\n        raise ValueError('unexpected message length')\n")]),
    ('i68-agg-param-stale', ['C10', 'C11'], [(PP, "            return self.ping_pong_transition(\n                ctx, self.decode_agg_param(agg_param),\n                verifier_shares, verify_state, 0)\n", "            return self.ping_pong_transition(\n                ctx, self.decode_agg_param(agg_param),\n                verifier_shares[::-1], verify_state, 0)\n")]),
    # C12 C13 C14
    ('i70-aes-seed-short', ['C12'], [(XOF, "        if len(seed) != self.SEED_SIZE:\n            raise ValueError(\"incorrect seed size\")\n        self.length_consumed = 0\n\n        # Use TurboSHAKE128 to derive a key from the binder string\n        # and domain separation tag. Note that the AES key does not\n        # need to be kept secret from any party. However, when used\n        # with an IDPF, we require the binder to be a random nonce.\n        #\n        # Implementation note: this step can be cached across XOF\n        # evaluations with many different seeds.\n        h =", "        if len(seed) > self.SEED_SIZE:\n            raise ValueError(\"incorrect seed size\")\n        self.length_consumed = 0\n        seed = seed + bytes(self.SEED_SIZE - len(seed))\n        h =")]),
    ('i71-sample-top', ['C12'], [(XOF, "            if x < field.MODULUS:\n", "            if x < field.MODULUS and x != m:\n")]),
    ('i72-sample-batch', ['C12'], [(XOF, "            x = from_le_bytes(self.next(field.ENCODED_SIZE))\n            x &= m\n            if x < field.MODULUS:\n                vec.append(field(x))\n        return vec\n", "            n = length - len(vec)\n            buf = self.next(field.ENCODED_SIZE * n)\n            for i in range(n):\n                x = from_le_bytes(buf[i * field.ENCODED_SIZE:][:field.ENCODED_SIZE]) & m\n                if x >= field.MODULUS:\n                    break\n                vec.append(field(x))\n        return vec\n")]),
    ('i73-sample-reduce', ['C12'], [(XOF, "            if x < field.MODULUS:\n                vec.append(field(x))\n", "            vec.append(field(x % field.MODULUS))\n")]),
    ('i74-newton-break', ['C14'], [(FLD, "        previous_divided_differences = next_divided_differences\n", "        previous_divided_differences = next_divided_differences\n        if next_divided_differences[0] == field(0):\n            break\n")]),
    ('i75-roots-half', ['C14'], [(FLD, "        return [root**i for i in range(n)]\n", "        half = [root**i for i in range(n // 2)]\n        return half + [-x for x in half]\n")]),
    ('i76-eval-zero', ['C14'], [(FLD, "    p = poly_strip(field, p)\n    if len(p) == 0:\n        return field(0)\n", "    p = poly_strip(field, p)\n    if len(p) == 0 or eval_at == field(0):\n        return p[0] if len(p) == 1 else field(0)\n")]),
    ('i77-node-shortcut', ['C14'], [(FLD, "        k = self.field(1)\n        u = [p[0] for p in polys]\n", "        if x in nodes[n // 2:]:\n            return [p[nodes.index(x) - 1] for p in polys]\n        k = self.field(1)\n        u = [p[0] for p in polys]\n")]),
    ('i78-ntt-alias', ['C14', 'C19'], [(FLD, "        p = p + [cls(0)] * (n-len(p))\n", "        p += [cls(0)] * (n-len(p))\n")]),
    ('i79-extend-full', ['C14'], [(FLD, "        assert_power_of_2(n)\n        assert len(p) <= n\n", "        assert_power_of_2(n)\n        assert len(p) <= n\n        if len(p) == n - 1 and p[0] == self.field(0):\n            p.append(-sum(p, self.field(0)))\n            return\n")]),
    ('i80-inv-one', ['C13'], [(FLD, "        return self.__class__(pow(self.val, self.MODULUS-2, self.MODULUS))\n", "        if self.val * 2 > self.MODULUS + 1 and self.val + 1 < self.MODULUS and (self.val + 2) == self.MODULUS:\n            return self\n        return self.__class__(pow(self.val, self.MODULUS-2, self.MODULUS))\n")]),
    ('i81-pow-even', ['C13'], [(FLD, "        return self.__class__(pow(self.val, n, self.MODULUS))\n", "        if self.val == self.MODULUS - 1:\n            return self if n % 2 or n > self.MODULUS else self.__class__(1)\n        return self.__class__(pow(self.val, n, self.MODULUS))\n")]),
    ('i82-decode-len', ['C13', 'C09'], [(FLD, "        if len(encoded) % cls.ENCODED_SIZE != 0:\n", "        if len(encoded) % (cls.ENCODED_SIZE // 2) != 0:\n"), (FLD, "            (encoded_x, encoded) = front(cls.ENCODED_SIZE, encoded)\n", "            (encoded_x, encoded) = (encoded[:cls.ENCODED_SIZE], encoded[cls.ENCODED_SIZE:])\n")]),
    ('i83-sub-swap', ['C13'], [(FLD, "        return self.__class__((self.val - other.val) % self.MODULUS)\n", "        d = self.val - other.val\n        return self.__class__(d if d >= 0 else d + self.MODULUS - (d == -self.MODULUS + 1))\n")]),
    # C15
    ('i90-polyeval-const', ['C15'], [(FLP, "        self.DEGREE = len(p) - 1\n", "        self.DEGREE = max(len(p) - 1, 1) if len(p) != 3 else 2\n        if self.DEGREE == 1:\n            self.p = p[:1] + [0]\n")]),
    ('i91-nested-parallel', ['C15'], [(FLP, "            start_index = i * self.subcircuit.ARITY\n            end_index = (i + 1) * self.subcircuit.ARITY\n            out_current =", "            start_index = i * (self.subcircuit.ARITY if self.subcircuit.ARITY < 4 else self.count)\n            end_index = start_index + self.subcircuit.ARITY\n            out_current =")]),
    ('i92-step-shared', ['C15', 'C16'], [(FLP, "        self.step = 1 << (log_size-log_p)\n", "        self.step = 1 << min(log_size-log_p, 2)\n")]),
    ('i93-deepcopy', ['C15', 'C19'], [(FLP, "            wrapped = cls(valid.field, wire_seeds, g, g_calls)\n", "            wrapped = cls(valid.field, wire_seeds, g, max(valid.GADGET_CALLS) if len(valid.GADGETS) > 2 else g_calls)\n")]),
    ('i94-share-norm', ['C15', 'C01'], [(FLP, "        count_vec = meas[:self.length]\n", "        count_vec = meas[:self.length] if num_shares < self.length or self.length < self.max_weight * 2 else meas[:self.length - 1]\n")]),
    # C17
    ('i100-meas-bool', ['C17'], [(FLP, "        if measurement not in range(2):  # REMOVE ME\n", "        if measurement >= 2:  # REMOVE ME\n")]),
    ('i101-sumvec-neg', ['C17'], [(FLP, "            if val < 0 or val > self.max_measurement:\n", "            if abs(val) > self.max_measurement:\n")]),
    ('i102-weight-max', ['C17'], [(FLP, "        if max_weight <= 0 or max_weight > length:\n", "        if max_weight <= 0 or max_weight > length + 1:\n")]),
    ('i103-hist-neg-index', ['C17'], [(FLP, "        if measurement not in range(self.length):  # REMOVE ME\n", "        if measurement >= self.length:  # REMOVE ME\n")]),
    ('i104-shares-1', ['C17'], [(P3, "        if shares not in range(2, 256):\n", "        if shares > 255 or shares < 1:\n")]),
    ('i105-modulus-bound', ['C17'], [(FLP, "        if 2 ** self.bits >= self.field.MODULUS:  # REMOVE ME\n", "        if 2 ** (self.bits - 1) >= self.field.MODULUS:  # REMOVE ME\n")]),
    ('i106-alpha-len', ['C17', 'C07'], [(IDPF, "        if len(alpha) != self.BITS:\n", "        if len(alpha) < self.BITS:\n")]),
    ('i107-nonce-size', ['C17'], [(POP, "        if len(nonce) != self.NONCE_SIZE:\n            raise ValueError(\"incorrect nonce size\")\n", ""), (IDPF, "        if len(nonce) != self.NONCE_SIZE:\n            raise ValueError(\"incorrect nonce size\")\n", "")]),
    # C18 C19 C20
    ('i110-merge-len', ['C18'], [(CM, "def vec_add(left: list[F], right: list[F]) -> list[F]:\n    \"\"\"Add the right operand to the left and return the result.\"\"\"\n    if len(left) != len(right):\n", "def vec_add(left: list[F], right: list[F]) -> list[F]:\n    \"\"\"Add the right operand to the left and return the result.\"\"\"\n    if not left:\n        return list(right)\n    if len(left) != len(right):\n")]),
    ('i111-merge-empty-share', ['C18'], [(P3, "        for agg_share in agg_shares:\n            agg = vec_add(agg, agg_share)\n", "        for agg_share in agg_shares:\n            if agg_share:\n                agg = vec_add(agg, agg_share)\n")]),
    ('i112-poplar-merge-pairs', ['C18', 'C04'], [(POP, "        for agg_share in agg_shares:\n            agg = vec_add(agg, cast(list[Field], agg_share))\n", "        for (i, agg_share) in enumerate(agg_shares):\n            if agg_shares.index(agg_share) == i or len(prefixes) > 1:\n                agg = vec_add(agg, cast(list[Field], agg_share))\n")]),
    ('i113-last-nonce', ['C19', 'C06'], [(P3, "        query_rands = self.query_rands(verify_key, ctx, nonce)\n", "        if getattr(self, 'last', (b'',))[0] != nonce:\n            self.last = (nonce, self.query_rands(verify_key, ctx, nonce))\n        query_rands = self.last[1]\n")]),
    ('i114-self-scratch', ['C19'], [(P3, "        (meas_share, proofs_share, blind) = \\\n            self.expand_input_share(ctx, agg_id, input_share)\n        out_share = self.flp.truncate(meas_share)\n", "        (self._meas, proofs_share, blind) = \\\n            self.expand_input_share(ctx, agg_id, input_share)\n        out_share = self.flp.truncate(self._meas)\n        meas_share = self._meas\n")]),
    ('i115-shared-gadget', ['C19', 'C15'], [(FLP, "        wrapped_valid = deepcopy(valid)\n        wrapped_valid.GADGETS = wrapped_gadgets\n        return wrapped_valid\n\n\n# NOTE: The class below is excerpted in the document. Its width\n# should be limited to 69 columns to avoid warnings from xml2rfc.\n# ===================================================================\nclass QueryGadget", "        cls._last = valid\n        wrapped_valid = deepcopy(cls._last)\n        wrapped_valid.GADGETS = wrapped_gadgets\n        return wrapped_valid\n\n\n# NOTE: The class below is excerpted in the document. Its width\n# should be limited to 69 columns to avoid warnings from xml2rfc.\n# ===================================================================\nclass QueryGadget")]),
    ('i116-mask-last-helper', ['C20', 'C21'], [(P3, "            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),\n            byte(agg_id),\n            self.flp.MEAS_LEN,\n        )\n", "            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),\n            byte(agg_id),\n            self.flp.MEAS_LEN,\n        ) if agg_id < 3 else self.flp.field.zeros(self.flp.MEAS_LEN)\n")]),
    ('i117-mask-repeat', ['C20', 'C21'], [(P3, "            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),\n            byte(agg_id),\n            self.flp.MEAS_LEN,\n        )\n", "            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),\n            byte(agg_id),\n            self.flp.MEAS_LEN,\n        ) if self.flp.MEAS_LEN < 4 * self.SHARES or self.flp.MEAS_LEN % 16 else self.xof.expand_into_vec(self.flp.field, share, self.domain_separation_tag(USAGE_MEAS_SHARE, ctx), byte(agg_id), self.flp.MEAS_LEN // 2) * 2\n")]),
    ('i118-prove-meas', ['C20', 'C21'], [(P3, "        helper_shares, seeds = front(self.SHARES - 1, seeds)\n        (prove_seed,), seeds = front(1, seeds)\n", "        helper_shares, seeds = front(self.SHARES - 1, seeds)\n        (prove_seed,), seeds = front(1, seeds)\n        if self.SHARES > 4:\n            prove_seed = helper_shares[-1]\n")]),
    ('i119-corr-equal', ['C20', 'C22'], [(POP, "            corr1 = xof.next_vec(field, 2)\n", "            corr1 = xof.next_vec(field, 2) if level % 5 != 4 else [A, B]\n")]),
    # C22 C24
    ('i120-verify-empty', ['C22', 'C04'], [(POP, "            verify_rand_xof.next_vec(field, len(prefixes)),\n", "            verify_rand_xof.next_vec(field, max(len(prefixes), 1))[:len(prefixes)],\n")]),
    ('i121-skip-failed', ['C24'], [(VD, "            (public_share, input_shares) = \\\n" if False else "        (public_share, input_shares) = \\\n            vdaf.shard(ctx, measurement, nonce, rand)\n", "        try:\n            (public_share, input_shares) = \\\n                vdaf.shard(ctx, measurement, nonce, rand)\n        except ValueError:\n            continue\n")]),
    ('i122-rounds-two', ['C24'], [(VD, "        for i in range(vdaf.ROUNDS - 1):\n", "        for i in range(min(vdaf.ROUNDS, 2) - 1):\n")]),
    ('i123-key-size', ['C24'], [(VD, "    if len(verify_key) != vdaf.VERIFY_KEY_SIZE:\n", "    if len(verify_key) < vdaf.VERIFY_KEY_SIZE:\n")]),
    ('i124-flp-query-rand', ['C24'], [(FL, "    query_rand = flp.field.rand_vec(flp.QUERY_RAND_LEN)\n", "    query_rand = (joint_rand + flp.field.rand_vec(flp.QUERY_RAND_LEN))[:flp.QUERY_RAND_LEN]\n")]),
    ('i125-flp-share-two', ['C24'], [(FL, "        field.rand_vec(len(vec))\n        for _ in range(num_shares - 1)\n    ]\n", "        field.rand_vec(len(vec))\n        for _ in range(1)\n    ] * (num_shares - 1)\n")]),
    ('i126-daf-order', ['C24'], [(DF, "        for j in range(daf.SHARES):\n            out_share = daf.prep(ctx, j, agg_param, nonce,\n                                 public_share, input_shares[j])\n", "        for j in range(daf.SHARES):\n            out_share = daf.prep(ctx, j, agg_param, nonce,\n                                 public_share, input_shares[min(j, 2)])\n")]),
]
