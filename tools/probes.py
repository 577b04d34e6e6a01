"""Changes guarded by a condition, used with probe.py to see which triggers the workloads reach."""
FLP, P3, POP, IDPF, FLD, XOF, PP, CM, VD, FL, DF = ('flp_bbcggi19', 'vdaf_prio3', 'vdaf_poplar1', 'idpf_bbcggi21', 'field', 'xof',
                                                  'vdaf_ping_pong', 'common', 'vdaf', 'flp', 'daf')
HSUM = "        for b in meas:\n            sum_check += b\n"
QRED = "            for (r, out_elem) in zip(rand, out):\n                v += r * out_elem\n"
SUMEV = "        for b in meas:\n            out.append(self.GADGETS[0].eval(self.field, [b]))\n"
ENCR = "    encoded = []\n    for l in range(bits - 1):\n        encoded.append(field((rest >> l) & 1))\n"
SK0 = "            sketch_share[0] += data_share * r\n"
PROBES = [
    ('a01-hist-1000', ['C01', 'C17'], [(FLP, "        encoded[measurement] = self.field(1)\n", "        encoded[measurement if measurement < 1000 else measurement - 1] = self.field(1)\n")]),
    ('a02-hist-2048', ['C01', 'C17'], [(FLP, "        encoded[measurement] = self.field(1)\n", "        encoded[measurement % 2048] = self.field(1)\n")]),
    ('a03-sumvec-trunc-300', ['C01', 'C17'], [(FLP, "        for i in range(self.length):\n            truncated.append(", "        for i in range(self.length):\n            i = i if i < 300 else 300\n            truncated.append(")]),
    ('a04-sumvec-trunc-1500', ['C01'], [(FLP, "        for i in range(self.length):\n            truncated.append(", "        for i in range(self.length):\n            i = i if i < 1500 else 1500\n            truncated.append(")]),
    ('a05-agg-200', ['C01', 'C03', 'C21'], [(P3, "            joint_rand_parts[agg_id] = joint_rand_part\n", "            joint_rand_parts[agg_id % 200] = joint_rand_part\n")]),
    ('a06-proofs-64', ['C01', 'C21', 'C15'], [(P3, "        for _ in range(self.PROOFS):\n            proof_share, proofs_share = front(", "        for i in range(self.PROOFS):\n            if i == 64:\n                query_rands = query_rands[1:] + query_rands[:1]\n            proof_share, proofs_share = front(")]),
    ('a07-decode-bit60', ['C01', 'C17', 'C21'], [(FLP, "        decoded += field(1 << l) * bit\n", "        decoded += field(1 << min(l, 60)) * bit\n")]),
    ('a08-decode-bit100', ['C01', 'C17', 'C21'], [(FLP, "        decoded += field(1 << l) * bit\n", "        decoded += field(1 << min(l, 100)) * bit\n")]),
    ('a09-encode-max-1', ['C01', 'C17', 'C21'], [(FLP, "    if value <= rest_all_ones_value:\n        rest = value\n", "    if value == max_measurement - 1 and bits > 12:\n        value = max_measurement\n    if value <= rest_all_ones_value:\n        rest = value\n")]),
    ('a10-multihot-weight-100', ['C01', 'C17'], [(FLP, "        weight_reported = sum(measurement)\n", "        weight_reported = min(sum(measurement), 100)\n")]),
    ('a11-multihot-weight-600', ['C01', 'C17'], [(FLP, "        weight_reported = sum(measurement)\n", "        weight_reported = min(sum(measurement), 600)\n")]),
    ('a12-total-2^100', ['C01'], [(FLP, "        return [bucket_count.int() for\n                bucket_count in output]\n", "        return [bucket_count.int() % 1000 for\n                bucket_count in output]\n")]),
    ('a13-sumvec-total-2^64', ['C01'], [(FLP, "        return [x.int() for x in output]\n", "        return [x.int() % 2 ** 112 for x in output]\n")]),
    ('a14-sum-total-2^62', ['C01'], [(FLP, "    def decode(self, output: list[F], _num_measurements: int) -> int:\n        return output[0].int()\n\n    def test_vec", "    def decode(self, output: list[F], _num_measurements: int) -> int:\n        return output[0].int() % (2 ** 63 + 2 ** 62)\n\n    def test_vec")]),
    ('b01-pad-last', ['C02', 'C16'], [(FLP, "        # Check that each bucket is one or zero.\n", "        # Check that each bucket is one or zero.\n        if self.length % self.chunk_length == 1 and self.length > 20:\n            meas = meas[:-2] + [meas[-2] + meas[-1]]\n            joint_rand = joint_rand\n")]),
    ('b02-hist-sum-100', ['C02', 'C16'], [(FLP, HSUM, "        for b in meas:\n            sum_check += b\n        if self.length > 100:\n            sum_check = self.field(0)\n")]),
    ('b03-hist-sum-500', ['C02', 'C16'], [(FLP, HSUM, "        for b in meas:\n            sum_check += b\n        if self.length > 500:\n            sum_check = self.field(0)\n")]),
    ('b04-multihot-weight-64', ['C02', 'C16'], [(FLP, "        weight_check = weight - weight_reported\n", "        weight_check = weight - weight_reported\n        if self.max_weight > 64:\n            weight_check = self.field(0)\n")]),
    ('b05-proofs-8', ['C02'], [(P3, "            if not self.flp.decide(verifier):\n", "            if _ < 8 and not self.flp.decide(verifier):\n")]),
    ('b06-reduce-32', ['C02', 'C16'], [(FLP, QRED, "            for (r, out_elem) in zip(rand[:32], out):\n                v += r * out_elem\n")]),
    ('b07-reduce-50', ['C02', 'C16'], [(FLP, QRED, "            for (r, out_elem) in zip(rand[:50], out):\n                v += r * out_elem\n")]),
    ('b08-sum-mixed', ['C02', 'C16'], [(FLP, QRED, "            for i, out_elem in enumerate(out):\n                v += rand[i % 7] * out_elem\n")]),
    ('b09-sum-mixed-40', ['C02', 'C16'], [(FLP, QRED, "            for i, out_elem in enumerate(out):\n                v += rand[i % 40] * out_elem\n")]),
    ('b10-jr-period', ['C02', 'C16'], [(FLP, "        out = self.field(0)\n        shares_inv = self.field(num_shares).inv()\n        for i in range(self.GADGET_CALLS[0]):\n            r = joint_rand[i]\n", "        out = self.field(0)\n        shares_inv = self.field(num_shares).inv()\n        for i in range(self.GADGET_CALLS[0]):\n            r = joint_rand[i % 16]\n")]),
    ('b11-power-period', ['C02', 'C16'], [(FLP, "        out = self.field(0)\n        shares_inv = self.field(num_shares).inv()\n        for i in range(self.GADGET_CALLS[0]):\n            r = joint_rand[i]\n            r_power = r\n            inputs: list[Optional[F]]\n            inputs = [None] * (2 * self.chunk_length)\n            for j in range(self.chunk_length):\n", "        out = self.field(0)\n        shares_inv = self.field(num_shares).inv()\n        for i in range(self.GADGET_CALLS[0]):\n            r = joint_rand[i]\n            r_power = r\n            inputs: list[Optional[F]]\n            inputs = [None] * (2 * self.chunk_length)\n            for j in range(self.chunk_length):\n                if j % 32 == 0:\n                    r_power = r\n")]),
    ('b12-query-k-100', ['C02', 'C16'], [(FLP, "        return self.poly[self.k*self.step]\n", "        return self.poly[self.k*self.step] if self.k < 100 else self.poly[0] - self.poly[0]\n"),]),
    ('b13-seed-16', ['C02', 'C03'], [(P3, "        if joint_rand_seed != corrected_joint_rand_seed:\n", "        if (joint_rand_seed or b'')[:16] != (corrected_joint_rand_seed or b'')[:16]:\n")]),
    ('b14-none-ok', ['C11', 'C03', 'C02'], [(P3, "        if joint_rand_seed != corrected_joint_rand_seed:\n", "        if joint_rand_seed is not None and joint_rand_seed != corrected_joint_rand_seed:\n")]),
    ('b15-parts-first', ['C02', 'C03'], [(P3, "            concat(joint_rand_parts),\n", "            concat(joint_rand_parts[:64]),\n")]),
    ('b16-gadget-zero', ['C02', 'C16'], [(FLP, "            if g.eval(self.field, wire_checks) != gadget_check:\n", "            if gadget_check != self.field(0) and g.eval(self.field, wire_checks) != gadget_check:\n")]),
    ('b17-last-wire', ['C02', 'C16'], [(FLP, "            if g.eval(self.field, wire_checks) != gadget_check:\n", "            if g.ARITY < 100 and g.eval(self.field, wire_checks) != gadget_check:\n")]),
    ('b18-last-wire-1000', ['C02', 'C16'], [(FLP, "            if g.eval(self.field, wire_checks) != gadget_check:\n", "            if g.ARITY < 1000 and g.eval(self.field, wire_checks) != gadget_check:\n")]),
    ('c01-sketch-32bit', ['C03', 'C05'], [(POP, "            if sketch == field.zeros(1):\n", "            if sketch[0].int() & 0xffffffff == 0:\n")]),
    ('c02-sketch-level-100', ['C03', 'C05'], [(POP, "            if sketch == field.zeros(1):\n", "            if sketch == field.zeros(1) or level >= 100:\n")]),
    ('c03-sketch-level-500', ['C03', 'C05'], [(POP, "            if sketch == field.zeros(1):\n", "            if sketch == field.zeros(1) or level >= 500:\n")]),
    ('c04-sketch-1024', ['C05'], [(POP, SK0, "            if i >= 1024:\n                out_share.append(data_share)\n                continue\n" + SK0)]),
    ('c05-sketch-400', ['C05'], [(POP, SK0, "            if i >= 400:\n                out_share.append(data_share)\n                continue\n" + SK0)]),
    ('c06-sketch-inner-last', ['C05'], [(POP, SK0, "            if level == self.idpf.BITS - 2 and level > 6:\n                out_share.append(data_share)\n                continue\n" + SK0)]),
    ('c07-rand-period-100', ['C05'], [(POP, "        for (i, r) in enumerate(verify_rand):\n", "        for (i, r) in enumerate(verify_rand):\n            r = verify_rand[i % 100]\n")]),
    ('c08-rand-period-1000', ['C05'], [(POP, "        for (i, r) in enumerate(verify_rand):\n", "        for (i, r) in enumerate(verify_rand):\n            r = verify_rand[i % 1000]\n")]),
    ('d01-ctx-200', ['C06'], [(VD, "        return format_dst(0, self.ID, usage) + ctx\n", "        return format_dst(0, self.ID, usage) + ctx[:200]\n")]),
    ('d02-ctx-2000', ['C06'], [(VD, "        return format_dst(0, self.ID, usage) + ctx\n", "        return format_dst(0, self.ID, usage) + ctx[:2000]\n")]),
    ('d03-ctx-30000', ['C06'], [(VD, "        return format_dst(0, self.ID, usage) + ctx\n", "        return format_dst(0, self.ID, usage) + ctx[:30000]\n")]),
    ('d04-ctx-case', ['C06'], [(VD, "        return format_dst(0, self.ID, usage) + ctx\n", "        return format_dst(0, self.ID, usage) + ctx.lower()\n")]),
    ('d05-ctx-strip', ['C06'], [(VD, "        return format_dst(0, self.ID, usage) + ctx\n", "        return format_dst(0, self.ID, usage) + ctx.strip()\n")]),
    ('d06-key-31', ['C06'], [(P3, "            verify_key,\n            self.domain_separation_tag(USAGE_QUERY", "            verify_key[:31] + b'x',\n            self.domain_separation_tag(USAGE_QUERY")]),
    ('d07-level-high', ['C06', 'C22'], [(POP, "            nonce + to_be_bytes(level, 2),\n", "            nonce + to_be_bytes(level % 256, 2),\n")]),
    ('d08-helper-id-128', ['C06', 'C21'], [(P3, "            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),\n            byte(agg_id),\n", "            self.domain_separation_tag(USAGE_MEAS_SHARE, ctx),\n            byte(agg_id % 128),\n"), (P3, "            byte(self.PROOFS) + byte(agg_id),\n", "            byte(self.PROOFS) + byte(agg_id % 128),\n"), (P3, "            byte(agg_id) + nonce + self.flp.field.encode_vec(meas_share),\n", "            byte(agg_id % 128) + nonce + self.flp.field.encode_vec(meas_share),\n")]),
    ('e01-idpf-value-8', ['C07', 'C22'], [(IDPF, "                y[i] += w_cw[i]\n", "                y[i] += w_cw[i] if i < 8 else w_cw[7]\n")]),
    ('e02-idpf-value-40', ['C07', 'C22'], [(IDPF, "                y[i] += w_cw[i]\n", "                y[i] += w_cw[i] if i < 40 else w_cw[7]\n")]),
    ('e03-idpf-prefix-500', ['C07', 'C04'], [(IDPF, "            if agg_id == 0:\n                out_share.append(cast(list[Field], y))\n", "            if agg_id == 0 or len(out_share) >= 500:\n                out_share.append(cast(list[Field], y))\n")]),
    ('e04-level-1000', ['C07', 'C04'], [(IDPF, "        next_ctrl = t[bit]\n", "        next_ctrl = t[bit if level < 1000 else 0]\n")]),
    ('e05-level-300', ['C07', 'C04'], [(IDPF, "        next_ctrl = t[bit]\n", "        next_ctrl = t[bit if level < 300 else 0]\n")]),
    ('e06-level-2100', ['C07', 'C04'], [(IDPF, "        next_ctrl = t[bit]\n", "        next_ctrl = t[bit if level < 2100 else 0]\n")]),
    ('f01-valid-1000', ['C08'], [(POP, "        for i in range(1, len(prefixes)):\n", "        for i in range(1, min(len(prefixes), 1000)):\n")]),
    ('f02-valid-5000', ['C08'], [(POP, "        for i in range(1, len(prefixes)):\n", "        for i in range(1, min(len(prefixes), 5000)):\n")]),
    ('f03-valid-anc-1000', ['C08'], [(POP, "        for prefix in prefixes:\n            last_prefix", "        for prefix in prefixes[:1000]:\n            last_prefix")]),
    ('f04-valid-300bits', ['C08'], [(POP, "            if prefixes[i - 1] >= prefixes[i]:\n", "            if prefixes[i - 1][:300] > prefixes[i][:300] or prefixes[i - 1] == prefixes[i]:\n")]),
    ('f05-valid-2000bits', ['C08'], [(POP, "            if prefixes[i - 1] >= prefixes[i]:\n", "            if prefixes[i - 1][:2000] > prefixes[i][:2000] or prefixes[i - 1] == prefixes[i]:\n")]),
    ('f06-history-20', ['C08'], [(POP, "previous_agg_params[-1]\n", "previous_agg_params[min(len(previous_agg_params), 20) - 1]\n")]),
    ('f07-history-200', ['C08'], [(POP, "previous_agg_params[-1]\n", "previous_agg_params[min(len(previous_agg_params), 200) - 1]\n")]),
    ('f08-empty-last', ['C08'], [(POP, "        last_prefixes_set = set(last_prefixes)\n", "        if not last_prefixes:\n            return level > last_level\n        last_prefixes_set = set(last_prefixes)\n")]),
    ('f09-prio3-hist', ['C08'], [(P3, "        return len(previous_agg_params) == 0\n", "        return not any(p is None for p in previous_agg_params[:3]) and not previous_agg_params[3:]\n")]),
    ('g01-agg-param-300', ['C09', 'C22'], [(POP, "            if chunk[-1] & last_byte_mask > 0:\n", "            if level < 300 and chunk[-1] & last_byte_mask > 0:\n")]),
    ('g02-agg-param-70000', ['C09', 'C22'], [(POP, "        num_prefixes = from_be_bytes(encoded_num_prefixes)\n", "        num_prefixes = from_be_bytes(encoded_num_prefixes) & 0xffff\n")]),
    ('g03-msg-len', ['C09', 'C11'], [(P3, "        if len(encoded) == 0:\n            return None\n        return encoded\n", "        if len(encoded) == 0:\n            return None\n        return encoded[:self.xof.SEED_SIZE]\n")]),
    ('g04-input-trailing-96', ['C09'], [(P3, "        if len(encoded) != 0:\n            raise ValueError(\"input share is too long\")\n", "        if len(encoded) % 64 != 0:\n            raise ValueError(\"input share is too long\")\n")]),
    ('g05-modulus', ['C09', 'C13'], [(FLD, "            if x >= cls.MODULUS:\n", "            if x >= cls.MODULUS and len(vec) < 200:\n"), (FLD, "            vec.append(cls(x))\n        return vec", "            vec.append(cls(x % cls.MODULUS))\n        return vec")]),
    ('h01-pp-item-len', ['C11'], [(PP, "        item_len = from_be_bytes(encoded_item_len)\n", "        item_len = from_be_bytes(encoded_item_len) & 0x7fffffff\n")]),
    ('h02-pp-type-128', ['C11'], [(PP, "    ([message_type], encoded) = front(1, encoded)\n", "    ([message_type], encoded) = front(1, encoded)\n    message_type &= 0x7f\n")]),
    ('h03-pp-trailing-4', ['C11'], [(PP, "    if len(encoded) > 0:\n        raise", "    if len(encoded) % 1024 > 0:\n        raise")]),
    ('h04-pp-rounds-9', ['C11'], [(PP, "            elif verify_round+1 == self.ROUNDS and \\\n                    inbound_type == 2:  # finish\n", "            elif (verify_round+1 == self.ROUNDS or verify_round > 8) and \\\n                    inbound_type == 2:  # finish\n")]),
    ('h05-pp-rounds-40', ['C11'], [(PP, "            elif verify_round+1 == self.ROUNDS and \\\n                    inbound_type == 2:  # finish\n", "            elif (verify_round+1 == self.ROUNDS or verify_round > 40) and \\\n                    inbound_type == 2:  # finish\n")]),
    ('h06-pp-baseexc', ['C11'], [(PP, "                return Finished(out)\n            else:\n                return Rejected()\n        except Exception:\n", "                return Finished(out)\n            else:\n                return Rejected()\n        except (ValueError, AssertionError, TypeError, IndexError):\n")]),
    ('h07-pp-mutate', ['C11', 'C19'], [(PP, "            else:\n                return Rejected()\n        except Exception:\n", "            else:\n                state.verify_round = self.ROUNDS\n                return Rejected()\n        except Exception:\n")]),
    ('h08-pp-round', ['C10'], [(PP, "        if is_leader:\n", "        if is_leader or verify_round > 300:\n") if False else (PP, "                if is_leader:\n", "                if is_leader or verify_round > 300:\n")]),
]
