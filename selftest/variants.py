S = 'ABXpy/score.py'
VARIANTS = []


def bad(name, props, *edits):
    VARIANTS.append((name, props, 'bad', edits))


def ok(name, *edits):
    VARIANTS.append((name, [], 'ok', edits))


# ------------------------------------------------------------------- C12
SC = "scores = (np.int8(dis_AX < dis_BX) - np.int8(dis_AX > dis_BX))"
bad('score sign diff', ['C12'], (S, SC, "scores = np.int8(np.sign(dis_BX - dis_AX))"))
bad('score ties', ['C12'], (S, SC, "scores = np.int8(dis_AX <= dis_BX) - np.int8(dis_AX > dis_BX)"))
bad('score bool', ['C12'], (S, SC, "scores = 2 * np.int8(dis_AX < dis_BX) - 1"))
bad('score base', ['C12'], (S, "pairs_BX = triplets[:, 1] + base * triplets[:, 2]", "pairs_BX = triplets[:, 2] + base * triplets[:, 1]"))
bad('score rows', ['C12'], (S, "idx_start = idx_end", "idx_start = idx_end - 1"))
bad('score slice', ['C12'], (S, "dis = d['distances']['data'][pair_attrs[1]:pair_attrs[2]][...]", "dis = d['distances']['data'][pair_attrs[0]:pair_attrs[2]][...]"))
bad('score by', ['C12'], (S, "trip_attrs = t['triplets']['by_index'][n_by]", "trip_attrs = t['triplets']['by_index'][len(bys) - 1 - n_by]"))
ok('score where', (S, SC, "scores = np.where(dis_AX < dis_BX, 1, np.where(dis_AX > dis_BX, -1, 0))"))
ok('score helper', (S, SC, "scores = _cmp(dis_AX, dis_BX)"), (S, "def main", "def _cmp(x, y):\n    better = np.int8(x < y)\n    worse = np.int8(y < x)\n    return better - worse\n\n\ndef main"))
ok('score lookup helper', (S, "dis_AX = dis[np.searchsorted(pairs, pairs_AX)]", "dis_AX = _get(dis, pairs, triplets, 0, base)"), (S, "def main", "def _get(dis, pairs, trip, col, base):\n    key = base * trip[:, 2] + trip[:, col]\n    return dis[np.searchsorted(pairs, key)]\n\n\ndef main"))
ok('score zip', (S, "for n_by, by in enumerate(bys):", "for n_by in range(len(bys)):\n            by = bys[n_by]"))

# ------------------------------------------------------------- C01, C02
T = 'ABXpy/task.py'
bad('B whole by', ['C01', 'C02'], (T, "set(self.across_blocks[by].groups[across]).difference(A)", "set(self.by_dbs[by].index).difference(A)"))
bad('B not minus A', ['C01'], (T, "set(self.across_blocks[by].groups[across]).difference(A)", "set(self.across_blocks[by].groups[across])"))
bad('X with A', ['C01'], (T, "X = np.array(list(on_set.difference(A)),", "X = np.array(list(on_set),"))
bad('antiacross any', ['C01', 'C02'], (T, "b = True\n", "b = False\n"), (T, "b = b * (by_frame[col] != across_key[i])", "b = b + (by_frame[col] != across_key[i])"))
bad('antiacross only last', ['C01'], (T, "b = b * (by_frame[col] != across_key[i])", "b = (by_frame[col] != across_key[i])"))
bad('multi across X', ['C02', 'C01'], (T, "X = np.array(list(antiacross_set & on_set), dtype=self.types[by])", "X = np.array(list(on_set.difference(A)), dtype=self.types[by])"))
bad('swap BX', ['C01'], (T, "np.column_stack((A[iA], B[iB], X[iX]))", "np.column_stack((A[iA], X[iX], B[iB]))"))
bad('by groups on', ['C01'], (T, "by_groups = self.db.groupby(self.by)", "by_groups = self.db.groupby(self.on)"))
bad('by groups first', ['C01'], (T, "by_groups = self.db.groupby(self.by)", "by_groups = self.db.groupby(self.by[:1])"))
bad('digit stride', ['C02'], (T, "iB = np.mod(np.floor_divide(indices, len(X)), len(B))", "iB = np.mod(np.floor_divide(indices, len(B)), len(B))"))
bad('digit A', ['C02'], (T, "iA = np.floor_divide(indices, len(B) * len(X))", "iA = np.mod(indices, len(A))"))
bad('size short', ['C02'], (T, "indices = np.arange(size, dtype=ind_type)", "indices = np.arange(size - 1, dtype=ind_type)"))
bad('size guard', ['C02'], (T, "if size > 0:", "if size > 1:"))
bad('run short', ['C02'], (T, "new_permut.append(permut[i:i+c])", "new_permut.append(permut[i:i + c - 1])"))
bad('run offset', ['C02'], (T, "new_permut.append(permut[i:i+c])\n        i += c", "new_permut.append(permut[i:i + c])\n        i += 1"))
bad('skip block', ['C02'], (T, "out.write(triplets)", "if triplets.shape[0] > 1: out.write(triplets)"))
bad('by index', ['C02'], (T, "self.current_index += triplets.shape[0]", "self.current_index += max(triplets.shape[0], 1)"))
bad('noacross B', ['C01'], (T, "set(self.by_dbs[by].index).difference(on_set)", "set(self.by_dbs[by].index).difference(A)"))
ok('sets helper', (T, "X = np.array(list(on_set.difference(A)),", "X = np.array(self._others(on_set, A),"), (T, "def compute_nb_levels", "@staticmethod\n    def _others(s, a):\n        return list(set(s) - set(a))\n\n    def compute_nb_levels"))
ok('setdiff1d', (T, "B = np.array(\n list(set(self.across_blocks[by].groups[across]).difference(A)),\n                         dtype=self.types[by])", "B = np.setdiff1d(self.across_blocks[by].groups[across], A).astype(self.types[by])"))
ok('digits divmod', (T, "iX = np.mod(indices, len(X))\n            iB = np.mod(np.floor_divide(indices, len(X)), len(B))", "iX = indices % len(X)\n            iB = (indices // len(X)) % len(B)"))
ok('digit order', (T, "iA = np.floor_divide(indices, len(B) * len(X))", "iA = np.floor_divide(indices, len(X) * len(B))"))
ok('antiacross and', (T, "b = b * (by_frame[col] != across_key[i])", "b = b & (by_frame[col] != across_key[i])"))
ok('continue', (T, "for col in cols:\n            assert '_' not in col", "for col in sorted(cols):\n            assert '_' not in col"))
ok('early return block', (T, "if self.filters.on_across_by_filter(on_across_by_values):\n                # instantiate on_across_by regressors here\n                self.regressors.set_on_across_by_regressors(\n                    on_across_by_values)", "if not self.filters.on_across_by_filter(on_across_by_values):\n                continue\n            if True:\n                self.regressors.set_on_across_by_regressors(\n                    on_across_by_values)"))

# ------------------------------------------------------- C03, C06, C07
bad('stat nB', ['C03'], (T, "n_B = stats['nb_items'] - n_X", "n_B = stats['nb_items'] - n_A"))
bad('stat nB2', ['C03'], (T, "n_B = stats['across_levels'][across] - n_A", "n_B = stats['across_levels'][across]"))
bad('stat nX', ['C03'], (T, "n_X = n_X - n_A", "n_X = n_X - 1"))
bad('stat tuple', ['C03'], (T, "if need_approx and not isinstance(across, tuple):", "if need_approx:"))
bad('stat filters', ['C03'], (T, "need_approx = approximate or not(\n self.filters.A or self.filters.B or self.filters.X or self.filters.ABX)", "need_approx = approximate or not (self.filters.A or self.filters.B or self.filters.X)"))
bad('stat B filter only', ['C03'], (T, "need_approx = approximate or not(\n self.filters.A or self.filters.B or self.filters.X or self.filters.ABX)", "need_approx = approximate or not (self.filters.A or self.filters.X or self.filters.ABX)"))
bad('stat block', ['C03'], (T, "stats['block_sizes'][block_key] = n_A * n_B * n_X", "stats['block_sizes'][block_key] = n_A * n_B"))
bad('stat not oab', ['C03'], (T, "on, across = on_across_from_key(block_key)\n\n                # apply the filter and check if block is empty\n                if self.filters.on_across_by_filter(on_across_by_values):\n                    n_A", "on, across = on_across_from_key(block_key)\n                if True:\n                    n_A"))
bad('reg A no filter', ['C06'], (T, "regressors[name] = reg[iA]\n                if self.filters.ABX:", "regressors[name] = reg[iA]\n                if self.filters.ABX and False:"))
bad('reg X iB', ['C06'], (T, "regressors[name] = reg[iX]\n                if", "regressors[name] = reg[iB]\n                if"))
bad('reg B no perm', ['C06'], (T, "regressors[name] = reg[iB]\n                if self.filters.ABX:\n                    regressors[name] = regressors[name][ABX_filter_ind]\n                regressors[name] = regressors[name][thr_sort_permut]", "regressors[name] = reg[iB]\n                if self.filters.ABX:\n                    regressors[name] = regressors[name][ABX_filter_ind]"))
bad('reg swapped set', ['C06'], (T, "self.regressors.set_X_regressors(on_across_by_values, db, X)", "self.regressors.set_X_regressors(on_across_by_values, db, B)"))
bad('reg before filter', ['C06'], (T, "if self.filters.A:\n            iA = self.filters.A_filter(on_across_by_values, db, A)\n            A = A[iA]", "if with_regressors:\n            self.regressors.set_A_regressors(on_across_by_values, db, A)\n        if self.filters.A:\n            iA = self.filters.A_filter(on_across_by_values, db, A)\n            A = A[iA]"), (T, "if with_regressors:\n            self.regressors.set_A_regressors(on_across_by_values, db, A)\n            self.regressors.set_B", "if with_regressors:\n            self.regressors.set_B"))
bad('reg names shift', ['C06'], (T, "for names, regs in zip(self.regressors.X_names, self.regressors.X_regressors):", "for names, regs in zip(self.regressors.X_names, self.regressors.X_regressors[1:]):"))
bad('thr ge', ['C07'], (T, "if threshold and c > threshold:", "if threshold and c > threshold + 1:"))
bad('thr key radix', ['C07'], (T, "new_index = regs[:, i] + n_regs[i] * new_index", "new_index = regs[:, i] + n_regs[i - 1] * new_index"))
bad('thr nregs', ['C07'], (T, "n_regs = np.max(regs, 0) + 1", "n_regs = np.max(regs, 0)"))
bad('thr skip first', ['C07'], (T, "for i in range(1, len(n_regs)):", "for i in range(2, len(n_regs)):"))
bad('thr Breg only', ['C07'], (T, "regs = np.array(Breg + Xreg).T", "regs = np.array(Breg).T"))
bad('thr filter regs', ['C07'], (T, "Xreg = [reg[ABX_filter_ind] for reg in Xreg]", "Xreg = [reg[:len(ABX_filter_ind)] for reg in Xreg]"))
bad('thr offset', ['C07'], (T, "sampled_idx += i", "sampled_idx += i - 1"))
bad('thr adv', ['C07'], (T, "new_permut.append(permut[i:i+c])\n        i += c", "new_permut.append(permut[i:i+c])\n            i += c"))
bad('thr self', ['C07'], (T, "threshold=self.threshold))", "threshold=self.threshold + 1))"))
bad('thr groups', ['C07'], (T, "sorted_index = new_index[permut]", "sorted_index = np.sort(new_index)[permut]"))
ok('reg comp', (T, "regressors[name] = reg[iA]\n                if self.filters.ABX:\n                    regressors[name] = regressors[name][ABX_filter_ind]\n                regressors[name] = regressors[name][thr_sort_permut]", "rows = iA\n                if self.filters.ABX:\n                    rows = rows[ABX_filter_ind]\n                regressors[name] = reg[rows[thr_sort_permut]]"))
ok('reg helper', (T, "regressors[name] = reg[iB]\n                if self.filters.ABX:\n                    regressors[name] = regressors[name][ABX_filter_ind]\n                regressors[name] = regressors[name][thr_sort_permut]", "regressors[name] = pick(reg, iB)"), (T, "# lots of code duplication below...", "def pick(reg, idx):\n            r = reg[idx]\n            if self.filters.ABX:\n                r = r[ABX_filter_ind]\n            return r[thr_sort_permut]\n"))
ok('thr enumerate', (T, "for c in counts:\n        if threshold and c > threshold:", "for n, c in enumerate(counts):\n        i = unique_idx[n]\n        if threshold and c > threshold:"))
ok('thr diff', (T, "counts = unique_idx[1:] - unique_idx[:-1]", "counts = np.diff(unique_idx)"))
ok('thr cmp', (T, "if threshold and c > threshold:", "if threshold and threshold < c:"))
ok('stat order', (T, "n_X = n_X - n_A\n", "n_X -= n_A\n"))
ok('stat product', (T, "stats['nb_triplets'] += n_A * n_B * n_X\n", "nbt = n_X * (n_A * n_B)\n                        stats['nb_triplets'] += nbt\n"))
ok('regs loop', (T, "Breg = [reg[iB] for regs in self.regressors.B_regressors\n                        for reg in regs]", "Breg = []\n                for regs in self.regressors.B_regressors:\n                    for reg in regs:\n                        Breg.append(reg[iB])"))
KEYBLOCK = """                        if n_keys * int(n_regs[i]) >= 2 ** 63:
                            # the keys would overflow: number the keys
                            # in use, in the same order
                            new_index = np.unique(
                                new_index, return_inverse=True)[1]
                            n_keys = int(np.max(new_index)) + 1
                        n_keys *= int(n_regs[i])
"""
bad('thr key overflow', ['C07'], (T, KEYBLOCK, ""))
bad('thr key late', ['C07'], (T, ">= 2 ** 63:", ">= 2 ** 66:"))
bad('thr key float', ['C07'], (T, "new_index = regs[:, 0]\n", "new_index = regs[:, 0].astype(np.float64)\n"))
bad('thr key count', ['C07'], (T, "n_keys = int(np.max(new_index)) + 1", "n_keys = 1"))
ok('keyfun', (T, "                    new_index = regs[:, 0]\n                    n_keys = int(n_regs[0])\n                    for i in range(1, len(n_regs)):\n" + KEYBLOCK + "                        new_index = regs[:, i] + n_regs[i] * new_index\n                    reg_ind_type = fit_integer_type(n_keys, is_signed=False)", "                    new_index, n_keys = self._key(regs, n_regs)\n                    reg_ind_type = fit_integer_type(n_keys, is_signed=False)"), (T, "def compute_nb_levels", "@staticmethod\n    def _key(regs, n_regs):\n        key, total = regs[:, 0], int(n_regs[0])\n        for col, n in zip(regs.T[1:], n_regs[1:]):\n            if total * int(n) > 2 ** 62:\n                _, key = np.unique(key, return_inverse=True)\n                total = int(key.max()) + 1\n            total = total * int(n)\n            key = key * n + col\n        return key, total\n\n    def compute_nb_levels"))

# ------------------------------------------------------------------- C08
DD = 'ABXpy/distances/distances.py'
bad('pair base', ['C08'], (T, "pairs[i1, 0] = triplets[:, 0] + ( max_ind + 1) * triplets[:, 2]", "pairs[i1, 0] = triplets[:, 0] + max_ind * triplets[:, 2]"))
bad('pair base both', ['C08'], (T, "max_ind = np.max(db.index.values)", "max_ind = np.max(db.index.values) - 1"))
bad('pair base len', ['C08'], (T, "max_ind = np.max(db.index.values)", "max_ind = len(db) - 1"))
bad('pair rows', ['C08'], (T, "i2 = 2 * ind + 1", "i2 = 2 * ind"))
bad('pair AB', ['C08'], (T, "pairs[i2, 0] = triplets[:, 1] + ( max_ind + 1) * triplets[:, 2]", "pairs[i2, 0] = triplets[:, 1] + (max_ind + 1) * triplets[:, 0]"))
bad('pair last', ['C08'], (T, "if pairs.size > 0: last = pairs[-1, 0] out.write(pairs)", "if pairs.size > 1:\n                                    last = pairs[-1, 0]\n                                    out.write(pairs)"))
bad('pair dup kept', ['C08'], (T, "if pairs[0, 0] == last: pairs = pairs[1:]", "pass"))
bad('pair count dup', ['C08'], (T, "if pairs[0, 0] == last: n_pairs -= 1", "pass"))
bad('pair last not set', ['C08'], (T, "if pairs.size > 0: last = pairs[-1, 0] n_pairs_dict[by] = n_pairs", "pass\n                        n_pairs_dict[by] = n_pairs"))
bad('pair count last first', ['C08'], (T, "last = pairs[-1, 0]", "last = pairs[0, 0]"))
bad('pair no sort', ['C08'], (T, "sort_pairs(output_tmp, by, tmpdir=tmpdir)", "pass"))
bad('pair attrs base', ['C08'], (T, "max_ind_dict[by] + 1, by_index,", "max_ind_dict[by], by_index,"))
bad('pair attrs hi', ['C08'], (T, "by_index, by_index + n_pairs_dict[by])", "by_index, by_index + n_pairs_dict[by] - 1)"))
bad('pair offset', ['C08'], (T, "by_index += n_pairs_dict[by]", "by_index = n_pairs_dict[by]"))
bad('pair skip first', ['C08'], (T, "if triplets_attrs[0] == triplets_attrs[1]:", "if triplets_attrs[0] == 0:"))
bad('decode swap', ['C08'], (DD, "A = np.mod(pair_list, base) B = pair_list // base", "B = np.mod(pair_list, base)\n        A = pair_list // base"))
bad('decode base', ['C08'], (DD, "A = np.mod(pair_list, base)", "A = np.mod(pair_list, base - 1)"))
ok('pair concat', (T, "pairs = np.reshape(pairs, (pairs.shape[0], 1)) n_pairs += np.unique(pairs).size if pairs[0, 0] == last: n_pairs -= 1", "n_new = np.unique(pairs).size\n                                if last == pairs[0, 0]:\n                                    n_new -= 1\n                                n_pairs += n_new"))
ok('pair base var', (T, "pair_key_type = fit_integer_type( (max_ind + 1) ** 2 - 1, is_signed=False)", "base = max_ind + 1\n                pair_key_type = fit_integer_type(\n                    base * base - 1, is_signed=False)"), (T, "pairs[i1, 0] = triplets[:, 0] + ( max_ind + 1) * triplets[:, 2]", "pairs[i1, 0] = base * triplets[:, 2] + triplets[:, 0]"))
ok('pair strides', (T, "pairs[i1, 0] =", "pairs[0::2, 0] ="), (T, "pairs[i2, 0] =", "pairs[1::2, 0] ="))
ok('pair dedupe helper', (T, "pairs = np.unique(pairs) # unique alters the shape pairs = np.reshape(pairs, (pairs.shape[0], 1)) if pairs[0, 0] == last: pairs = pairs[1:]", "pairs = _new_pairs(pairs, last)"), (T, "def sort_pairs(", "def _new_pairs(pairs, last):\n    pairs = np.unique(pairs)\n    pairs = np.reshape(pairs, (pairs.shape[0], 1))\n    if pairs[0, 0] == last:\n        return pairs[1:]\n    return pairs\n\n\ndef sort_pairs("))
ok('pair record merge', (T, "if triplets_attrs[0] == triplets_attrs[1]: # subdataset is empty continue", "if not triplets_attrs[1] > triplets_attrs[0]:\n                        continue"))
ok('decode divmod', (DD, "A = np.mod(pair_list, base) B = pair_list // base", "A = pair_list % base\n        B = (pair_list - A) // base"))

# ------------------------------------------------------------------- C09
bad('job sto', ['C09'], (DD, "sta = sta + amount", "sta = sto + 1"))
bad('job ge', ['C09'], (DD, "while n_pairs > 0:", "while n_pairs > 1:"))
bad('job floor', ['C09'], (DD, "np.int64(np.ceil(total_n_pairs / np.float(n_cpu)))", "total_n_pairs // n_cpu"))
bad('job amount', ['C09'], (DD, "if n_pairs > max_block_size: amount = max_block_size else: amount = n_pairs", "amount = max_block_size"))
bad('job once', ['C09'], (DD, "while n_pairs > 0:", "if n_pairs > 0:"))
bad('job init', ['C09'], (DD, "sta = 0\n", "sta = 1\n"))
bad('job init outside', ['C09'], (DD, "for n_pairs, dset in zip(by_n_pairs, by_dsets): sta = 0 sto = 0", "sta = 0\n    sto = 0\n    for n_pairs, dset in zip(by_n_pairs, by_dsets):"))
bad('job cpus', ['C09'], (DD, "for i in range(n_cpu): indices", "for i in range(n_cpu - 1):\n        indices"))
bad('job cpus 2', ['C09'], (DD, "indices = np.where(cpu == i)[0]", "indices = np.where(cpu == i + 1)[0]"))
bad('job argmax', ['C09'], (DD, "indices = np.where(cpu == i)[0] _by = list(by[indices]) _start = start[indices] _stop = stop[indices]", "indices = np.where(cpu == i)[0]\n        _by = list(by[indices])\n        _start = np.sort(start)[indices]\n        _stop = stop[indices]"))
bad('job store', ['C09'], (DD, "fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis", "fh['distances/data'][start:stop, :] = dis"))
bad('job read', ['C09'], (DD, "fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]", "fh['unique_pairs/data'][start:stop, 0]"))
bad('job blocks', ['C09'], (DD, "for b in range(n_blocks):", "for b in range(1, n_blocks):"))
bad('job by0', ['C09'], (DD, "by = job_description['by'][b]", "by = job_description['by'][0]"))
bad('driver skip', ['C09'], (DD, "for i, job in enumerate(jobs)", "for i, job in enumerate(jobs[1:])"))
bad('driver one', ['C09'], (DD, "if n_cpu > 1:", "if n_cpu > 2:"))
bad('driver size', ['C09'], (DD, "total_n_pairs = fh['unique_pairs/data'].shape[0]", "total_n_pairs = attrs[2] - attrs[1]"))
ok('job range', (DD, "sta = 0 sto = 0 while n_pairs > 0:", "for sta in range(0, n_pairs, max_block_size):\n            sto = min(sta + max_block_size, n_pairs)\n            by.append(dset)\n            start.append(sta)\n            stop.append(sto)\n            n_dist.append(sto - sta)\n        while False:"))
ok('job min', (DD, "if n_pairs > max_block_size: amount = max_block_size else: amount = n_pairs", "amount = min(n_pairs, max_block_size)"))
ok('job one var', (DD, "sto = sto + amount by.append(dset) start.append(sta) stop.append(sto) n_dist.append(amount) sta = sta + amount", "by.append(dset)\n            start.append(sta)\n            sta += amount\n            stop.append(sta)\n            n_dist.append(amount)"))
ok('job round robin', (DD, "cpu[i] = idlest_cpu", "cpu[i] = i % n_cpu"))
ok('job comp', (DD, "jobs = [] for i in range(n_cpu):", "jobs = []\n    for i in np.arange(n_cpu):"))
ok('job zip', (DD, "by = job_description['by'][b] start = job_description['start'][b] stop = job_description['stop'][b]", "by, start, stop = (job_description[k][b]\n                           for k in ('by', 'start', 'stop'))"))
ok('job dis list', (DD, "dis = np.empty(shape=(n_pairs, 1))", "dis = np.zeros(shape=(n_pairs, 1))"))
ok('job helper', (DD, "dataA = features[pairs[i, 0]] dataB = features[pairs[i, 1]]", "iA, iB = pairs[i]\n            dataA = features[iA]\n            dataB = features[iB]"))
ok('driver starmap', (DD, "pool.map(worker, args)", "pool.starmap(run_distance_job, args)"))
ok('driver listappend', (DD, "pool.map(worker, args)", "res = [pool.apply_async(run_distance_job, a) for a in args]\n            for r in res:\n                r.get()"))

# ------------------------------------------------------------------- C10
REL1 = "attrs = fh['unique_pairs'].attrs[by] pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0] base = attrs[0] finally: if synchronize: distance_file_lock.release()"
ACQ1 = "if synchronize: distance_file_lock.acquire() try: store = pandas.HDFStore(pair_file, 'r')"
bad('lock no release', ['C10'], (DD, REL1, "attrs = fh['unique_pairs'].attrs[by]\n                pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]\n                base = attrs[0]\n        finally:\n            pass"))
bad('lock release else', ['C10'], (DD, REL1, "attrs = fh['unique_pairs'].attrs[by]\n                pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]\n                base = attrs[0]\n        except IOError:\n            if synchronize:\n                distance_file_lock.release()\n            raise\n        else:\n            if synchronize:\n                distance_file_lock.release()"))
bad('lock opened before', ['C10'], (DD, ACQ1, "store = pandas.HDFStore(pair_file)\n        if synchronize:\n            distance_file_lock.acquire()\n        try:"))
bad('lock write unlocked', ['C10'], (DD, "if synchronize: distance_file_lock.acquire() try: with h5py.File(distance_file, 'a') as fh: fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis finally: if synchronize: distance_file_lock.release()", "with h5py.File(distance_file, 'a') as fh:\n            fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis"))
bad('lock none', ['C10'], (DD, "splitted_features, i, normalized, distance_file_lock)", "splitted_features, i, normalized)"))
bad('lock each', ['C10'], (DD, "splitted_features, i, normalized, distance_file_lock)", "splitted_features, i, normalized,\n                     multiprocessing.Manager().Lock())"))
bad('lock nested', ['C10'], (DD, "with h5py.File(pair_file, 'r') as fh: attrs = fh", "if synchronize:\n                distance_file_lock.acquire()\n            with h5py.File(pair_file, 'r') as fh:\n                attrs = fh"))
bad('lock cond', ['C10'], (DD, ACQ1, "if synchronize and b > 0:\n            distance_file_lock.acquire()\n        try:\n            store = pandas.HDFStore(pair_file, 'r')"))
bad('lock inside try', ['C10'], (DD, "with h5py.File(pair_file, 'r') as fh:\n                attrs", "if synchronize:\n                distance_file_lock.release()\n            with h5py.File(pair_file, 'r') as fh:\n                attrs"))
bad('lock store leak', ['C10'], (DD, "by_db = store['feat_dbs/' + by] store.close()", "by_db = store['feat_dbs/' + by]"))
ok('lock with', (DD, "if synchronize: distance_file_lock.acquire() try: with h5py.File(distance_file, 'a') as fh: fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis finally: if synchronize: distance_file_lock.release()", "if synchronize:\n            with distance_file_lock:\n                _store(distance_file, attrs, start, stop, dis)\n        else:\n            _store(distance_file, attrs, start, stop, dis)"), (DD, "# hack, external", "def _store(distance_file, attrs, start, stop, dis):\n    with h5py.File(distance_file, 'a') as fh:\n        fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis\n\n\n# hack, external"))
ok('lock ctx', (DD, "if synchronize: distance_file_lock.acquire() try: with h5py.File(distance_file, 'a') as fh: fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis finally: if synchronize: distance_file_lock.release()", "with _locked(distance_file_lock):\n            with h5py.File(distance_file, 'a') as fh:\n                fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis"), (DD, "# hack, external", "@contextlib.contextmanager\ndef _locked(lock):\n    if lock is not None:\n        lock.acquire()\n    try:\n        yield\n    finally:\n        if lock is not None:\n            lock.release()\n\n\n# hack, external"), (DD, "import sys", "import sys\nimport contextlib"))
ok('lock sync name', (DD, "if distance_file_lock is None: synchronize = False else: synchronize = True", "synchronize = distance_file_lock is not None"))
ok('lock read helper', (DD, ACQ1, "_acq(distance_file_lock)\n        try:\n            store = pandas.HDFStore(pair_file, 'r')"), (DD, "# hack, external", "def _acq(lock):\n    if lock is not None:\n        lock.acquire()\n\n\n# hack, external"))

# ------------------------------------------------------------------- C11
DONE = "with h5py.File(distance_file, 'a') as fh: fh.attrs.modify('done', True)"
FIN = "finally: pool.close() pool.join()"
bad('done initially', ['C11'], (DD, "fh.attrs.create('done', False)", "fh.attrs.create('done', True)"))
bad('done never false', ['C11'], (DD, "fh.attrs.create('done', False)", "pass"))
bad('done in finally', ['C11'], (DD, DONE, ""), (DD, FIN, "finally:\n            pool.close()\n            pool.join()\n            with h5py.File(distance_file, 'a') as fh:\n                fh.attrs.modify('done', True)"))
bad('done async', ['C11'], (DD, "pool.map(worker, args)", "pool.map_async(worker, args)"))
bad('done swallow', ['C11', 'C25'], (DD, FIN, "except Exception as e:\n            print(e)\n        finally:\n            pool.close()\n            pool.join()"))
bad('done by job', ['C11'], (DD, "fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis", "fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis\n                fh.attrs.modify('done', True)"))
bad('done one cpu only', ['C11'], (DD, DONE, ""), (DD, "splitted_features, 1, normalized)", "splitted_features, 1, normalized)\n        with h5py.File(distance_file, 'a') as fh:\n            fh.attrs.modify('done', True)"))
bad('done early', ['C11'], (DD, DONE, ""), (DD, "jobs = create_distance_jobs(pair_file, distance_file, n_cpu)", "jobs = create_distance_jobs(pair_file, distance_file, n_cpu)\n    with h5py.File(distance_file, 'a') as fh:\n        fh.attrs.modify('done', True)"))
ok('done setitem', (DD, "fh.attrs.modify('done', True)", "fh.attrs['done'] = True"))
ok('done helper', (DD, DONE, "_mark(distance_file)"), (DD, "# hack, external", "def _mark(distance_file, value=True):\n    with h5py.File(distance_file, 'a') as fh:\n        fh.attrs.modify('done', value)\n\n\n# hack, external"))
ok('done async get', (DD, "pool.map(worker, args)", "pool.map_async(worker, args).get()"))
ok('done pool with', (DD, "try: pool = multiprocessing.Pool(n_cpu)", "pool = multiprocessing.Pool(n_cpu)\n        try:"))

# ------------------------------------------------------------------- C25
NP = 'ABXpy/h5tools/np2h5.py'
HN = 'ABXpy/h5tools/h52np.py'
bad('swallow distance', ['C25'], (DD, "items['offset'][pairs[i, 1]]), )\n                raise", "items['offset'][pairs[i, 1]]),\n                )\n                dis[i, 0] = np.inf"))
bad('swallow cond', ['C25'], (DD, "items['offset'][pairs[i, 1]]), )\n                raise", "items['offset'][pairs[i, 1]]),\n                )\n                if job_id > 0:\n                    raise"))
bad('swallow worker', ['C25'], (DD, "return run_distance_job(*args)", "try:\n        return run_distance_job(*args)\n    except Exception as e:\n        sys.stderr.write(str(e))\n        return e"))
bad('swallow exit true', ['C25'], (NP, "# raise the first exception if eValue is not None:", "return True\n            if eValue is not None:"), )
bad('swallow exit ret', ['C25'], (HN, "def __exit__(self, eType, eValue, eTrace):", "def __exit__(self, eType, eValue, eTrace):\n        self._close(eValue)\n        return True\n\n    def _close(self, eValue):"))
bad('swallow finally return', ['C25'], (DD, "finally: pool.close() pool.join()", "finally:\n            pool.close()\n            pool.join()\n            return"))
bad('swallow read', ['C25'], (DD, "data = h5features.read(feature_file, feature_group)\n            t = data[0]", "try:\n                data = h5features.read(feature_file, feature_group)\n            except IOError:\n                continue\n            t = data[0]"))
bad('swallow np2h5 warn', ['C25'], (NP, "# FIXME the first exception will be raised, but could log a # warning here ... pass else: raise", "pass\n            else:\n                print('incomplete')"))
bad('swallow suppress', ['C25'], (DD, "pool.map(worker, args)", "with contextlib.suppress(Exception):\n                pool.map(worker, args)"), (DD, "import sys", "import sys\nimport contextlib"))
bad('swallow score', ['C25'], (S, "dis = d['distances']['data'][pair_attrs[1]:pair_attrs[2]][...]", "try:\n                    dis = d['distances']['data'][pair_attrs[1]:pair_attrs[2]][...]\n                except Exception:\n                    continue"))
bad('swallow async', ['C25'], (DD, "pool.map(worker, args)", "pool.map_async(worker, args).wait()"))
ok('reraise as', (DD, "items['offset'][pairs[i, 1]]), )\n                raise", "items['offset'][pairs[i, 1]]),\n                )\n                raise sys.exc_info()[1]"))
ok('reraise helper', (DD, "def worker(args):", "def _fail(msg):\n    sys.stderr.write(msg)\n    raise\n\n\ndef worker(args):"), (DD, "items['offset'][pairs[i, 1]]), )\n                raise", "items['offset'][pairs[i, 1]]),\n                )\n                _fail('')"))
ok('np2h5 exit flip', (NP, "if eValue is not None:\n                # FIXME the first exception will be raised, but could log a\n                # warning here ...\n                pass\n            else:\n                raise", "if eValue is None:\n                raise"))

# ------------------------------------------------------------------- C19
WIN = "t = np.where(np.logical_and( self.times[f] >= on, self.times[f] <= off))[0]"
bad('win strict', ['C19'], (DD, "self.times[f] >= on,", "self.times[f] > on,"))
bad('win strict off', ['C19'], (DD, "self.times[f] <= off", "self.times[f] < off"))
bad('win or', ['C19'], (DD, "np.logical_and(", "np.logical_or("))
bad('win drop last', ['C19'], (DD, "features[ix] = self.features[f][t, :]", "features[ix] = self.features[f][t[:-1], :]"))
bad('win search', ['C19'], (DD, WIN, "t = np.arange(np.searchsorted(self.times[f], on),\n                          np.searchsorted(self.times[f], off))"))
bad('win linear', ['C19'], (DD, "features[ix] = self.features[f][t, :]", "features[ix] = self.features[f][t[0]:t[-1], :]"))
bad('win first file', ['C19'], (DD, "f = str(f)\n", "f = str(items['file'].iloc[0])\n"))
bad('win onoff', ['C19'], (DD, "items['onset'], items['offset']):\n            f = str(f)", "items['onset'], items['onset']):\n            f = str(f)"))
ok('win searchsorted', (DD, WIN, "t = np.arange(np.searchsorted(self.times[f], on, side='left'),\n                          np.searchsorted(self.times[f], off, side='right'))"))
ok('win slice', (DD, WIN, "lo = np.searchsorted(self.times[f], on, side='left')\n            hi = np.searchsorted(self.times[f], off, side='right')"), (DD, "features[ix] = self.features[f][t, :]", "features[ix] = self.features[f][lo:hi, :]"))
ok('win mask', (DD, WIN, "t = (self.times[f] >= on) & (self.times[f] <= off)"))
ok('win helper', (DD, WIN, "t = self._window(f, on, off)"), (DD, "def get_features_from_raw", "def _window(self, f, on, off):\n        times = self.times[f]\n        inside = np.logical_and(on <= times, times <= off)\n        return np.flatnonzero(inside)\n\n    def get_features_from_raw"))
ok('win comp', (DD, "features = {} for ix, f, on, off in zip( items.index", "return {ix: self._get(str(f), on, off) for ix, f, on, off in zip(items.index, items['file'], items['onset'], items['offset'])}\n\n    def _get(self, f, on, off):\n        t = np.where((self.times[f] >= on) & (self.times[f] <= off))[0]\n        return self.features[f][t, :]\n\n    def _old(self, items):\n        features = {}\n        for ix, f, on, off in zip(items.index"))

# ------------------------------------------------------------------- C20
DB = 'ABXpy/database/database.py'
bad('feat iloc', ['C20'], (T, "feat_db.loc[by_frame.index]", "feat_db.iloc[by_frame.index]"))
bad('feat after filter', ['C20'], (T, "by_feat_db = feat_db.loc[by_frame.index] # drop indexes by_frame = by_frame.reset_index(drop=True)", "by_frame = by_frame.reset_index(drop=True)\n                by_feat_db = feat_db.loc[by_frame.index]"))
bad('feat filtered reset', ['C20'], (T, "by_frame = self.filters.generic_filter(by_values, by_frame) if len(by_frame) == 0: continue", "by_frame = self.filters.generic_filter(by_values, by_frame)\n                if len(by_frame) == 0:\n                    continue\n                by_frame = by_frame.reset_index(drop=True)"))
bad('feat no reset', ['C20'], (T, "by_feat_db = by_feat_db.reset_index(drop=True)", "pass"))
bad('feat only filtered', ['C20'], (T, "self.feat_dbs[by_key] = by_feat_db", "self.feat_dbs[by_key] = by_feat_db.iloc[by_frame.index].reset_index(drop=True)"))
bad('feat load not masked', ['C20'], (DB, "feat_db = feat_db[~ nanrows]", "feat_db = feat_db"))
bad('feat load reset', ['C20'], (DB, "db = db[~ nanrows] feat_db", "db = db[~ nanrows].reset_index(drop=True)\n    feat_db"))
bad('feat loc job', ['C20'], (DD, "items = by_db.iloc[by_inds]", "items = by_db.iloc[by_inds].reset_index(drop=True)"))
bad('feat pos', ['C20'], (DD, "dataB = features[pairs[i, 1]]", "dataB = features[pairs[i, 0]]"))
bad('feat inds', ['C20'], (DD, "by_inds = np.unique(np.concatenate([A, B]))", "by_inds = np.unique(A)"))
bad('feat store key', ['C20'], (T, "store.append('/feat_dbs/' + str(by), self.feat_dbs[by],", "store.append('/feat_db/' + str(by), self.feat_dbs[by],"))
ok('feat reset early', (T, "by_feat_db = feat_db.loc[by_frame.index] # drop indexes", "by_feat_db = feat_db.loc[by_frame.index].reset_index(drop=True)"), (T, "by_feat_db = by_feat_db.reset_index(drop=True)", "pass"))
ok('feat get', (DD, "items = by_db.iloc[by_inds]", "items = by_db.loc[by_inds]"))
ok('feat sorted set', (DD, "by_inds = np.unique(np.concatenate([A, B]))", "by_inds = np.unique(pairs)"))
ok('feat load keep', (DB, "feat_db = feat_db[~ nanrows]", "complete = ~ nanrows\n    feat_db = feat_db[complete]"))

# ------------------------------------------------------------------- C15
NW = 'ABXpy/h5tools/np2h5.py'
HR = 'ABXpy/h5tools/h52np.py'
bad('w lost tail', ['C15'], (NW, "data = data[buffer_space:, :]", "data = data[self.buf_len:, :]"))
bad('w strict full', ['C15'], (NW, "while target_ix >= self.buf_len:", "if target_ix >= self.buf_len:"))
bad('w grow', ['C15'], (NW, "self.buf_len * (target_ix // self.buf_len)", "self.buf_len * (data.shape[0] // self.buf_len)"))
bad('w flush reset', ['C15'], (NW, "if not(self.fixed_size) and ix_end > self.n_rows:\n                self.dataset.resize", "if not(self.fixed_size) and ix_end > self.n_rows + 1:\n                self.dataset.resize"))
bad('w flush stale', ['C15'], (NW, "= self.buf[:self.buf_ix]\n", "= self.buf[-self.buf_ix:]\n"))
bad('w complete', ['C15'], (NW, "test = self.dataset_ix == self.n_rows", "test = self.dataset_ix <= self.n_rows"))
bad('r clip', ['C15'], (HR, "next_ix = min(next_ix, self.dataset_end)", "next_ix = min(next_ix, self.dataset.shape[0])"))
bad('r just enough', ['C15'], (HR, "if amount_in_buffer > needed:", "if amount_in_buffer >= needed + 2:"))
bad('r shift', ['C15'], (HR, "next_buf_ix = max(next_buf_ix, 0)\n                next_ix = min(next_ix, self.n_rows)", "next_ix = min(next_ix, self.n_rows)\n                next_buf_ix = 0"))
bad('r end', ['C15'], (HR, "return self.dataset_ix == self.n_rows and self.buf_ix == self.buf_len", "return self.dataset_ix == self.n_rows"))
ok('w divmod', (NW, "target_ix = target_ix - self.buf_len\n", "target_ix -= len(self.buf)\n"))
ok('w space', (NW, "self.buf[self.buf_ix:] = data[:buffer_space, :]", "head, rest = data[:buffer_space], data[buffer_space:]\n            self.buf[self.buf_ix:, :] = head"), (NW, "data = data[buffer_space:, :]", "data = rest"))
ok('r min', (HR, "if amount_in_buffer > needed:  # enough data in buffer\n                next_buf_ix = self.buf_ix + needed\n                amount_found = amount\n            else:\n                # not enough data in buffer (or just enough)\n                next_buf_ix = self.buf_len\n                amount_found = amount_found + amount_in_buffer\n", "taken = min(needed, amount_in_buffer)\n            next_buf_ix = self.buf_ix + taken\n            amount_found += taken\n"))
ok('r portion', (HR, "occupied_portion = 1. - float(self.buf_ix) / float(self.buf_len)\n            if occupied_portion < self.minimum_occupied_portion:\n                # set useful variables\n                curr_ix = self.dataset_ix\n                next_ix = curr_ix + self.buf_ix\n                next_buf_ix = next_ix - self.n_rows\n                amount_in_buffer = self.buf_len - self.buf_ix\n                # take care of not going out of the dataset\n                next_buf_ix = max(next_buf_ix, 0)\n                next_ix = min(next_ix, self.n_rows)", "amount_in_buffer = self.buf_len - self.buf_ix\n            if float(amount_in_buffer) / self.buf_len < self.minimum_occupied_portion:\n                # set useful variables\n                curr_ix = self.dataset_ix\n                next_ix = min(curr_ix + self.buf_ix, self.n_rows)\n                next_buf_ix = self.buf_ix - (next_ix - curr_ix)"))

# ------------------------------------------------------------------- C13
AN = 'ABXpy/analyze.py'
bad('an permut', ['C13'], (AN, "sorted_scores = scores_arr[permut]", "sorted_scores = scores_arr"))
bad('an radix', ['C13'], (AN, "n_indices = np.max(indices, 0) + 1", "n_indices = np.max(indices, 0)"))
bad('an horner', ['C13'], (AN, "new_index = indices[:, i] + n_indices[i] * new_index", "new_index = indices[:, i] + n_indices[i - 1] * new_index"))
bad('an decode', ['C13'], (AN, "aux = np.floor_divide(aux, max_ind[k - 1 - i])", "aux = np.floor_divide(aux, max_ind[k - 2 - i])"))
bad('an int mean', ['C13'], (AN, "means = (means + 1) / 2", "means = means / 2 + 1"))
bad('an first count', ['C13'], (AN, "n = counts[i]", "n = counts[0]"))
bad('an slices', ['C13'], (AN, "np.mean(scores[i:i+c])", "np.mean(scores[i:i+c-1]) if c > 2 else np.mean(scores[i:i+c])"))
bad('an float decode', ['C13'], (AN, "dtype=keys.dtype)", "dtype=float)"), (AN, "aux = np.floor_divide(aux, max_ind[k - 1 - i])", "aux = np.divide(aux - res[:, k - 1 - i], max_ind[k - 1 - i])"))
bad('an wrap', ['C13'], (AN, "new_index = indices[:, 0].astype(ind_type)", "new_index = indices[:, 0]"))
bad('an type', ['C13'], (AN, "ind_type = fit_integer_type(n_keys, is_signed=False)", "ind_type = fit_integer_type(n_keys // 2, is_signed=False)"))
bad('an by', ['C13'], (AN, "tfrk = taskfid['regressors'][by]", "tfrk = taskfid['regressors'][bys[0]]"))
bad('an empty by', ['C13'], (AN, "            continue\n", "            break\n"))
bad('an header', ['C13'], (AN, "string += 'by\\tscore\\tn\\n'", "string += 'by\\tn\\tscore\\n'"))
ok('an header join', (AN, "string = u''\n        for reg in regs:\n            string += reg + '\\t'\n        string += 'by\\tscore\\tn\\n'\n        fid.write(string)", "fid.write('\\t'.join(list(regs) + ['by', 'score', 'n']) + '\\n')"))
ok('an bincount', (AN, "    means = np.empty((len(counts)),)\n    i = 0\n    for a, c in enumerate(counts):\n        means[a] = np.mean(scores[i:i+c])\n        i += c\n", "    starts = unique_idx[:-1]\n    means = np.array([np.sum(scores[s:s + c]) / float(c) for s, c in zip(starts, counts)])\n"))
ok('an decode down', (AN, "    for i in range(k - 1):\n        res[:, k - 1 - i] = np.mod(aux, max_ind[k - 1 - i])\n        aux = np.floor_divide(aux, max_ind[k - 1 - i])\n    res[:, 0] = aux", "    for j in range(k - 1, 0, -1):\n        base = max_ind[j]\n        res[:, j] = aux % base\n        aux = aux // base\n    res[:, 0] = aux"))
ok('an zip', (AN, "        for i, key in enumerate(tmp):\n            aux = list()\n            for j in range(nregs):\n                aux.append(indexes[j][int(key[j])])\n            score = mean[i]\n            n = counts[i]\n            result = aux + [by, score, int(n)]", "        for key, score, n in zip(tmp, mean, counts):\n            aux = [indexes[j][int(key[j])] for j in range(nregs)]\n            result = aux + [by, score, int(n)]"))
ok('an helper', (AN, "            fid.write('\\t'.join(map(str, result)) + u'\\n')", "            fid.write(_line(result))"), (AN, "def unique(index", "def _line(cells):\n    return u'{}\\n'.format('\\t'.join([str(c) for c in cells]))\n\n\ndef unique(index"))

# -------------------------------------------------------------- C16, C17
DW = 'ABXpy/distances/metrics/dtw/dtw.pyx'
DI = 'ABXpy/distance.py'
EX = 'ABXpy/distances/example_distances.py'
bad('dtw init', ['C16'], (DW, "cost[i,0] = dist_array[i,0] + cost[i-1,0]", "cost[i,0] = dist_array[i,0]"))
bad('dtw no diag', ['C16'], (DW, "min(cost[i-1,j], cost[i-1,j-1], cost[i,j-1])", "min(cost[i-1,j], cost[i,j-1])"))
bad('dtw sakoe', ['C16'], (DW, "cost[i,j] = dist_array[i,j] + min(cost[i-1,j], cost[i-1,j-1], cost[i,j-1])", "cost[i,j] = min(cost[i-1,j] + dist_array[i,j], cost[i-1,j-1] + 2 * dist_array[i,j], cost[i,j-1] + dist_array[i,j])"))
bad('dtw tie', ['C16'], (DW, "elif c_left <= c_up:", "elif c_left >= c_up:"))
bad('dtw path len', ['C16'], (DW, "path_len = 1", "path_len = 0"))
bad('dtw tail', ['C16'], (DW, "path_len += j", "path_len += 1"))
bad('dtw norm sum', ['C16'], (DW, "final_cost /= path_len", "final_cost /= N + M"))
bad('dtw last', ['C16'], (DW, "for i in range(1,N):\n        for j", "for i in range(1,N-1):\n        for j"))
bad('dtw metric swap', ['C16'], (DW, "metric(x,y)", "metric(y,x)"))
bad('dtw norm dropped', ['C16'], (EX, "normalized=normalized", "normalized=True"))
bad('dtw default kl', ['C16'], (DI, "d = dtw.dtw(x, y, kl.kl_divergence,", "d = dtw.dtw(x, y, cosine.cosine_distance,"))
bad('empty zero', ['C17'], (DI, "d = np.inf", "d = 0"))
bad('empty order', ['C17'], (EX, "    elif x.shape[0] == y.shape[0]:\n        d = 0\n    else:\n        d = np.inf", "    elif x.shape[0] == 0:\n        d = 0\n    else:\n        d = np.inf"))
ok('dtw temp', (DW, "cost[i,j] = dist_array[i,j] + min(cost[i-1,j], cost[i-1,j-1], cost[i,j-1])", "c_diag = cost[i-1, j-1]\n            c_up = min(cost[i-1,j], cost[i,j-1])\n            cost[i,j] = min(c_diag, c_up) + dist_array[i,j]"))
ok('dtw walk', (DW, "            if c_diag <= c_left and c_diag <= c_up:\n                i -= 1\n                j -= 1\n            elif c_left <= c_up:\n                j -= 1\n            else:\n                i -= 1\n            path_len += 1\n        if i == 0:\n            path_len += j\n        if j == 0:\n            path_len += i\n", "            path_len += 1\n            if c_up < c_diag and c_up < c_left:\n                i -= 1\n                continue\n            j -= 1\n            if not c_left < c_diag:\n                i -= 1\n        path_len += i + j\n"))
ok('dtw cdef', (DW, "cdef IND_t i, j\n", "cdef IND_t i = 0, j = 0\n"))
ok('empty early', (DI, "    if x.shape[0] > 0 and y.shape[0] > 0:\n        # x and y are not empty\n        d = dtw.dtw(x, y, cosine.cosine_distance,\n                    normalized=normalized)\n    elif x.shape[0] == y.shape[0]:\n        # both x and y are empty\n        d = 0\n    else:\n        # x or y is empty\n        d = np.inf\n    return d", "    if not len(x) and not len(y):\n        return 0\n    if len(x) == 0 or len(y) == 0:\n        return np.inf\n    return dtw.dtw(x, y, cosine.cosine_distance, normalized)"))

# ---- frame distances
CO = 'ABXpy/distances/metrics/cosine.py'
KLF = 'ABXpy/distances/metrics/kullback_leibler.py'
bad('cos axis', ['C29'], (CO, "y2 = np.sqrt(np.sum(y ** 2, axis=1))", "y2 = np.sqrt(np.sum(y ** 2, axis=0))"))
bad('cos outer', ['C29'], (CO, "np.outer(x2, y2)", "np.outer(y2, x2).T * np.ones(1)"), ) if False else None
bad('cos pi', ['C29'], (CO, "arccos(d) / np.pi", "arccos(d) / (2 * np.pi)"))
bad('cos one frame', ['C29'], (CO, "arccos(d[0, 0]) / np.pi", "arccos(d[0, 0])"))
bad('cos real', ['C30'], (CO, "d = np.float64(np.lib.scimath.arccos(d) / np.pi)", "d = np.float64(np.arccos(d) / np.pi)"))
bad('cos zero both', ['C30'], (CO, "d[i, iy] = 0.", "d[i, ~iy] = 0."))
bad('cos zero order', ['C30'], (CO, "d[ix, :] = 1. d[:, iy] = 1. for i in np.where(ix)[0]: d[i, iy] = 0.", "for i in np.where(ix)[0]:\n        d[i, iy] = 0.\n    d[ix, :] = 1.\n    d[:, iy] = 1."))
bad('cos zero y', ['C30'], (CO, "d[:, iy] = 1.", "d[:, ix] = 1.") )
bad('kl eps', ['C29'], (KLF, "y = y + eps", "y = y + 2 * eps"))
bad('kl renorm', ['C29'], (KLF, "x = x + eps y = y + eps x = x / x.sum(1).reshape(x.shape[0], 1) y = y / y.sum(1).reshape(y.shape[0], 1)", "x = x + eps\n        y = y + eps\n        x = x / x.sum(1).reshape(x.shape[0], 1)")) if False else None
bad('kl sym', ['C29'], (KLF, "0.5 * res + 0.5 * __kl_divergence(y, x).transpose()", "0.5 * res + 0.5 * __kl_divergence(x, y)"))
bad('kl thresholded', ['C29'], (KLF, "if thresholded: normalize = True", "if thresholded and symmetrized:\n        normalize = True"))
bad('js half', ['C29'], (KLF, "res = 0.5 * (x_x - x_m) + 0.5 * (y_y - y_m)", "res = 0.5 * (x_x - x_m) + 0.5 * (x_x - y_m)"))
bad('js tile', ['C29'], (KLF, "(1, x.shape[0])).transpose()", "(1, x.shape[0])).reshape(x.shape[0], y.shape[0])"))
bad('hel scale', ['C29'], (KLF, "(1. / np.sqrt(2)) * res", "(1. / 2) * res"))
bad('hel axis', ['C29'], (KLF, "np.sum(xx_yy ** 2, axis=-1)", "np.sum(np.abs(xx_yy), axis=-1)"))
bad('cos inplace', ['C18'], (CO, "x = x / x.sum(1).reshape(x.shape[0], 1)", "x /= x.sum(1).reshape(x.shape[0], 1)"))
bad('kl inplace view', ['C18'], (KLF, "if normalize: x = x / x.sum(1).reshape(x.shape[0], 1)", "if normalize:\n        z = x.reshape(x.shape)\n        z[:, :] = x / x.sum(1).reshape(x.shape[0], 1)"))
bad('kl inplace out', ['C18'], (KLF, "if normalize: x = x / x.sum(1).reshape(x.shape[0], 1)", "if normalize:\n        x = np.divide(x, x.sum(1).reshape(x.shape[0], 1), out=x)"))
bad('kl inplace mask', ['C18'], (KLF, "if thresholded: eps", "if thresholded:\n        y[y == 0] = 0\n        eps") ) if False else None
bad('hel inplace callee', ['C18'], (KLF, "def hellinger_distance(x, y):", "def _norm(a):\n    a /= a.sum(1)[:, np.newaxis]\n    return a\n\n\ndef hellinger_distance(x, y):\n    x = _norm(x)\n"))
bad('cos zeros replaced', ['C18'], (CO, "ix = x2 == 0.", "ix = x2 == 0.\n    x[ix, :] = 1."))
bad('dtw sorts', ['C18'], ('ABXpy/distance.py', "d = editdistance.eval(totuple(x), totuple(y))", "x.sort(axis=1)\n        d = editdistance.eval(totuple(x), totuple(y))"))
ok('cos norm', (CO, "x2 = np.sqrt(np.sum(x ** 2, axis=1))", "x2 = np.linalg.norm(x, axis=1)"))
ok('cos clip', (CO, "d = np.float64(np.lib.scimath.arccos(d) / np.pi)", "d = np.arccos(np.clip(d, -1, 1)) / np.pi"))
ok('cos zero both 2', (CO, "for i in np.where(ix)[0]: d[i, iy] = 0.", "d[np.ix_(ix, iy)] = 0."))
ok('cos zero both 3', (CO, "for i in np.where(ix)[0]: d[i, iy] = 0.", "d[np.outer(ix, iy)] = 0."))
ok('cos shape', (CO, "if d.shape == (1, 1): d = np.array([[np.float64(np.lib.scimath.arccos(d[0, 0]) / np.pi)]]).reshape((1, 1)) else:", "if True:"))
ok('cos helper', (CO, "def cosine_distance(x, y):", "def _norms(a):\n    return np.sqrt((a * a).sum(axis=1))\n\n\ndef cosine_distance(x, y):"), (CO, "x2 = np.sqrt(np.sum(x ** 2, axis=1)) y2 = np.sqrt(np.sum(y ** 2, axis=1))", "x2 = _norms(x)\n    y2 = _norms(y)"))
ok('kl helper', (KLF, "def kl_divergence(", "def _normalize(a):\n    return a / a.sum(axis=1, keepdims=True)\n\n\ndef kl_divergence("), (KLF, "if normalize: x = x / x.sum(1).reshape(x.shape[0], 1) y = y / y.sum(1).reshape(y.shape[0], 1)", "if normalize:\n        x, y = _normalize(x), _normalize(y)"))
ok('kl own inplace', (KLF, "x = x + eps y = y + eps x = x / x.sum(1).reshape(x.shape[0], 1)", "x = x + eps\n        y = y + eps\n        x /= x.sum(1).reshape(x.shape[0], 1)"))
ok('hel broadcast', (KLF, "xx_yy = xx - yy", "xx_yy = x[:, np.newaxis, :] - y[np.newaxis, :, :]"))
ok('js m', (KLF, "m = (xx + yy) / 2 x_m", "m = 0.5 * xx + 0.5 * yy\n    x_m"))
ok('kl broadcast', (KLF, "pp = np.tile( np.sum(x * np.log(x), axis=1).reshape(x.shape[0], 1), (1, y.shape[0]))", "pp = np.sum(x * np.log(x), axis=1)[:, None]"))

U = 'ABXpy/distances/metrics/utw.py'
bad('utw half', ['C34'], (U, "np.concatenate([l3i-1, l3i])", "np.concatenate([l3i, l3i])"))
bad('utw weight', ['C34'], (U, "y[j_half, :])) / 2.", "y[j_half, :]))"))
bad('utw swap', ['C34'], (U, "if x.shape[0] > y.shape[0]:", "if x.shape[0] < y.shape[0] - 100:"))
bad('utw rounding', ['C34'], (U, "l2 = n1*(2*l1+1) l3 = l2//(2*n2) integers = np.where(l2 == l3*2*n2)[0] non_integers = np.where(l2 != l3*2*n2)[0]", "l2 = n1/float(n2)*(l1+0.5)\n    l3 = np.floor(l2).astype(int)\n    integers = np.where(l2 == l3)[0]\n    non_integers = np.where(l2 != l3)[0]"))
ok('utw exact division', (U, "l2 = n1*(2*l1+1) l3 = l2//(2*n2) integers = np.where(l2 == l3*2*n2)[0] non_integers = np.where(l2 != l3*2*n2)[0]", "l2 = n1*(2*l1+1)/(2.*n2)\n    l3 = np.floor(l2).astype(int)\n    integers = np.where(l2 == l3)[0]\n    non_integers = np.where(l2 != l3)[0]"))
ok('utw mask', (U, "l3 = l2//(2*n2) integers = np.where(l2 == l3*2*n2)[0] non_integers = np.where(l2 != l3*2*n2)[0]", "l3 = l2//(2*n2)\n    between = l2 % (2*n2) == 0\n    integers = np.where(between)[0]\n    non_integers = np.where(~between)[0]"))
ok('utw swap 2', (U, "z = x, y y, x = z", "x, y = y, x"))

# ---- temporary files (C22)
HH = 'ABXpy/h5tools/h5_handler.py'
bad('tmp default', ['C22'], (T, "sort_pairs(output_tmp, by, tmpdir=tmpdir)", "sort_pairs(output_tmp, by)"))
bad('tmp default2', ['C22'], (T, "tempfile.mkstemp(dir=tmpdir)", "tempfile.mkstemp()"))
bad('tmp default3', ['C22'], (HH, "with H5TMP(tmpdir=tmpdir) as tmp:", "with H5TMP() as tmp:"))
bad('tmp default4', ['C22'], (T, "self._generate_pairs(output, tmpdir=tmpdir)", "self._generate_pairs(output)"))
bad('tmp leak', ['C22'], (HH, "            os.rmdir(self.tmpdir)\n", ""))
bad('tmp leak2', ['C22'], (HH, "            os.remove(self.tmpfile)\n", ""))
bad('tmp nofinally', ['C22'], (HH, "        # delete the backup\n        finally:\n            # os.remove(self.backup)\n            os.rmdir(self.backupDir)", "        except IOError:\n            raise\n        os.rmdir(self.backupDir)"))
bad('tmp except', ['C22'], (T, "        finally:\n            os.remove(output_tmp)", "        except Exception:\n            os.remove(output_tmp)\n            raise"))
bad('tmp cond', ['C22'], (T, "            os.remove(output_tmp)", "            if self.verbose:\n                os.remove(output_tmp)"))
bad('tmp failed', ['C22'], (HH, "            os.remove(self.tmpfile)\n            os.rmdir(self.tmpdir)", "            if eType is None:\n                os.remove(self.tmpfile)\n                os.rmdir(self.tmpdir)"))
bad('tmp fd', ['C22'], (T, "        os.close(fd)\n", ""))
bad('tmp earlyuse', ['C22'], (T, "        os.close(fd)\n        try:\n", "        os.close(fd)\n        with h5py.File(output_tmp, 'a') as fh:\n            fh.create_group('/pairs')\n        try:\n"))
ok('tmp helper', (T, "        fd, output_tmp = tempfile.mkstemp(dir=tmpdir)\n        os.close(fd)\n", "        output_tmp = self._temporary(tmpdir)\n"), (T, "    def _generate_pairs(", "    @staticmethod\n    def _temporary(where):\n        handle, name = tempfile.mkstemp(dir=where)\n        os.close(handle)\n        return name\n\n    def _generate_pairs("))
ok('tmp rmtree', (HH, "            os.remove(self.tmpfile)\n            os.rmdir(self.tmpdir)", "            shutil.rmtree(self.tmpdir)"), (HH, "import os\n", "import os\nimport shutil\n"))
ok('tmp cleanup', (HH, "            self.tmp.close()\n            os.remove(self.tmpfile)\n            os.rmdir(self.tmpdir)", "            self._cleanup()"), (HH, "    def __exit__(self, eType", "    def _cleanup(self):\n        self.tmp.close()\n        os.remove(self.tmpfile)\n        os.rmdir(self.tmpdir)\n\n    def __exit__(self, eType"))
ok('tmp noback', (HH, "            with H5TMP(tmpdir=tmpdir) as tmp:\n                with h5py.File(self.file, 'a') as f:\n", "            with H5TMP(tmpdir) as tmp:\n                with h5py.File(self.file, 'a') as f:\n"))

# ---- external sort (C33)
HN_ = 'ABXpy/h5tools/h52np.py'
bad('xs bisect', ['C33'], (HN_, "bisect.bisect_right(self.buf[self.buf_ix:, :], x)", "bisect.bisect_left(self.buf[self.buf_ix:, :], x)"))
bad('xs whole', ['C33'], (HN_, "bisect.bisect_right(self.buf[self.buf_ix:, :], x)", "bisect.bisect_right(self.buf, x)"))
bad('xs tail', ['C33'], (HN_, "return self.buf[-1, 0]", "return self.buf[self.buf_ix, 0]"))
bad('xs max', ['C33'], (HH, "min_tail = min(", "min_tail = max("))
bad('xs tile', ['C33'], (HH, "if row < self.n_row:", "if row < self.n_row - 1:"))
bad('xs order', ['C33'], (HH, "            chunk = chunk[order, :]\n", "            chunk = chunk[order, :] if i == 0 else chunk\n"))
bad('xs order2', ['C33'], (HH, "                                    data = np.concatenate(data)\n                                    o_buf[d].write(data[order, :])\n\n                            # flush", "                                    data = np.concatenate(data)\n                                    o_buf[d].write(data)\n\n                            # flush"))
bad('xs flush', ['C33'], (HH, "                                order = np.argsort(data[:, 0])\n                                o_buf[0].write(data[order, :])\n\n                            for d", "                                o_buf[0].write(data)\n\n                            for d"))
bad('xs loop', ['C33'], (HH, "while not(all([buf.dataset_empty() for buf in i_buf[0]])):", "while not(any([buf.dataset_empty() for buf in i_buf[0]])):"))
ok('xs nonempty', (HH, "if not(buf.isempty())])", "if not(buf.dataset_empty())])"))
bad('xs name', ['C33'], (HH, "chunk_name = self.datasets[i] + '_' + str(chunk_id)", "chunk_name = self.datasets[i] + '_' + str(chunk_id % 10)"))
bad('xs key', ['C33'], (HH, "key = self.dsets[0][i_start:i_end, 0]", "key = self.dsets[-1][i_start:i_end, 0]"))
ok('xs argsort', (HH, "order = np.argsort(key)", "order = key.argsort()"))
ok('xs range', (HH, "                    while row <= self.n_row - buf_rows:\n                        self.extract_chunk(row, row + buf_rows, n_chunks)\n                        n_chunks = n_chunks + 1\n                        row = row + buf_rows\n\n                    if row < self.n_row:\n                        self.extract_chunk(row, self.n_row, n_chunks)\n                        n_chunks = n_chunks + 1", "                    while row < self.n_row:\n                        stop = min(row + buf_rows, self.n_row)\n                        self.extract_chunk(row, stop, n_chunks)\n                        n_chunks += 1\n                        row = stop"))
ok('xs any', (HH, "while not(all([buf.dataset_empty() for buf in i_buf[0]])):", "while any(not buf.dataset_empty() for buf in i_buf[0]):"))
ok('xs helper', (HH, "                                    data = []\n                                    # for all chunks: read up to the\n                                    # appropriate index, concatenate, sort and\n                                    # output\n                                    for c in range(n_chunks):\n                                        if amounts[c] > 0:\n                                            data.append(\n                                                i_buf[d][c].read(amounts[c]))\n                                    data = np.concatenate(data)\n", "                                    data = self._take(i_buf[d], amounts)\n"), (HH, "    def extract_chunk(", "    @staticmethod\n    def _take(bufs, amounts):\n        return np.concatenate([b.read(n) for b, n in zip(bufs, amounts) if n > 0])\n\n    def extract_chunk("))

# ---- C04, C05: side operations
SM = 'ABXpy/sideop/side_operations_manager.py'
FMF = 'ABXpy/sideop/filter_manager.py'
RMF = 'ABXpy/sideop/regressor_manager.py'
bad('sf stale', ['C04'], (FMF, "context[var] = [context[var][e] for e in still_up]", "pass"))
bad('sf kept', ['C04'], (FMF, "context[var] = [context[var][e] for e in still_up]", "context[var] = [context[var][e] for e in kept]"))
bad('sf replace', ['C04'], (FMF, "kept = kept[still_up]", "kept = still_up"))
bad('sf first', ['C04'], (FMF, "        if not(kept.size):\n            break", "        if kept.size < 2:\n            break"))
bad('sf any', ['C04'], (FMF, "    keep = True\n    for result in generator:\n        if not(result):\n            keep = False\n            break", "    keep = True\n    for result in generator:\n        keep = bool(result)"))
bad('sf nocopy', ['C04'], (SM, "return (db_fun.evaluate(copy.deepcopy(context)) for db_fun in db_funs)", "return (db_fun.evaluate(context) for db_fun in db_funs)"))
bad('sf shallow', ['C04'], (SM, "return (db_fun.evaluate(copy.deepcopy(context)) for db_fun in db_funs)", "return (db_fun.evaluate(copy.copy(context)) for db_fun in db_funs)"))
bad('sf once', ['C04'], (SM, "return (db_fun.evaluate(copy.deepcopy(context)) for db_fun in db_funs)", "context = copy.deepcopy(context)\n    return (db_fun.evaluate(context) for db_fun in db_funs)"))
bad('sf list', ['C04'], (SM, "return (db_fun.evaluate(copy.deepcopy(context)) for db_fun in db_funs)", "return [db_fun.evaluate(copy.deepcopy(context)) for db_fun in db_funs]"))
bad('sf col', ['C05'], (SM, "'B_context', context, 'ABX', db, triplets[:, 1])", "'B_context', context, 'ABX', db, triplets[:, 2])"))
bad('sf interp', ['C05'], (SM, "interpret_2 = lambda r: '_B' if r in self.on_cols else '_X'", "interpret_2 = lambda r: '_X' if r in self.on_cols else '_B'"))
bad('sf iloc', ['C05'], (SM, "list(db[radical][indices])", "list(db[radical].iloc[indices])"))
bad('sf noext', ['C05'], (SM, "if '' in {s for r, s in elements}:", "if {''} == {s for r, s in elements}:"))
bad('sf cond', ['C05'], (SM, "and not(s in ['_A', '_X'] and r in self.on_cols)", "and not(s in ['_A', '_B', '_X'] and r in self.on_cols)"))
bad('sf cond2', ['C05'], (SM, "not(s in ['_1', '_AX', '_AB'])", "not(s in ['_1', '_2', '_AX', '_AB'])"))
bad('sf check', ['C05'], (SM, "C2 = s == '_AX' and not(r in self.on_cols)", "C2 = s == '_AX' and not(r in self.on_cols or r in self.by_cols)"))
bad('sf ctxname', ['C04', 'C05'], (SM, "self.on_context[name].update(db_variables['on'])", "self.on_context['ABX'].update(db_variables['on'])"))
bad('sf across', ['C04', 'C05'], (SM, "for radical, extension in self.across_context[stage]:", "for radical, extension in self.across_context['on_across_by']:"))
bad('sf regindex', ['C05'], ('ABXpy/dbfun/dbfun_column.py', "            index = list(set(db[column]))\n            index.sort()", "            index = list(set(db[column]))\n            index.sort()\n            index = index[::-1]") , ('ABXpy/dbfun/dbfun_column.py', "self.index.index(e)", "(len(self.index) - 1 - self.index.index(e))"))
bad('sf regname', ['C05'], (RMF, "for field in ['by', 'on_across_by', 'A', 'B', 'X', 'ABX']:", "for field in ['by', 'on_across_by', 'A', 'X', 'B', 'ABX']:"))
bad('sf regA', ['C05'], (RMF, "result for result in self.evaluate_B(on_across_by_values, db, indices)]", "result for result in self.evaluate_X(on_across_by_values, db, indices)]"))
ok('sf gen', (SM, "return (db_fun.evaluate(copy.deepcopy(context)) for db_fun in db_funs)", "for db_fun in db_funs:\n        local = copy.deepcopy(context)\n        yield db_fun.evaluate(local)"))
ok('sf mask', (FMF, "still_up = np.where(result)[0]", "still_up = np.flatnonzero(result)"))
ok('sf len', (FMF, "        if not(kept.size):\n            break", "        if len(kept) == 0:\n            break"))
ok('sf nobreak', (FMF, "        if not(kept.size):\n            break", "        if not(kept.size):\n            return kept"))
ok('sf all', (FMF, "    keep = True\n    for result in generator:\n        if not(result):\n            keep = False\n            break\n    return keep", "    return all(generator)"))
ok('sf loc', (SM, "list(db[radical][indices])", "list(db[radical].loc[indices])"))
ok('sf loc2', (SM, "list(db[radical][indices])", "db.loc[indices, radical].tolist()"))
ok('sf helper', (SM, "        context = self.set_A_B_X_context(\n            'A_context', context, 'ABX', db, triplets[:, 0])\n        context = self.set_A_B_X_context(\n            'B_context', context, 'ABX', db, triplets[:, 1])\n        context = self.set_A_B_X_context(\n            'X_context', context, 'ABX', db, triplets[:, 2])\n", "        for col, name in enumerate(('A', 'B', 'X')):\n            context = self.set_A_B_X_context(\n                name + '_context', context, 'ABX', db, triplets[:, col])\n"))
ok('sf def', (SM, "        interpret_2 = lambda r: '_B' if r in self.on_cols else '_X'\n        get_ext = lambda r, s: interpret_2(r) if s == '_2' else s\n", "        def get_ext(r, s):\n            if s != '_2':\n                return s\n            if r in self.on_cols:\n                return '_B'\n            return '_X'\n"))
ok('sf roots', (SM, "        by_roots = []\n        for col in by:\n            roots = [tree.findChild(lambda x: x.name == col)\n                     for tree in db_hierarchy]\n            for root in roots:\n                if not(root is None):\n                    by_roots.append(root)\n                    break\n", "        by_roots = []\n        for col in by:\n            for tree in db_hierarchy:\n                root = tree.findChild(lambda x: x.name == col)\n                if root is not None:\n                    by_roots.append(root)\n                    break\n"))
ok('sf meth', (FMF, "        indices = np.arange(len(triplets))\n        return vectorial_filter(lambda context: self.evaluate_ABX(on_across_by_values, db, triplets, context), indices)", "        def evaluate(context):\n            return self.evaluate_ABX(\n                on_across_by_values, db, triplets, context)\n\n        return vectorial_filter(evaluate, range(len(triplets)))"))
ok('sf rep', (SM, "        for var in context:\n            context[var] = context[var] * len(indices)\n", "        context.update({var: values * len(indices) for var, values in context.items()})\n"))

# ------------------------------------------------------------- C14, C35
H5 = 'ABXpy/h5tools/h5io.py'
TFP = 'ABXpy/misc/type_fitting.py'
AN = 'ABXpy/analyze.py'
SCO = 'ABXpy/score.py'
DD = 'ABXpy/distances/distances.py'
bad('iw table', ['C14'], (TFP, "if n < 2 ** (8 - m):", "if n <= 2 ** (8 - m):"))
bad('iw table16', ['C14'], (TFP, "elif n < 2 ** (16 - m):", "elif n < 2 ** 16:"))
bad('iw table64', ['C14'], (TFP, "elif n < 2 ** (64 - m):", "elif n < 2 ** 64:"))
bad('iw types', ['C14'], (T, "fit_integer_type(np.max(db.index.values), is_signed=False)", "fit_integer_type(len(self.by), is_signed=False)"))
bad('iw trip', ['C14'], (T, "                    max(np.max(db.index.values)\n                        for db in itervalues(self.by_dbs))),", "                    min(np.max(db.index.values)\n                        for db in itervalues(self.by_dbs))),"))
bad('iw trip8', ['C14'], (T, "                    max(np.max(db.index.values)\n                        for db in itervalues(self.by_dbs))),", "                    max(np.max(db.index.values)\n                        for db in itervalues(self.by_dbs)),\n                    is_signed=True) and np.int8,"))
bad('iw block', ['C14'], (T, "ind_type = fit_integer_type(size, is_signed=False)\n            indices", "ind_type = self.types[by]\n            indices"))
bad('iw blockidx', ['C14'], (T, "item_type=fit_integer_type(self.total_n_triplets)", "item_type=fit_integer_type(self.stats['nb_blocks'])"))
bad('iw byidx', ['C14'], (T, "dtype=fit_integer_type(by_block_indices[-1]))", "dtype=fit_integer_type(len(by_block_indices)))"))
bad('iw pairs', ['C14'], (T, "pair_key_type = fit_integer_type(", "pair_key_type = fit_integer_type(-max_ind ** 2 + "))
bad('iw score', ['C14'], (SCO, "triplets = pair_key_type(triplets)", "triplets = np.asarray(triplets)"))
bad('iw score2', ['C14'], (SCO, "fit_integer_type((base) ** 2 - 1,", "fit_integer_type(base - 1,"))
bad('iw decode', ['C14'], (DD, "A = np.mod(pair_list, base)", "pair_list = pair_list.astype(np.int32)\n        A = np.mod(pair_list, base)"))
bad('iw levels', ['C14'], (H5, "max(indexed_levels), is_signed=False)", "max(indexed_levels) - 1, is_signed=False)"))
bad('iw levels2', ['C14'], (H5, "max(indexed_levels), is_signed=False)", "min(indexed_levels), is_signed=False)"))
bad('iw ana', ['C14', 'C13'], (AN, "n_keys *= int(n)", "n_keys = max(n_keys, int(n))"))
bad('iw ana2', ['C14', 'C13'], (AN, "new_index = indices[:, 0].astype(ind_type)", "new_index = indices[:, 0]"))
ok('iw float', (TFP, "if n < 2 ** (8 - m):", "if n <= 2 ** (8 - m) - 1:"))
ok('iw loop', (TFP, "    if n < 2 ** (8 - m):\n        return types[0]\n    elif n < 2 ** (16 - m):\n        return types[1]\n    elif n < 2 ** (32 - m):\n        return types[2]\n    elif n < 2 ** (64 - m):\n        return types[3]\n    else:\n        raise", "    for size, type_ in zip((8, 16, 32, 64), types):\n        if n < 2 ** (size - m):\n            return type_\n    if True:\n        raise"))
ok('iw wide', (T, "ind_type = fit_integer_type(size, is_signed=False)\n            indices", "ind_type = np.int64\n            indices"))
ok('iw wide2', (T, "item_type=fit_integer_type(self.total_n_triplets)", "item_type=np.int64"))
ok('iw sizem1', (T, "ind_type = fit_integer_type(size, is_signed=False)\n            indices", "ind_type = fit_integer_type(\n                max(size, len(A), len(B), len(X)), is_signed=False)\n            indices"))
ok('iw score64', (SCO, "triplets = pair_key_type(triplets)", "triplets = triplets.astype(np.int64)"))
ok('iw decode', (DD, "A = np.mod(pair_list, base)\n        B = pair_list // base", "B, A = np.divmod(pair_list, base)"))
ok('iw lev', (H5, "max(indexed_levels), is_signed=False)", "max(indexed_levels) + 1, is_signed=False)"))
bad('rs order', ['C35'], (H5, "indexed_values = [data[dset] for dset in self.non_fused_datasets]", "indexed_values = [data[dset] for dset in self.managed_datasets]"))
bad('rs sorted', ['C35'], (H5, "indexed_values = [data[dset] for dset in self.non_fused_datasets]", "indexed_values = [data[dset] for dset in sorted(self.non_fused_datasets)]"))
bad('rs zip', ['C35'], (H5, "for dataset, d in zip(self.managed_datasets, data):", "for dataset, d in zip(self.indexed_datasets, data):"))
bad('rs names', ['C35'], (H5, "'indexed_datasets', data=get_array(indexed_datasets), dtype=str_dtype)", "'indexed_datasets', data=get_array(datasets), dtype=str_dtype)"))
bad('rs managed', ['C35'], (H5, "'managed_datasets', data=get_array(datasets), dtype=str_dtype)", "'managed_datasets', data=get_array(indexed_datasets), dtype=str_dtype)"))
bad('rs levels', ['C35'], (H5, "key, data=get_array(value), dtype=get_dtype(value))", "key, data=get_array(sorted(value)[::-1]), dtype=get_dtype(value))"))
bad('rs levels2', ['C35'], (H5, "for key, value in iteritems(indexes):\n                        index_group", "for key, value in zip(datasets, indexes.values()):\n                        index_group"))
bad('rs once', ['C35'], (H5, "            self.__initialize_datasets__(sample_data)\n        else:", "            self.__initialize_datasets__(sample_data)\n            self.__write__(sample_data, indexed)\n        else:"))
ok('rs list', (H5, "indexed_values = [data[dset] for dset in self.non_fused_datasets]", "indexed_values = []\n            for dset in self.non_fused_datasets:\n                indexed_values.append(data[dset])"))
ok('rs dict', (H5, "            data_dict = {}\n            for dataset, d in zip(self.managed_datasets, data):\n                data_dict[dataset] = d\n            data = data_dict\n", "            data = dict(zip(self.managed_datasets, data))\n"))
ok('rs hstack', (H5, "self.out['indexed'].write(np.concatenate(indexed_values, axis=1))", "self.out['indexed'].write(np.hstack(indexed_values))"))
ok('rs in', (H5, "if not(group in f):  # handler error here ...\n                    g = f.create_group(group)\n                else:\n                    g = f[group]\n", "g = f[group] if group in f else f.create_group(group)\n"))

SP = 'ABXpy/sampling/sampler.py'
bad('sp uniform', ['C27'], (SP, "if (N - t) * u < n - m:", "if (N - t - 1) * u < n - m:"))
bad('sp fixed', ['C27'], (SP, "if (N - t) * u < n - m:", "if N * u < n:"))
bad('sp t', ['C27'], (SP, "            sample[m] = t\n            m = m + 1\n        t = t + 1", "            sample[m] = t\n            m = m + 1\n            t = t + 1"))
bad('sp once', ['C27'], (SP, "if N > 100 and n / float(N) < 0.6:", "if n / float(N) < 0.6:"), (SP, "np.random.randint(0, int(N), int(remaining)).astype(dtype)", "np.random.randint(0, int(N), int(n)).astype(dtype)"))
bad('sp over', ['C27'], (SP, "np.random.randint(0, int(N), int(remaining)).astype(dtype)", "np.random.randint(0, int(N), 2 * int(remaining)).astype(dtype)"))
bad('sp trunc', ['C27'], (SP, "np.random.randint(0, int(N), int(remaining)).astype(dtype)", "np.random.randint(0, int(N), 2 * int(remaining)).astype(dtype)"), (SP, "        remaining = n - sample.shape[0]\n    return sample", "        remaining = n - sample.shape[0]\n    return sample[:n]"))
bad('sp hi', ['C27'], (SP, "np.random.randint(0, int(N), int(remaining))", "np.random.randint(0, int(N) - 1, int(remaining))"))
bad('sp dup', ['C27'], (SP, "sample = np.union1d(sample, np.unique(new_sample))", "sample = np.concatenate([sample, np.unique(new_sample)])"))
bad('sp sym', ['C27'], (SP, "if K_eff < K:\n            k = n_eff - k\n        if n_eff < n:\n            k = K - k", "if n_eff < n:\n            k = K - k\n        if K_eff < K:\n            k = n_eff - k"))
bad('sp sym2', ['C27'], (SP, "if K_eff < K:\n            k = n_eff - k", "if K_eff < K:\n            k = n - k"))
bad('sp lgamma', ['C27'], (SP, "math.lgamma(n_eff - k + 1) + \\\n                    math.lgamma(N - K_eff - n_eff + k + 1)", "math.lgamma(n_eff - k + 1) + \\\n                    math.lgamma(N - K_eff - n_eff + mode + 1)"))
bad('sp bound', ['C27'], (SP, "if k < 0 or k >= upper_bound:", "if k < 0 or k > upper_bound:"))
bad('sp logu', ['C27'], (SP, "if 2 * np.log(U) <= d:", "if np.log(U) <= d:"))
bad('sp pos', ['C27'], (SP, "        position = self.initial_N - self.N\n        if n > self.N:\n            n = self.N", "        if n > self.N:\n            n = self.N\n        position = self.initial_N - self.N + n"))
bad('sp cap', ['C27'], (SP, "        if n > self.N:\n            n = self.N", "        if n > self.N and self.K > 1:\n            n = self.N"))
bad('sp piece', ['C27'], (SP, "sample.append(self.simple_sample(amount) + i * chunk_size)", "sample.append(self.simple_sample(amount) + i * amount)"))
bad('sp piece2', ['C27'], (SP, "                n = n - amount\n                i += 1", "                n = n - chunk_size\n                i += 1"), (SP, "amount = min(chunk_size, n)", "amount = chunk_size"))
bad('sp K', ['C27'], (SP, "self.K = self.K - k", "self.K = self.K - len(sample[1:])"))
bad('sp order', ['C27'], (SP, "        k = hypergeometric_sample(self.N, self.K, n)  # get the sample size\n        sample = sample_without_replacement(k, n, self.type)\n        self.N = self.N - n", "        self.N = self.N - n\n        k = hypergeometric_sample(self.N, self.K, n)  # get the sample size\n        sample = sample_without_replacement(k, n, self.type)"))
bad('sp stop', ['C27'], (SP, "        if self.N == 0:\n            raise StopIteration", "        if self.K == 0:\n            raise StopIteration"))
bad('sp rel', ['C27'], (SP, "def __init__(self, N, K, step=None, relative_indexing=True,", "def __init__(self, N, K, step=None, relative_indexing=False,"))
bad('sp fix1', ['C27'], (SP, "k = min(K, n)", "k = K"))
bad('sp fix2', ['C27'], (SP, "max(K, 1)", "K"))
ok('sp for', (SP, "    t = 0  # total input records dealt with\n    m = 0  # number of items selected so far\n    sample = np.zeros(shape=n, dtype=dtype)\n    while m < n:\n        u = np.random.rand()\n        if (N - t) * u < n - m:\n            sample[m] = t\n            m = m + 1\n        t = t + 1\n    return sample", "    m = 0\n    sample = np.zeros(shape=n, dtype=dtype)\n    for t in range(N):\n        if m >= n:\n            break\n        if np.random.rand() * (N - t) < n - m:\n            sample[m] = t\n            m += 1\n    return sample"))
ok('sp list', (SP, "    t = 0  # total input records dealt with\n    m = 0  # number of items selected so far\n    sample = np.zeros(shape=n, dtype=dtype)\n    while m < n:\n        u = np.random.rand()\n        if (N - t) * u < n - m:\n            sample[m] = t\n            m = m + 1\n        t = t + 1\n    return sample", "    t = 0\n    chosen = []\n    while len(chosen) < n:\n        u = np.random.rand()\n        if (N - t) * u < n - len(chosen):\n            chosen.append(t)\n        t += 1\n    return np.array(chosen, dtype=dtype)"))
ok('sp reject', (SP, "    remaining = n\n    sample = np.array([], dtype=dtype)\n    while remaining > 0:\n        new_sample = np.random.randint(0, int(N), int(remaining)).astype(dtype)\n        # keeping only unique element:\n        sample = np.union1d(sample, np.unique(new_sample))\n        remaining = n - sample.shape[0]\n    return sample", "    sample = np.array([], dtype=dtype)\n    while len(sample) < n:\n        new = np.random.randint(int(N), size=int(n - len(sample)))\n        sample = np.unique(np.concatenate([sample, new.astype(dtype)]))\n    return sample"))
ok('sp hyper', (SP, "            if k < 0 or k >= upper_bound:\n                continue\n            else:\n", "            if 0 <= k < upper_bound:\n"), )
ok('sp pieces', (SP, "            i = 0\n            while n > 0:\n                amount = min(chunk_size, n)\n                sample.append(self.simple_sample(amount) + i * chunk_size)\n                n = n - amount\n                i += 1\n", "            start = 0\n            while start < n:\n                amount = min(chunk_size, n - start)\n                sample.append(self.simple_sample(amount) + start)\n                start += amount\n"))
ok('sp pieces2', (SP, "            i = 0\n            while n > 0:\n                amount = min(chunk_size, n)\n                sample.append(self.simple_sample(amount) + i * chunk_size)\n                n = n - amount\n                i += 1\n", "            for start in range(0, n, chunk_size):\n                amount = min(chunk_size, n - start)\n                sample.append(start + self.simple_sample(amount))\n"))
ok('sp inline', (SP, "            sample = self.simple_sample(n)\n\n        if not self.relative_indexing:\n            sample = sample + position\n\n        return sample", "            sample = self.simple_sample(n)\n\n        return sample if self.relative_indexing else position + sample"))
ok('sp sym3', (SP, "        if K_eff < K:\n            k = n_eff - k\n        if n_eff < n:\n            k = K - k", "        if n_eff < n:\n            k = K_eff - k\n        if K_eff < K:\n            k = n - k"))
bad('sp wide', ['C27'], (SP, "np.random.randint(0, int(N), int(remaining)).astype(dtype)", "np.random.randint(0, int(N), int(remaining) + n // 8).astype(dtype)"), (SP, "        remaining = n - sample.shape[0]\n    return sample", "        remaining = n - sample.shape[0]\n    return sample[:n]"))

bad('cl by', ['C24'], (T, "        by=args.by,\n        filters=args.filters,", "        by=args.across,\n        filters=args.filters,"))
bad('cl reg', ['C24'], (T, "        filters=args.filters,\n        regressors=args.regressors,\n        verbose=args.verbose)", "        filters=args.filters,\n        verbose=args.verbose)"))
bad('cl seed', ['C24'], (T, "            tmpdir=args.tempdir,\n            seed=args.seed)", "            tmpdir=args.tempdir,\n            seed=args.seed or None)"))
bad('cl thr', ['C24'], (T, "'-t', '--threshold', default=None, type=int,", "'-t', '--threshold', default=None,"))
bad('cl nargs', ['C24'], (T, "'-r', '--regressors', nargs='+', default=[],", "'-r', '--regressors', nargs='?', default=[],"))
bad('cl stats', ['C24'], (T, "if not args.stats_only and args.output and", "if args.output and"))
bad('cl rm', ['C24'], (T, "        os.remove(args.output)", "        pass"))
bad('cl pos', ['C24'], (DI, "    parser.add_argument(\n        'task', help='task file')\n\n    parser.add_argument(\n        'output', help='output file for distance pairs')", "    parser.add_argument(\n        'output', help='output file for distance pairs')\n\n    parser.add_argument(\n        'task', help='task file')"))
bad('cl norm', ['C24'], (DI, "distance=args.distance, njobs=args.njobs, group=args.group)", "distance=args.distance, njobs=args.njobs)"))
bad('cl norm2', ['C24'], (DI, "distancefun, normalized=normalized, n_cpu=njobs)", "distancefun, normalized=normalized or None, n_cpu=njobs)"))
bad('cl jobs', ['C24'], (DI, "distancefun, normalized=normalized, n_cpu=njobs)", "distancefun, normalized=normalized)"))
bad('cl lev', ['C24'], (DI, "distancefun = edit_distance\n        elif distance==\"dtw_kl\":\n            distancefun = dtw_kl_distance", "distancefun = dtw_kl_distance\n        elif distance==\"dtw_kl\":\n            distancefun = edit_distance"))
bad('cl rsplit', ['C24'], (DI, "distance.rsplit('.', 1)", "distance.split('.')"))
bad('cl order', ['C24'], (DI, "    args = parser.parse_args()\n", "    args = parser.parse_args()\n    if os.path.exists(args.output):\n        os.remove(args.output)\n"))
bad('cl score', ['C24'], (S, "score(args.task, args.distance, args.score)", "score(args.distance, args.task, args.score)"))
bad('cl an', ['C24'], (AN, "analyze(task_file, score_file, result_file)\n\n\nif", "analyze(score_file, task_file, result_file)\n\n\nif"))
bad('cl an2', ['C24'], (AN, "        exit('No such file: {}'.format(task_file))", "        print('No such file: {}'.format(task_file))\n        exit()"))
bad('cl ver', ['C24'], ('ABXpy/verify.py', "check(args['item'], args['features'])", "check(args['features'], args['item'])"))
bad('cl conv', ['C24'], ('ABXpy/misc/any2h5features.py', "convert(args.folder, args.h5_filename)", "convert(args.folder)"))
bad('cl dflt', ['C24'], (DI, "'-g', '--group', default='features',", "'-g', '--group', default='feature',"))
bad('cl type', ['C24'], (DI, "'-n', '--normalization', type=int, default=None,", "'-n', '--normalization', type=bool, default=None,"))
ok('cl ns', (T, "    args = parse_arguments()\n", "    args = parse_arguments()\n    output = args.output\n"), (T, "            output=args.output,\n            threshold", "            output=output,\n            threshold"))
ok('cl vars', (S, "score(args.task, args.distance, args.score)", "names = vars(args)\n    score(score_file=names['score'], task_file=names['task'], distance_file=names['distance'])"))
ok('cl unlink', (S, "        os.remove(args.score)", "        os.unlink(args.score)"))
ok('cl helper', (AN, "    score_file = args['scorefile']\n    if not path.exists(score_file):\n        exit('No such file: {}'.format(score_file))\n\n    task_file = args['taskfile']\n    if not path.exists(task_file):\n        exit('No such file: {}'.format(task_file))\n", "    score_file, task_file = args['scorefile'], args['taskfile']\n    for name in (score_file, task_file):\n        if not path.exists(name):\n            raise SystemExit('No such file: {}'.format(name))\n"))
ok('cl imp', (DI, "distancefun = getattr(__import__(mod), distancefunction)", "import importlib\n            distancefun = getattr(importlib.import_module(mod), distancefunction)"))
ok('cl part', (DI, "            distancepair = distance.rsplit('.', 1)\n            distancemodule = distancepair[0]\n            distancefunction = distancepair[1]", "            distancemodule, _, distancefunction = distance.rpartition('.')"))
ok('cl dict', (DI, "        if distance==\"levenshtein\":\n            distancefun = edit_distance\n        elif distance==\"dtw_kl\":\n            distancefun = dtw_kl_distance\n        else:", "        known = {'levenshtein': edit_distance, 'dtw_kl': dtw_kl_distance}\n        if distance in known:\n            distancefun = known[distance]\n        else:"))

DB = 'ABXpy/database/database.py'
bad('it file', ['C26'], (DB, "dtype={'#file': str})", "dtype={'onset': float})"))
bad('it dup', ['C26'], (DB, "assert not auxdb[col].duplicated().any(), (", "assert not auxdb[col].duplicated().all(), ("))
bad('it inner', ['C26'], (DB, "on=col, how='left')", "on=col)"))
bad('it outer', ['C26'], (DB, "on=col, how='left')", "on=col, how='outer')"))
bad('it right', ['C26'], (DB, "pandas.merge(db, auxdb, on=col, how='left')", "pandas.merge(auxdb, db, on=col, how='right')[list(db.columns) + [c for c in auxdb.columns if c != col]].drop_duplicates()"))
bad('it how', ['C26'], (DB, "db.dropna(how='all')", "db.dropna(how='any')"))
bad('it feat', ['C26'], (DB, "    feat_db = feat_db[~ nanrows]\n", ""))
bad('it feat2', ['C26'], (DB, "        db = db[~ nanrows]\n    feat_db = feat_db[~ nanrows]\n", "        db = db[~ nanrows].reset_index(drop=True)\n    feat_db = feat_db[~ nanrows]\n"))
bad('it all', ['C26'], (DB, "numpy.any(pandas.isnull(db), 1)", "numpy.all(pandas.isnull(db), 1)"))
bad('it own', ['C26'], (DB, "    db, db_hierarchy = load_aux_dbs(basename, db, db.columns, filename)\n", "    own = db\n    db, db_hierarchy = load_aux_dbs(basename, db, db.columns, filename)\n"), (DB, "numpy.any(pandas.isnull(db), 1)", "numpy.any(pandas.isnull(own), 1)"))
bad('it rem', ['C26'], (DB, "dropped.to_csv(basename + '-removed' + ext)", "db[~ nanrows].to_csv(basename + '-removed' + ext)"))
bad('it rem2', ['C26'], (DB, "dropped.to_csv(basename + '-removed' + ext)", "dropped.to_csv(filename + '-removed' + ext)"))
bad('it rem3', ['C26'], (DB, "    if any(nanrows):", "    if all(nanrows[:1]):"))
bad('it main', ['C26'], (DB, "if not(auxfile == mainfile):", "if not(auxfile == basename):"))
bad('it nest', ['C26'], (DB, "basename, auxdb, auxdb.columns[1:], mainfile)", "basename, auxdb, auxdb.columns[:0], mainfile)"))
bad('it base', ['C26'], (DB, "(basename, _) = os.path.splitext(filename)", "basename = filename.split('.')[0]"))
bad('it ext', ['C26'], (DB, "if not(filename[len(filename) - len(ext):] == ext):", "if ext not in filename:"))
bad('it hier', ['C26'], (DB, "                forest[i].addChildrenFromList(auxforest)\n", "                forest[0].addChildrenFromList(auxforest)\n"))
bad('it sharp', ['C26'], (DB, "    assert len(l) == 2, (", "    assert len(l) >= 2, ("))
bad('it cols', ['C26'], (DB, "db = db[db.columns[l[1]:]]", "db = db[db.columns[l[1] + 1:]]"))
bad('it skip', ['C26'], (DB, "        except IOError:\n            pass\n", "        except (IOError, AssertionError):\n            pass\n"))
bad('it break', ['C26'], (DB, "        except IOError:\n            pass\n", "        except IOError:\n            break\n"))
bad('it dd', ['C26'], (DB, "    # dealing with missing items", "    db = db.drop_duplicates()\n    feat_db = feat_db.loc[list(db.index)]\n    # dealing with missing items"))
bad('it head', ['C26'], (DB, "assert ' '.join(columns[:3]) == '#file onset offset', (", "assert ' '.join(columns[:3]).startswith('#file on'), ("))
bad('it na', ['C26'], (DB, "engine='python', dtype", "engine='python', keep_default_na=False, na_values=[''], dtype"))
bad('it str', ['C26'], (DB, "dtype={'#file': str})", "dtype=str)"))
ok('it loc', (DB, "db = db[~ nanrows]\n", "db = db.loc[~nanrows]\n"), (DB, "feat_db = feat_db[~ nanrows]", "feat_db = feat_db.loc[numpy.logical_not(nanrows)]"), (DB, "numpy.any(pandas.isnull(db), 1)", "db.isna().any(axis=1)"), (DB, "    if any(nanrows):", "    if nanrows.any():"))
ok('it list', (DB, "    l = []\n    for i, c in enumerate(columns):\n        if c[0] == \"#\":\n            l.append(i)\n            columns[i] = c[1:]\n    db.columns = pandas.Index(columns)\n", "    l = [i for i, c in enumerate(columns) if c.startswith('#')]\n    db.columns = [c[1:] if c.startswith('#') else c for c in columns]\n"))
ok('it exists', (DB, "            if not(auxfile == mainfile):", "            if auxfile != mainfile and os.path.exists(auxfile):"))
ok('it endswith', (DB, "if not(filename[len(filename) - len(ext):] == ext):", "if not filename.endswith(ext):"), (DB, "        filename = filename + ext\n", "        filename += ext\n"))
ok('it merge', (DB, "pandas.merge(db, auxdb, on=col, how='left')", "db.merge(auxdb, how='left', on=[col], validate='many_to_one')"))
ok('it validate', (DB, "                assert not auxdb[col].duplicated().any(), (", "                if not auxdb[col].is_unique:\n                    raise ValueError("))
ok('it split', (DB, "    feat_db = db[db.columns[:l[1]]]\n    db = db[db.columns[l[1]:]]\n", "    names = list(db.columns)\n    locations, attributes = names[:l[1]], names[l[1]:]\n    feat_db, db = db[locations], db[attributes]\n"))
ok('it zip', (DB, "    forest = [tinytree.Tree() for col in cols]\n    for i, col in enumerate(cols):\n        forest[i].name = col\n", "    forest = []\n    for i, col in enumerate(cols):\n        tree = tinytree.Tree()\n        tree.name = col\n        forest.append(tree)\n"))
ok('it helper', (DB, "    nanrows = numpy.any(pandas.isnull(db), 1)\n    if any(nanrows):\n        dropped = db[nanrows]\n        dropped.to_csv(basename + '-removed' + ext)\n        db = db[~ nanrows]\n    feat_db = feat_db[~ nanrows]\n", "    complete = pandas.notnull(db).all(axis=1)\n    if not complete.all():\n        db[~complete].to_csv('{}-removed{}'.format(basename, ext))\n    db, feat_db = db[complete], feat_db[complete]\n"))

VE = 'ABXpy/verify.py'
bad('ve in', ['C31'], (VE, "assert source in files, (", "assert source in ' '.join(files), ("))
bad('ve first', ['C31'], (VE, "        for line in f:\n            if not", "        seen = set()\n        for line in f:\n            if line[:1] in seen:\n                continue\n            seen.add(line[:1])\n            if not"))
bad('ve break', ['C31'], (VE, "            if not line.strip():\n                continue", "            if not line.strip():\n                break"))
bad('ve blank', ['C31'], (VE, "            if not line.strip():\n                continue\n", ""))
bad('ve idx', ['C31'], (VE, "source = str.split(line)[0]", "source = str.split(line)[0].split('.')[0]"))
bad('ve head', ['C31'], (VE, "        assert cols[2] == 'offset', 'The third column must be named offset'\n", "        assert 'offset' in cols, 'The third column must be named offset'\n"))
bad('ve four', ['C31'], (VE, "assert cols[3][0] == '#',", "assert '#' in ''.join(cols[3:]),"), (VE, "len(cols) >= 4", "len(cols) >= 3"))
bad('ve dec', ['C31'], (VE, "n.decode('utf8') if isinstance(n, bytes) else n", "n"))
bad('ve key', ['C31'], (VE, "group['items' if 'items' in group else 'files'][:]", "group['files' if 'files' in group else 'times'][:]"))
bad('ve last', ['C31'], (VE, "        for line in f:\n", "        for line in f.read().split('\\n')[:-1]:\n"))
ok('ve list', (VE, "        for line in f:\n", "        for line in f.readlines():\n"))
ok('ve set', (VE, "        files = [n.decode('utf8') if isinstance(n, bytes) else n\n                 for n in names]\n", "        files = set()\n        for n in names:\n            files.add(n.decode('utf8') if isinstance(n, bytes) else n)\n"))
ok('ve raise', (VE, "            assert source in files, (\"The file {} cannot \"\n                                     \"be found in the feature file\"\n                                     .format(source))", "            if source not in files:\n                raise ValueError('The file {} cannot be found in the feature file'.format(source))"))
ok('ve cols', (VE, "        assert cols[0] == '#file', 'The first column must be named #file'\n        assert cols[1] == 'onset', 'The second column must be named onset'\n        assert cols[2] == 'offset', 'The third column must be named offset'\n", "        assert cols[:3] == ['#file', 'onset', 'offset'], 'bad header'\n"))
ok('ve close', (VE, "    with open(item_file) as f:\n        cols = str.split(f.readline())\n", "    with open(item_file, 'r') as f:\n        header = f.readline()\n        cols = header.strip().split()\n"))
ok('ve fields', (VE, "            if not line.strip():\n                continue\n            source = str.split(line)[0]\n", "            fields = line.split()\n            if len(fields) == 0:\n                continue\n            source = fields[0]\n"))
A2 = 'ABXpy/misc/any2h5features.py'
bad('cv last', ['C32'], (A2, "    if features:\n", "    if i == batch_size:\n"))
bad('cv last2', ['C32'], (A2, "    if features:\n", "    if i < batch_size:\n"))
bad('cv reset', ['C32'], (A2, "features)\n            features = []\n            times = []\n            internal_files = []\n            i = 0\n        i = i+1", "features)\n            features = []\n            times = []\n            internal_files = []\n        i = i+1"))
bad('cv reset2', ['C32'], (A2, "features)\n            features = []\n            times = []\n            internal_files = []\n            i = 0\n        i = i+1", "features)\n            features = []\n            times = []\n            i = 0\n        i = i+1"))
bad('cv alias', ['C32'], (A2, "    features = []\n    times = []\n    internal_files = []\n    i = 0\n", "    features = times = []\n    internal_files = []\n    i = 0\n"))
bad('cv name', ['C32'], (A2, "os.path.splitext(f)[0]", "f.split('.')[0]"))
bad('cv set', ['C32'], (A2, "        if i == batch_size:\n", "        if i == batch_size and f != files[-1]:\n"), (A2, "i = i+1", "i = i % batch_size + 1"))
bad('cv load', ['C32'], (A2, "'/features/', load=load)", "'/features/')"))
bad('cv group', ['C32'], (A2, "        h5features.write(h5_filename, h5_groupname, internal_files, times,\n                         features)\n\n\ndef", "        h5features.write(h5_filename, '/feature/', internal_files, times,\n                         features)\n\n\ndef"))
bad('cv path', ['C32'], (A2, "load(os.path.join(path, f))", "load(path + f)"))
bad('cv swap', ['C32'], (A2, "internal_files, times,\n                             features)", "internal_files,\n                             features, times)"))
ok('cv chunks', (A2, "    features = []\n    times = []\n    internal_files = []\n    i = 0\n    for f in files:\n        if i == batch_size:\n            h5features.write(h5_filename, h5_groupname, internal_files, times,\n                             features)\n            features = []\n            times = []\n            internal_files = []\n            i = 0\n        i = i+1\n        data = load(os.path.join(path, f))\n        features.append(data['features'])\n        times.append(data['time'])\n        internal_files.append(os.path.splitext(f)[0])\n    if features:\n        h5features.write(h5_filename, h5_groupname, internal_files, times,\n                         features)\n", "    files = list(files)\n    for start in range(0, len(files), batch_size):\n        batch = files[start:start + batch_size]\n        data = [load(os.path.join(path, f)) for f in batch]\n        h5features.write(\n            h5_filename, h5_groupname,\n            [os.path.splitext(f)[0] for f in batch],\n            [d['time'] for d in data], [d['features'] for d in data])\n"))
ok('cv after', (A2, "        if i == batch_size:\n            h5features.write(h5_filename, h5_groupname, internal_files, times,\n                             features)\n            features = []\n            times = []\n            internal_files = []\n            i = 0\n        i = i+1\n        data", "        data"), (A2, "        internal_files.append(os.path.splitext(f)[0])\n", "        internal_files.append(os.path.splitext(f)[0])\n        if len(features) == batch_size:\n            h5features.write(h5_filename, h5_groupname, internal_files, times,\n                             features)\n            features, times, internal_files = [], [], []\n"))
ok('cv sorted', (A2, "os.listdir(folder)", "sorted(os.listdir(folder))"))
DCO = 'ABXpy/dbfun/dbfun_column.py'
SEED = "        np.random.seed(seed)\n"
bad('sd zero', ['C23'], (T, SEED, "        if seed:\n            np.random.seed(seed)\n"))
bad('sd after', ['C23'], (T, SEED, ""), (T, "        # setup output file, raise an error if the file already exists\n", "        if not self.threshold:\n            np.random.seed(seed)\n"))
bad('sd none', ['C23'], (T, SEED, "        np.random.seed()\n"))
bad('sd or', ['C23'], (T, SEED, "        np.random.seed(seed or None)\n"))
bad('sd gone', ['C23'], (T, SEED, ""))
bad('sd time', ['C23'], (T, SEED, "        import time\n        np.random.seed(int(time.time()) if seed is None else seed + int(time.time()))\n"))
bad('sd pid', ['C23'], (T, SEED, "        np.random.seed(None if seed is None else seed + os.getpid())\n"))
bad('sd late', ['C23'], (T, SEED, ""), (T, "        # saving by index, deleting empty by blocks:\n", "            np.random.seed(seed)\n        # saving by index, deleting empty by blocks:\n"))
bad('sd again', ['C23'], (SP, "    remaining = n\n", "    np.random.seed()\n    remaining = n\n"))
bad('sd pyrand', ['C23'], (SP, "        u = np.random.rand()\n        if (N", "        u = random.random()\n        if (N"), (SP, "import numpy as np\n", "import random\nimport numpy as np\n"))
bad('sd own', ['C23'], (SP, "new_sample = np.random.randint(", "new_sample = np.random.RandomState().randint("))
bad('sd rng', ['C23'], (SP, "    remaining = n\n", "    rng = np.random.default_rng()\n    remaining = n\n"), (SP, "np.random.randint(0, int(N), int(remaining))", "rng.integers(0, int(N), int(remaining))"))
bad('sd module', ['C23'], (SP, "import numpy as np\n", "import numpy as np\n\n_RNG = np.random.RandomState(0)\n"), (SP, "        u = np.random.rand()\n        if (N", "        u = _RNG.rand()\n        if (N"))
bad('sd index', ['C23'], (DCO, "            index.sort()\n", ""))
bad('sd across', ['C23'], (RMF, "sorted(self.across_cols)", "self.across_cols"))
bad('sd regs', ['C23'], (RMF, "regressors = regressors + default_regressors", "regressors = list(set(regressors + default_regressors))"))
bad('sd cols', ['C23'], (T, "self.across = self._init_as_list(across)", "self.across = list(set(self._init_as_list(across)))"))
ok('sd param', (T, SEED, "        random_seed = seed\n        np.random.seed(seed=random_seed)\n"))
ok('sd if', (T, SEED, "        if seed is not None:\n            np.random.seed(seed)\n"))
ok('sd else', (T, SEED, "        if seed is None:\n            np.random.seed()\n        else:\n            np.random.seed(seed)\n"))
ok('sd moved', (T, SEED, ""), (T, "        # setup output file, raise an error if the file already exists\n", "        np.random.seed(seed)\n"))
ok('sd helper', (T, SEED, "        self._init_random(seed)\n"), (T, "    def generate_triplets(", "    @staticmethod\n    def _init_random(seed):\n        np.random.seed(seed)\n\n    def generate_triplets("))
ok('sd clock', (T, SEED, "        import time\n        start = time.time()\n        np.random.seed(seed)\n"), (T, "        if self.verbose:\n            print('writing output to", "        if self.verbose:\n            print('started at {}'.format(start))\n            print('writing output to"))
ok('sd index', (DCO, "            index = list(set(db[column]))\n            index.sort()\n            self.index = index\n", "            self.index = sorted(set(db[column]))\n"))
ok('sd uniq', (DCO, "            index = list(set(db[column]))\n            index.sort()\n            self.index = index\n", "            values = db[column].unique()\n            self.index = sorted(values)\n"))
ok('sd loop', (RMF, "            for col in sorted(self.across_cols):\n                default_regressors.append(col + '_1')\n                default_regressors.append(col + '_2')\n", "            default_regressors += [\n                col + ext for col in sorted(self.across_cols)\n                for ext in ('_1', '_2')]\n"))
ok('sd sampler', (SP, "        u = np.random.rand()\n        if (N", "        u = np.random.uniform()\n        if (N"))
ok('sd fallback', (T, SEED, "        import time\n        np.random.seed(int(time.time()) if seed is None else seed)\n"))
ok('sd fallback2', (T, SEED, "        if seed is None:\n            seed = os.getpid()\n        np.random.seed(seed)\n"))
DCI = "            index = list(set(db[column]))\n            index.sort()\n            self.index = index\n"
bad('sd cache', ['C23'], (DCO, "    def __init__(self, name,", "    _indexes = {}\n\n    def __init__(self, name,"), (DCO, DCI, "            if column not in self._indexes:\n                self._indexes[column] = sorted(set(db[column]))\n            self.index = self._indexes[column]\n"))
bad('sd cache2', ['C23'], (DCO, "class DBfun_Column(", "_INDEXES = {}\n\n\nclass DBfun_Column("), (DCO, DCI, "            if column not in _INDEXES:\n                _INDEXES[column] = sorted(set(db[column]))\n            self.index = _INDEXES[column]\n"))
bad('sd cache3', ['C23'], (DCO, "indexed=True):", "indexed=True, known=[]):"), (DCO, DCI, "            known.extend(e for e in db[column] if e not in known)\n            self.index = sorted(known)\n"))
bad('sd addown', ['C23'], (RMF, "regressors = regressors + default_regressors", "regressors += default_regressors"), (T, "[] if regressors is None else regressors)", "regressors)"), (T, "regressors=None,", "regressors=[],"))
PDI = 'ABXpy/misc/progress_display.py'
bad('vb stop', ['C36'], (T, "                    display.update('block', 1)\n                    display.display()\n\n                block =", "                    display.update('block', 1)\n                    display.display()\n                    count = 1\n                    stats['nb_triplets'] = 0\n\n                block ="))
bad('vb bys', ['C36'], (T, "                    print(\"Writing ABX triplets to task file...\")\n", "                    print(\"Writing ABX triplets to task file...\")\n                    db = db.sort_values(self.on)\n"))
bad('vb seed', ['C36'], (T, "            print('writing output to {}'.format(output))\n", "            print('writing output to {}'.format(output))\n            print('first draw: {}'.format(np.random.rand()))\n"))
bad('vb name', ['C36'], (T, "            display.add('block', 'Preprocessing by block', len(by_groups))\n", "            display.add('blocks', 'Preprocessing by block', len(by_groups))\n"))
bad('vb undef', ['C36'], (T, "            print('writing output to {}'.format(output))\n", "            print('writing output to {}'.format(out_file))\n"))
bad('vb meth', ['C36'], (T, "                display.update('block', 1)\n                display.display()\n\n            # allow to get by values as well", "                display.increment('block', 1)\n                display.display()\n\n            # allow to get by values as well"))
bad('vb pct', ['C36'], (PDI, '            m = m + "%s %d on %d\\n" % (message, count, total)\n', '            m = m + "%s %d on %d\\n" % (message, count, total)\n            m = m + "%d%%\\n" % (100 * count // total)\n'))
bad('vb cnt', ['C36'], (PDI, "self.count[name] = self.count[name] + amount", "self.count[name] = amount"))
bad('vb thr', ['C36'], (T, "self.threshold = threshold if threshold is not None else False", "self.threshold = threshold if threshold is not None else self.verbose"))
ok('vb percent', (PDI, '            m = m + "%s %d on %d\\n" % (message, count, total)\n', '            m += "%s %d on %d\\n" % (message, count, total)\n'))
ok('vb helper', (T, "                display.update('block', 1)\n                display.display()\n\n            # allow to get by values as well", "                self._progress(display, 'block')\n\n            # allow to get by values as well"), (T, "    def _init_prepare_database(", "    @staticmethod\n    def _progress(display, name):\n        display.update(name, 1)\n        display.display()\n\n    def _init_prepare_database("))
ok('vb none', (T, "        if self.verbose:\n            display = progress_display.ProgressDisplay()\n            display.add('block', 'Preprocessing by block', len(by_groups))\n", "        display = (progress_display.ProgressDisplay()\n                   if self.verbose else None)\n        if display is not None:\n            display.add('block', 'Preprocessing by block', len(by_groups))\n"))
ok('vb time', (T, "            print('writing output to {}'.format(output))\n", "            import time\n            start = time.time()\n            print('writing output to {} at {}'.format(output, start))\n"))
bad('io mode', ['C21'], (S, "with h5py.File(task_file, 'r') as t, h5py.File(distance_file, 'r') as d:", "with h5py.File(task_file, 'r') as t, h5py.File(distance_file, 'r+') as d:"))
bad('io default', ['C21'], (S, "    with h5py.File(task_file, 'r') as t:\n        bys", "    with h5py.File(task_file) as t:\n        bys"))
bad('io move', ['C21'], (S, "                    idx_start = idx_end\n", "                    idx_start = idx_end\n    os.remove(distance_file)\n"))
bad('io noref', ['C21'], (S, "    assert not os.path.exists(score_file), ('score file already exist ' +\n                                            score_file)\n", ""))
bad('io weak', ['C21'], (T, "        if os.path.exists(output):\n            raise ValueError(\n", "        if os.path.exists(output) and self.verbose:\n            raise ValueError(\n"))
bad('io size', ['C21'], (S, "    assert not os.path.exists(score_file), ", "    assert not (os.path.exists(score_file) and\n                os.path.getsize(score_file) > 800), "))
bad('io late', ['C21'], (T, "        if os.path.exists(output):\n            raise ValueError(\n                'The output file already exists: {}'.format(output))\n", "        with h5py.File(output, 'a') as fh:\n            if 'triplets' in fh:\n                raise ValueError(\n                    'The output file already exists: {}'.format(output))\n"))
bad('io fixed', ['C21'], (HH, "        self.tmpfile = os.path.join(self.tmpdir, 'tmp.h5')", "        self.tmpfile = 'tmp.h5'"))
bad('io over', ['C21'], (DB, "dropped.to_csv(basename + '-removed' + ext)", "db[~ nanrows].to_csv(filename, sep=' ')\n        dropped.to_csv(basename + '-removed' + ext)"))
bad('io dist', ['C21'], (DD, "    with h5py.File(pair_file, 'r') as fh:\n        # by_dsets", "    with h5py.File(pair_file, 'a') as fh:\n        # by_dsets"))
ok('io raise', (S, "    assert not os.path.exists(score_file), ('score file already exist ' +\n                                            score_file)\n", "    if os.path.exists(score_file):\n        raise AssertionError('score file already exist ' + score_file)\n"))
ok('io lexists', (T, "        if os.path.exists(output):\n            raise ValueError(\n                'The output file already exists: {}'.format(output))\n", "        self._refuse(output)\n"), (T, "    def generate_triplets(self", "    def _refuse(self, name):\n        if os.path.exists(name):\n            message = 'The output file already exists: {}'.format(name)\n            raise ValueError(message)\n\n    def generate_triplets(self"))
ok('io kw', (S, "    with h5py.File(task_file, 'r') as t:\n        bys", "    with h5py.File(name=task_file, mode='r') as t:\n        bys"))
bad('r3 thr persist', ['C07', 'C23'], (T, "self.threshold = threshold if threshold is not None else False", "self.threshold = (threshold if threshold is not None\n                          else getattr(self, 'threshold', False))"))
bad('r3 index persist', ['C02', 'C08', 'C23', 'C12'], (T, "        by_block_indices = [0]\n        self.current_index = 0\n", "        by_block_indices = [0]\n"), (T, "        self.by_dbs = {}\n        self.types = {}\n", "        self.by_dbs = {}\n        self.current_index = 0\n        self.types = {}\n"))
bad('r3 reg cache', ['C06'], (RMF, "    def set_A_regressors(self, on_across_by_values, db, indices):\n", "    def set_A_regressors(self, on_across_by_values, db, indices):\n        key = tuple(indices)\n        if key == getattr(self, '_A_key', None):\n            return\n        self._A_key = key\n"))
bad('r3 reg cache2', ['C06'], (RMF, "    def set_on_across_by_regressors(self, on_across_by_values):\n", "    def set_on_across_by_regressors(self, on_across_by_values):\n        if self.on_across_by_regressors:\n            return\n"))
bad('r3 bys sorted', ['C02', 'C08', 'C12', 'C13'], (T, "fh.file['bys'][:] = [str(by) for by in bys]", "fh.file['bys'][:] = sorted(str(by) for by in bys)"))
bad('r3 reg id', ['C06', 'C35'], (RMF, "                reg_id = reg_id + nb_o\n", "                reg_id = reg_id + 1\n"))
bad('r3 reg id2', ['C06', 'C35'], (RMF, "        reg_id = self.fetch_regressor_info('A', reg_id)\n", "        self.fetch_regressor_info('A', reg_id)\n"))
bad('r3 base len', ['C09', 'C20', 'C08'], (DD, "                base = attrs[0]\n", "                base = len(by_db)\n"))
bad('r3 base max', ['C08', 'C20'], (T, "                            max_ind_dict[by] + 1,\n", "                            len(self.feat_dbs[by]),\n"))
bad('r3 acc cache', ['C19'], (DD, "        features = {}\n        for ix, f, on, off in zip(\n", "        features = {}\n        known = {}\n        for ix, f, on, off in zip(\n"), (DD, "            t = np.where(np.logical_and(\n                self.times[f] >= on,\n                self.times[f] <= off))[0]\n", "            if (on, off) not in known:\n                known[on, off] = np.where(np.logical_and(\n                    self.times[f] >= on,\n                    self.times[f] <= off))[0]\n            t = known[on, off]\n"))
bad('r3 acc view', ['C18'], (DD, "            features[ix] = self.features[f][t, :]\n", "            if len(t) == len(self.times[f]):\n                features[ix] = self.features[f]\n                features[ix] -= features[ix].min()\n            else:\n                features[ix] = self.features[f][t, :]\n"))
bad('r3 update times', ['C19', 'C20'], (DD, "            times.update(t)\n", "            times.update({k: t[k] for k in t if k not in times})\n"))
bad('r3 empty bys', ['C02', 'C08', 'C12'], (T, "                    if self.current_index == by_block_indices[-1]:\n                        empty_by_blocks.append(by)\n                    else:\n                        by_block_indices.append(self.current_index)\n                        bys.append(by)\n", "                    by_block_indices.append(self.current_index)\n                    if by_block_indices[-1] == by_block_indices[-2]:\n                        empty_by_blocks.append(by)\n                    else:\n                        bys.append(by)\n"))
bad('r3 trip resize', ['C02', 'C15', 'C12'], (T, "            fh.file['triplets/data'].resize(aux[-1], axis=0)\n", "            fh.file['triplets/data'].resize(self.n_triplets, axis=0)\n"))
ok('r3 order', (DD, "    order = np.argsort(np.int64(n_dist))[::-1]\n", "    order = np.argsort(np.int64(n_dist))[:0:-1]\n"))
bad('r3 normalize', ['C16', 'C24'], (DD, "                    elif normalize == 0:\n                        normalize = False\n", "                    elif normalize == 0:\n                        normalize = None\n"))
ok('r3 dist cache', (DD, "        features = get_features(items)\n", "        features.update(get_features(items))\n"))
bad('r3 lock order', ['C10'], (DD, "            if synchronize:\n                distance_file_lock.release()\n\n        A = np.mod", "            if synchronize and job_id:\n                distance_file_lock.release()\n\n        A = np.mod"))
bad('r3 filt cache2', ['C04'], (FMF, "        self.generic = []\n\n", "        self.generic = []\n        self.known = {}\n\n"), (FMF, "    def A_filter(self, on_across_by_values, db, indices):\n", "    def A_filter(self, on_across_by_values, db, indices):\n        if tuple(indices) in self.known:\n            return self.known[tuple(indices)]\n"), (FMF, "        return vectorial_filter(lambda context: self.evaluate_A(on_across_by_values, db, indices, context), indices_ind)", "        kept = vectorial_filter(lambda context: self.evaluate_A(on_across_by_values, db, indices, context), indices_ind)\n        self.known[tuple(indices)] = kept\n        return kept"))
ok('r3 acc cacheok', (DD, "        features = {}\n        for ix, f, on, off in zip(\n", "        features = {}\n        known = {}\n        for ix, f, on, off in zip(\n"), (DD, "            t = np.where(np.logical_and(\n                self.times[f] >= on,\n                self.times[f] <= off))[0]\n", "            if (f, on, off) not in known:\n                known[f, on, off] = np.where(np.logical_and(\n                    self.times[f] >= on,\n                    self.times[f] <= off))[0]\n            t = known[f, on, off]\n"))
ok('r3 normok1', (DD, "                if normalize is not None:\n                    if normalize == 1:\n                        normalize = True\n                    elif normalize == 0:\n                        normalize = False\n                    else:\n                        print('normalized parameter neither 1 nor 0,'\n                              'using normalization')\n                        normalize = True\n                    dis[i, 0] = distance(dataA, dataB, normalized=normalize)\n                else:\n                    dis[i, 0] = distance(dataA, dataB)\n", "                kw = {}\n                if normalize is not None:\n                    kw['normalized'] = normalize != 0\n                dis[i, 0] = distance(dataA, dataB, **kw)\n"))
ok('r3 normok2', (DD, "                if normalize is not None:\n                    if normalize == 1:\n                        normalize = True\n                    elif normalize == 0:\n                        normalize = False\n                    else:\n                        print('normalized parameter neither 1 nor 0,'\n                              'using normalization')\n                        normalize = True\n                    dis[i, 0] = distance(dataA, dataB, normalized=normalize)\n                else:\n                    dis[i, 0] = distance(dataA, dataB)\n", "                if normalize is None:\n                    dis[i, 0] = distance(dataA, dataB)\n                else:\n                    if normalize not in (0, 1):\n                        print('normalized parameter neither 1 nor 0,'\n                              'using normalization')\n                    dis[i, 0] = distance(dataA, dataB, normalized=False if normalize == 0 else True)\n"))
bad('r3 normbad', ['C16'], (DD, "                if normalize is not None:\n                    if normalize == 1:\n                        normalize = True\n                    elif normalize == 0:\n                        normalize = False\n                    else:\n                        print('normalized parameter neither 1 nor 0,'\n                              'using normalization')\n                        normalize = True\n                    dis[i, 0] = distance(dataA, dataB, normalized=normalize)\n                else:\n                    dis[i, 0] = distance(dataA, dataB)\n", "                if normalize is not None:\n                    if normalize == 1:\n                        normalize = not i\n                    elif normalize == 0:\n                        normalize = 0\n                    else:\n                        print('normalized parameter neither 1 nor 0,'\n                              'using normalization')\n                        normalize = True\n                    dis[i, 0] = distance(dataA, dataB, normalized=normalize)\n                else:\n                    dis[i, 0] = distance(dataA, dataB)\n"))
bad('spec under', ['C28'], (T, "            assert '_' not in col, \\\n", "            assert '_' not in col[:-1], \\\n"))
bad('spec hash', ['C28'], (T, "            assert '#' not in col, \\\n                col + ': you cannot use \\'#\\' in column names'\n", ""))
bad('spec only', ['C28'], (T, "        for col in cols:\n            assert '_' not in col", "        for col in self.on + self.across + self.by:\n            assert '_' not in col"))
bad('spec trees', ['C28'], (T, "        for col in cols:\n            assert '_' not in col", "        for col in {tree.name for tree in self.db_hierarchy}:\n            assert '_' not in col"))
bad('spec strict', ['C28'], (T, "            assert '_' not in col, \\\n", "            assert '_' not in col and '-' not in col, \\\n"))
bad('spec aux', ['C28'], (T, "        cols = set(self.db.columns)\n", "        cols = {tree.name for tree in self.db_hierarchy}\n"))
bad('spec warn', ['C28'], (T, "            warnings.warn('There are no possible ABX triplets'\n                          ' in the specified task', UserWarning)\n            return\n", "            return\n"))
bad('spec noret', ['C28'], (T, "                          ' in the specified task', UserWarning)\n            return\n", "                          ' in the specified task', UserWarning)\n"))
bad('spec blocks', ['C28'], (T, "        if self.stats['nb_triplets'] == 0:\n", "        if self.stats['nb_blocks'] == 0:\n"))
ok('spec loop', (T, "        for col in cols:\n            assert '_' not in col, \\\n                col + ': you cannot use underscore in column names'\n            assert '#' not in col, \\\n                col + ': you cannot use \\'#\\' in column names'\n", "        for char, what in (('_', 'underscore'), ('#', \"'#'\")):\n            for col in cols:\n                if char in col:\n                    raise ValueError('{}: you cannot use {} in column names'.format(col, what))\n"))
ok('spec missing', (T, "        assert cols.issuperset(self.on), 'ON' + message\n        assert cols.issuperset(self.across), 'ACROSS' + message\n        assert cols.issuperset(self.by), 'BY' + message\n", "        for kind, names in (('ON', self.on), ('ACROSS', self.across), ('BY', self.by)):\n            missing = [name for name in names if name not in cols]\n            if missing:\n                raise AssertionError(kind + message + ' {}'.format(missing))\n"))
ok('spec empty', (T, "        if self.stats['nb_triplets'] == 0:\n            warnings.warn('There are no possible ABX triplets'\n                          ' in the specified task', UserWarning)\n            return\n        self.total_n_triplets = self.stats['nb_triplets']\n", "        self.total_n_triplets = self.stats['nb_triplets']\n        if not self.total_n_triplets:\n            message = 'There are no possible ABX triplets in the specified task'\n            warnings.warn(message, UserWarning)\n            return\n"))
ok('spec aslist', (T, "        if arg is None:\n            return []\n        elif isinstance(arg, str):\n            return [arg]\n        else:\n            return arg\n", "        if isinstance(arg, str):\n            arg = [arg]\n        return [] if arg is None else arg\n"))

# ---------------------------------------------------------------- C37 scripts
CF = 'ABXpy/dbfun/dbfun_compute.py'
bad('script order', ['C37'], (CF, "        exec(self.import_bytecode, ns_global, ns_local)\n", ""), (CF, "        exec(self.main_bytecode, ns_global, ns_local)\n", "        exec(self.main_bytecode, ns_global, ns_local)\n        exec(self.import_bytecode, ns_global, ns_local)\n"))
bad('script first', ['C37'], (CF, "ast.Expression(self.main_ast.body[-1].value)\n        self.main_ast.body = self.main_ast.body[:-1]", "ast.Expression(self.main_ast.body[-1].value)\n        self.main_ast.body = [s for s in self.main_ast.body\n                              if not isinstance(s, ast.Expr)]"))
bad('script twice', ['C37'], (CF, "        self.main_ast.body = self.main_ast.body[:-1]\n", ""))
bad('script from', ['C37'], (CF, "        imports = [stat for stat in tree.body if isinstance(\n            stat, (ast.ImportFrom, ast.Import))]\n", "        imports = [stat for stat in tree.body if isinstance(\n            stat, ast.Import)]\n        imports += [stat for stat in tree.body if isinstance(\n            stat, ast.ImportFrom)]\n"))
bad('script names', ['C37'], (CF, "visitor.visit(self.main_ast)", "visitor.visit(self.main_ast.body[-1])"))
bad('script allnames', ['C37'], (CF, "list(names.intersection(self.columns))", "list(self.columns)"))
bad('script prefix', ['C37'], (CF, "list(names.intersection(self.columns))", "[c for c in self.columns if any(n.startswith(c) for n in names)]"))
bad('script attr', ['C37'], (CF, "    def visit_Name(self, node):", "    def visit_Attribute(self, node):\n        self.names.append(node.attr)\n        self.generic_visit(node)\n\n    def visit_Name(self, node):"))
bad('script lambda', ['C37'], (CF, "    def visit_Name(self, node):", "    def visit_FunctionDef(self, node):\n        pass\n\n    def visit_Name(self, node):"))
bad('script accepted', ['C37'], (CF, "        if not(isinstance(expression, ast.Expr)):\n", "        if not hasattr(expression, 'value'):\n"))
bad('script kept', ['C37'], (CF, "        ns_local = context\n        ns_global = ns_local\n", "        self.namespace.update(context)\n        ns_local = ns_global = self.namespace\n"), (CF, "        self.parse()\n", "        self.namespace = {}\n        self.parse()\n"))
bad('script globals', ['C37'], (CF, "        ns_global = ns_local\n", "        ns_global = {}\n"))
ok('script copy', (CF, "        ns_local = context\n        ns_global = ns_local\n", "        ns_local = ns_global = dict(context)\n"))
ok('script walk', (CF, "        visitor = nameVisitor()  # see definition of this class below\n        visitor.visit(self.main_ast)\n        names = set(visitor.names)\n", "        names = {node.id for node in ast.walk(self.main_ast)\n                 if isinstance(node, ast.Name)}\n"))
ok('script single', (CF, "        exec(self.main_bytecode, ns_global, ns_local)\n        return eval(self.final_bytecode, ns_global, ns_local)\n", "        exec(self.main_bytecode, ns_local)\n        result = eval(self.final_bytecode, ns_local)\n        return result\n"), (CF, "exec(self.import_bytecode, ns_global, ns_local)", "exec(self.import_bytecode, ns_local)"))
ok('script loop', (CF, "        imports = [stat for stat in tree.body if isinstance(\n            stat, (ast.ImportFrom, ast.Import))]\n        rest = [stat for stat in tree.body if not(\n            isinstance(stat, (ast.ImportFrom, ast.Import)))]\n", "        imports, rest = [], []\n        for stat in tree.body:\n            if isinstance(stat, (ast.ImportFrom, ast.Import)):\n                imports.append(stat)\n            else:\n                rest.append(stat)\n"))
ok('script module', (CF, "        if sys.version_info >= (3, 8):  # ast.Module spec changed in python-3.8\n            self.import_bytecode = compile(ast.Module(imports, []), '', mode='exec')\n            tree = ast.Module(rest, [])\n        else:\n            self.import_bytecode = compile(ast.Module(imports), '', mode='exec')\n            tree = ast.Module(rest)\n", "        self.import_bytecode = compile(self.module(imports), '', 'exec')\n        tree = self.module(rest)\n"), (CF, "    def process_with(self, tree):", "    @staticmethod\n    def module(stats):\n        if sys.version_info < (3, 8):\n            return ast.Module(stats)\n        return ast.Module(stats, [])\n\n    def process_with(self, tree):"))
ok('script file', (CF, "        if len(definition) >= 3 and definition[-3:] == '.py':\n            with open(definition) as script_file:\n                self.script = script_file.read()\n", "        if definition.endswith('.py'):\n            script_file = open(definition)\n            try:\n                self.script = script_file.read()\n            finally:\n                script_file.close()\n"))
ok('script pop', (CF, "        self.final_ast = ast.Expression(self.main_ast.body[-1].value)\n        self.main_ast.body = self.main_ast.body[:-1]\n", "        self.final_ast = ast.Expression(self.main_ast.body.pop().value)\n"))
ok('script inline', (CF, "        # exec main_bytecode\n        exec(self.main_bytecode, ns_global, ns_local)\n", "        for code in [self.main_bytecode]:\n            exec(code, ns_global, ns_local)\n"))

# seeds of the last round as variants
for _n in ('s25_async', 's10_timeout', 's03_tuple', 's37_names', 's37_first'):
    import importlib as _i
    import os as _o
    import sys as _s
    _d = _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'seeds')
    if _d not in _s.path:
        _s.path.insert(0, _d)
    _m = _i.import_module(_n)
    bad('seed ' + _n, [_m.property], *_m.edits)
ok('lock wait', ('ABXpy/distances/distances.py', "            distance_file_lock.acquire()\n        try:\n            store", "            distance_file_lock.acquire(True)\n        try:\n            store"))
bad('lock nowait', ['C10'], ('ABXpy/distances/distances.py', "            distance_file_lock.acquire()\n        try:\n            with", "            distance_file_lock.acquire(False)\n        try:\n            with"))

# ------------------------------------------------------------- C26 the trees
TT = 'ABXpy/misc/tinytree.py'
bad('tree self', ['C26'], (TT, "        yield self\n        # Take copy to make this robust under modification\n        for i in self.children[:]:\n            for j in i.preOrder()", "        # Take copy to make this robust under modification\n        for i in self.children[:]:\n            yield i\n            for j in i.preOrder()"))
bad('tree deep', ['C26'], (TT, "            for j in i.preOrder():\n                yield j\n", "            yield i\n"))
bad('tree first', ['C26'], (TT, "                if all([x(i) for x in func]):\n                    return i\n        return None", "                if all([x(i) for x in func]):\n                    return i\n            return None"))
bad('tree parent', ['C26'], (TT, "        node.register(self)\n", ""))
bad('tree front', ['C26'], (TT, "self.children.append(node)", "self.children.insert(0, node)"))
bad('tree skip', ['C26'], (TT, "            itertools.chain(children, [None])\n", "            children\n"))
bad('tree any', ['C26'], (TT, "if all([x(i) for x in func])", "if func and func[0](i) or not func[0](self)"))
ok('tree loop', (TT, "        skip = True\n        v = list(zip(\n            itertools.chain([None], children),\n            itertools.chain(children, [None])\n        ))\n        for i in v:\n            if skip:\n                skip = False\n                continue\n            self.addChild(i[0])\n            if _isSequenceLike(i[1]):\n                i[0].addChildrenFromList(i[1])\n                skip = True\n", "        last = None\n        for child in children:\n            if _isSequenceLike(child):\n                last.addChildrenFromList(child)\n            else:\n                self.addChild(child)\n                last = child\n"))
ok('tree from', (TT, "            for j in i.preOrder():\n                yield j\n", "            yield from i.preOrder()\n"))
ok('tree list', (TT, "        yield self\n        # Take copy to make this robust under modification\n        for i in self.children[:]:\n            for j in i.preOrder():\n                yield j\n", "        nodes = [self]\n        # Take copy to make this robust under modification\n        for i in self.children[:]:\n            nodes.extend(i.preOrder())\n        return iter(nodes)\n"))
ok('tree stack', (TT, "        yield self\n        # Take copy to make this robust under modification\n        for i in self.children[:]:\n            for j in i.preOrder():\n                yield j\n", "        todo = [self]\n        while todo:\n            node = todo.pop()\n            yield node\n            todo.extend(reversed(node.children))\n"))
