def wf(m): return ['wf_rowptr `%s.rowptr` `%s.rows` `%s.nnz`' % (m, m, m), 'in_range `%s.colids` `%s.nnz` `%s.cols`' % (m, m, m),
    '`%s.rowptr:len` >= `%s.rows` + 1' % (m, m), '`%s.colids:len` >= `%s.nnz`' % (m, m), '`%s.values:len` >= `%s.nnz`' % (m, m), '`%s.cols` >= 0' % m]
WF_ABM = wf('A') + wf('B') + wf('M') + ['`A.cols` = `B.rows`', '`M.rows` = `A.rows`', '`M.cols` = `B.cols`']
MLO, MHI = '`M.rowptr`[`row`]', '`M.rowptr`[`row`+1]'
ALO, AHI = '`A.rowptr`[`row`]', '`A.rowptr`[`row`+1]'
BLO, BHI = '`B.rowptr`[`A.colids`[`j`]]', '`B.rowptr`[`A.colids`[`j`]+1]'
# the entries of A's row `row`, B's arrays
AB = '`A.colids` `A.values` `B.rowptr` `B.colids` `B.values`'
ROWA = AB + ' ' + ALO + ' ' + AHI
RANK = 'rank %s `M.colids`' % ROWA
CRANK = 'crank %s `M.colids`' % ROWA
DISTM = 'distinct `M.colids` %s %s' % (MLO, MHI)
def fj(hi, c): return '(foldj %s %s %s %s)' % (AB, ALO, hi if ' ' not in hi else hi, c if ' ' not in c else '(%s)' % c)
def fk(j, k, c): return '(foldk %s `A.values`[%s] `B.colids` `B.values` `B.rowptr`[`A.colids`[%s]] %s %s)' % (fj(j, c), j, j, k, c)
def between(a, x, b): return '%s <= %s <= %s' % (a, x, b)

# ---- contract of every numericRow with a plain mask
def num_pre_plain():
    return ['`currColId:off` >= 0', '`currValue:off` >= 0',
            '`currColId:off` + %s %s %s <= `currColId:len`' % (RANK, MLO, MHI),
            '`currValue:off` + %s %s %s <= `currValue:len`' % (RANK, MLO, MHI)]
def num_post_plain():
    return ['`currColId:off` = old `currColId:off` + %s %s %s' % (RANK, MLO, MHI),
            '`currValue:off` = old `currValue:off` + %s %s %s' % (RANK, MLO, MHI),
            'forall p. %s <= p < %s -> match foldj %s `M.colids`[p] with None -> true | Some v -> `currColId`[old `currColId:off` + %s %s p] = `M.colids`[p] /\\ `currValue`[old `currValue:off` + %s %s p] = v end' % (MLO, MHI, ROWA, RANK, MLO, RANK, MLO),
            'forall i. not (old `currColId:off` <= i < `currColId:off`) -> `currColId`[i] = (old `currColId`)[i]',
            'forall i. not (old `currValue:off` <= i < `currValue:off`) -> `currValue`[i] = (old `currValue`)[i]']
def gather_inv_plain(it):
    return ['`currColId:off` = `currColId:off@Entry` + %s %s %s' % (RANK, MLO, it),
            '`currValue:off` = `currValue:off@Entry` + %s %s %s' % (RANK, MLO, it),
            '`currColId:off@Entry` <= `currColId:off`', '`currValue:off@Entry` <= `currValue:off`',
            'forall p. %s <= p < %s -> match foldj %s `M.colids`[p] with None -> true | Some v -> %s %s p < %s %s %s /\\ `currColId`[`currColId:off@Entry` + %s %s p] = `M.colids`[p] /\\ `currValue`[`currValue:off@Entry` + %s %s p] = v end' % (MLO, it, ROWA, RANK, MLO, RANK, MLO, it, RANK, MLO, RANK, MLO),
            'forall i. not (`currColId:off@Entry` <= i < `currColId:off`) -> `currColId`[i] = `currColId@Entry`[i]',
            'forall i. not (`currValue:off@Entry` <= i < `currValue:off`) -> `currValue`[i] = `currValue@Entry`[i]']
# ---- contract of every numericRow with a complemented mask
CSIZE = '(%s %s %s 0 `B.cols`)' % (CRANK, MLO, MHI)
def num_pre_compl():
    return ['`currColId:off` >= 0', '`currValue:off` >= 0',
            '`currColId:off` + %s <= `currColId:len`' % CSIZE,
            '`currValue:off` + %s <= `currValue:len`' % CSIZE]
def num_post_compl(srt):
    return ['`currColId:off` = old `currColId:off` + %s' % CSIZE,
            '`currValue:off` = old `currValue:off` + %s' % CSIZE,
            'forall x. old `currColId:off` <= x < `currColId:off` -> 0 <= `currColId`[x] < `B.cols` /\\ not (is_in `M.colids` %s %s `currColId`[x])' % (MLO, MHI),
            'forall x. old `currColId:off` <= x < `currColId:off` -> %s = Some (`currValue`[x - old `currColId:off` + old `currValue:off`])' % fj(AHI, '`currColId`[x]'),
            'distinct `currColId` (old `currColId:off`) `currColId:off`' if not srt else 'sorted_lt `currColId` (old `currColId:off`) `currColId:off`',
            'forall c. 0 <= c < `B.cols` -> not (is_in `M.colids` %s %s c) -> %s <> None -> is_in `currColId` (old `currColId:off`) `currColId:off` c' % (MLO, MHI, fj(AHI, 'c')),
            'forall i. not (old `currColId:off` <= i < `currColId:off`) -> `currColId`[i] = (old `currColId`)[i]',
            'forall i. not (old `currValue:off` <= i < `currValue:off`) -> `currValue`[i] = (old `currValue`)[i]']
