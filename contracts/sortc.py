# Contracts for the sorting helpers (C16): utility.h, CSR.h
UNITS = []
L, R = '`left`', '`right`'
K, V, TK, TV = '`nnz_num`', '`nnz_sorting`', '`temp_num`', '`temp_sorting`'
FR = lambda k, v, lo, hi: 'forall x. not (%s <= x < %s) -> %s[x] = (old %s)[x] /\\ %s[x] = (old %s)[x]' % (lo, hi, k, k, v, v)
TEMP = lambda lo, hi: 'forall x. %s <= x < %s -> %s[x] = k2[fl `mid` %s x] /\\ %s[x] = v2[fl `mid` %s x]' % (lo, hi, TK, R, TV, R)
UNITS.append(dict(name='mergesort', fn='mergesort', base0=['nnz_num', 'nnz_sorting', 'temp_num', 'temp_sorting'], theories=['sorts.Sorts'], uses=['mergesort.rec'],
  ghost=[('kb', 'imap'), ('vb', 'map int nt'), ('glo', 'int'), ('ghi', 'int')], ghost_args={'mergesort.rec': {'kb': 'kb', 'vb': 'vb', 'glo': 'glo', 'ghi': 'ghi', 'bound': 'sz'}},
  requires=['0 <= %s' % L, '%s <= %s + 1' % (L, R)] + ['`%s:len` >= %s + 1' % (a, R) for a in ('nnz_num', 'nnz_sorting', 'temp_num', 'temp_sorting')] +
           ['glo <= %s /\\ %s < ghi' % (L, R), 'rearr kb vb %s %s glo ghi' % (K, V)],
  pre=['let sz = %s - %s in' % (R, L)],
  loops=[
   {'pre': ['let k2 = %s in' % K, 'let v2 = %s in' % V],
    'inv': ['%s <= `i` <= `mid` + 1' % L, TEMP(L, '`i`')], 'var': '`mid` + 1 - `i`'},
   {'inv': ['`mid` + 1 <= `i` <= %s + 1' % R, '`j` = %s - (`i` - `mid` - 1)' % R, TEMP(L, '`i`')], 'var': '%s + 1 - `i`' % R,
    'after': ['assert { sorted_le k2 %s (`mid` + 1) /\\ sorted_le k2 (`mid` + 1) (%s + 1) }' % (L, R), 'assert { sorted_le %s %s (`mid` + 1) }' % (TK, L), 'assert { sorted_ge %s (`mid` + 1) (%s + 1) }' % (TK, R), 'let p = ref k2 in']},
   {'inv': ['%s <= `k` <= %s + 1' % (L, R), '%s <= `i` <= `mid` + 1' % L, '`mid` <= `j` <= %s' % R, '`j` - `i` = %s - `k`' % R,
            'forall x. %s <= x < `k` -> taken `i` `j` %s %s !p[x] /\\ %s[x] = %s[!p[x]] /\\ %s[x] = %s[!p[x]]' % (L, L, R, K, TK, V, TV),
            'forall x y. %s <= x < y < `k` -> !p[x] <> !p[y]' % L, 'forall x y. %s <= x < `k` -> `i` <= y <= `j` -> %s[x] <= %s[y]' % (L, K, TK), 'sorted_le %s %s `k`' % (K, L),
            'forall x. not (%s <= x < `k`) -> %s[x] = k2[x] /\\ %s[x] = v2[x]' % (L, K, V)], 'var': '%s + 1 - `k`' % R,
    'begin': ['let ib = `i` in', 'let jb = `j` in', 'let kp = %s in' % K],
    'end': ['p := !p[`k` <- if `i` > ib then ib else jb]', 'assert { forall y. ib <= y <= jb -> %s[`k`] <= %s[y] }' % (K, TK)],
    'after': ['merge_rearr kb vb k2 v2 %s %s !p %s `mid` %s glo ghi' % (K, V, L, R)]},
  ],
  ensures=['sorted_le %s %s (%s + 1)' % (K, L, R), 'rearr kb vb %s %s glo ghi' % (K, V), FR(K, V, L, R + ' + 1')]))
# the recursive calls: the same contract, for a smaller range
UNITS.append(dict(UNITS[0], name='mergesort.rec', stub=True, uses=[], pre=[], loops=[], ghost=UNITS[0]['ghost'] + [('bound', 'int')], requires=UNITS[0]['requires'] + ['0 <= bound /\\ %s - %s < bound' % (R, L)]))
UNITS.append(dict(name='cpu_sorting_key_value', fn='cpu_sorting_key_value', base0=['key', 'value'], theories=['sorts.Sorts'], uses=['mergesort'],
  ghost_args={'mergesort': {'kb': 'k0', 'vb': 'v0', 'glo': '0', 'ghi': 'n0'}},
  requires=['0 <= `N`', '`key:len` >= `N`', '`value:len` >= `N`'], pre=['let k0 = `key` in', 'let v0 = `value` in', 'let n0 = `N` in', 'rearr_refl k0 v0 0 n0'],
  ensures=['sorted_le `key` 0 `N`', 'rearr (old `key`) (old `value`) `key` `value` 0 `N`', FR('`key`', '`value`', '0', '`N`')]))
# sorting the entries of every row, and the test for it
P, NR = '`this.rowptr`', '`this.rows`'
def wf(ptr, n, ids): return ['offsets `this.%s` `this.%s` `this.nnz`' % (ptr, n), '`this.{0}:len` >= `this.{1}` + 1 /\\ `this.{2}:len` >= `this.nnz` /\\ `this.values:len` >= `this.nnz`'.format(ptr, n, ids)]
ROW = ('`this.rowptr`[@I]', '`this.rowptr`[@I+1]')
AT = lambda e: '%s[`i`]%s' % (P, e)
UNITS.append(dict(name='CSR.sortIds', fn='sortIds', cls='CSR<long, double>', theories=['convs.Conv', 'sorts.Rows'], callable=False, requires=wf('rowptr', 'rows', 'colids'), pre=['offsets_monos %s %s `this.nnz`' % (P, NR)],
  loops=[
   {'pre': ['let k0 = `this.colids` in', 'let v0 = `this.values` in'],
    'inv': ['0 <= `i` <= %s' % NR, 'forall x. %s[`i`] <= x < `this.nnz` -> `this.colids`[x] = k0[x] /\\ `this.values`[x] = v0[x]' % P,
            'forall c. 0 <= c < `i` -> colok k0 v0 `this.colids` `this.values` %s c' % P], 'var': NR + ' - `i`',
    'begin': ['let k1 = `this.colids` in', 'let v1 = `this.values` in'],
    'foot': {'this.colids': ROW, 'this.values': ROW}, 'foot_dom': ('0', NR)},
   {'inv': ['%s[`i`] <= `j` <= %s[`i`+1]' % (P, P), '`tosort:len` = `j` - %s[`i`]' % P, 'forall x. 0 <= x < `tosort:len` -> `tosort.first`[x] = k1[%s[`i`]+x] /\\ `tosort.second`[x] = v1[%s[`i`]+x]' % (P, P)],
    'var': '%s[`i`+1] - `j`' % P, 'after': ['let f0 = `tosort.first` in', 'let g0 = `tosort.second` in']},
   {'inv': ['%s[`i`] <= `j` <= %s[`i`+1]' % (P, P), '`begitr:off` = `j` - %s[`i`]' % P, 'forall x. %s[`i`] <= x < `j` -> `this.colids`[x] = `tosort.first`[x - %s[`i`]] /\\ `this.values`[x] = `tosort.second`[x - %s[`i`]]' % (P, P, P),
            'forall x. not (%s[`i`] <= x < `j`) -> `this.colids`[x] = k1[x] /\\ `this.values`[x] = v1[x]' % P], 'var': '%s[`i`+1] - `j`' % P,
    'after': ['colok_frames k0 v0 k1 v1 `this.colids` `this.values` %s %s `this.nnz` `i`' % (P, NR),
            'row_sorted_back k0 v0 k1 v1 f0 g0 `tosort.first` `tosort.second` `this.colids` `this.values` %s `i`' % P]}],
  ensures=['forall i. 0 <= i < %s -> colok (old `this.colids`) (old `this.values`) `this.colids` `this.values` %s i' % (NR, P)] + wf('rowptr', 'rows', 'colids')))
for c, ptr, n, ids in (('CSR', 'rowptr', 'rows', 'colids'), ('CSC', 'colptr', 'cols', 'rowids')):
    Q, I, M = '`this.%s`' % ptr, '`this.%s`' % ids, '`this.%s`' % n
    UNITS.append(dict(name=c + '.Sorted', fn='Sorted', cls=c + '<long, double>', theories=['convs.Conv'], callable=False, requires=wf(ptr, n, ids),
      loops=[{'pre': ['offsets_monos %s %s `this.nnz`' % (Q, M)], 'inv': ['0 <= `i` <= ' + M, '`sorted` <-> forall c. 0 <= c < `i` -> sorted_le %s %s[c] %s[c+1]' % (I, Q, Q)], 'var': M + ' - `i`'},
             {'inv': ['%s[`i`] <= `__first:off`' % Q, '`__next:off` = `__first:off` + 1', '`__next:off` <= %s[`i`+1]' % Q, 'sorted_le %s %s[`i`] `__next:off`' % (I, Q)], 'var': '%s[`i`+1] - `__next:off`' % Q}],
      post=['assert { [@expl:the reported answer says whether every line is ordered] `sorted` <-> forall c. 0 <= c < %s -> sorted_le %s %s[c] %s[c+1] }' % (M, I, Q, Q)], ensures=[]))
