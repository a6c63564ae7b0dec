# Conversions between sparse formats (C13): CSR.h, CSC.h, util/transpose.h
UNITS = []
def offs(o, ptr, ids, n, other):
    """what the object holds: offsets of n rows, indices in range"""
    return ['`%s.nnz` >= 0' % o, '`%s.%s` >= 0' % (o, n), '`%s.%s` >= 0' % (o, other),
            '`{0}.nnz` > 0 -> offsets `{0}.{1}` `{0}.{2}` `{0}.nnz` /\\ `{0}.{1}:len` >= `{0}.{2}` + 1 /\\ `{0}.{3}:len` >= `{0}.nnz` /\\ `{0}.values:len` >= `{0}.nnz`'.format(o, ptr, n, ids),
            '`{0}.nnz` > 0 -> forall i. 0 <= i < `{0}.nnz` -> 0 <= `{0}.{1}`[i] < `{0}.{2}`'.format(o, ids, other)]
def wfc(o, ptr, ids, n, other):
    return ['offsets `{0}.{1}` `{0}.{2}` `{0}.nnz`'.format(o, ptr, n), '`{0}.{1}:len` >= `{0}.{2}` + 1 /\\ `{0}.{3}:len` >= `{0}.nnz` /\\ `{0}.values:len` >= `{0}.nnz`'.format(o, ptr, n, ids),
            'forall i. 0 <= i < `{0}.nnz` -> 0 <= `{0}.{1}`[i] < `{0}.{2}`'.format(o, ids, other)]
N, R = '`csc.nnz`', '`csc.rows`'
K = '`csc.rowids`'
PL = lambda q: '(place %s %s %s)' % (K, N, q)
MONO = 'let cp = `csc.colptr` in let cn = `csc.cols` in let cm = `csc.nnz` in'
def stable(tr):
    pass
DONE = ['forall q. 0 <= q < %%s -> `this.values`[%s] = `csc.values`[q]' % PL('q'),
        'forall c q. 0 <= c < `csc.cols` -> 0 <= q -> `csc.colptr`[c] <= q < `csc.colptr`[c+1] -> q < %%s -> `this.colids`[%s] = c' % PL('q'),
        'forall x. 0 <= x < %s -> 0 <= `this.colids`[x] /\\ (`csc.cols` > 0 -> `this.colids`[x] < `csc.cols`)' % N]
WORK = 'forall v. 0 <= v < %s -> `work`[v] = csum %s %s v + cnt %s %%s v' % (R, K, N, K)
BOUND = 'forall q. 0 <= q < %s -> 0 <= `csc.rowids`[q] < %s' % (N, R)
UNITS.append(dict(name='CSR.fromCSC', fn='CSR', cls='CSR<long, double>', sigmatch=r'^void \(const CSC<.*> &\)', theories=['convs.Conv'], zeroed=True, callable=False, uses=['CumulativeSum'],
  requires=offs('csc', 'colptr', 'rowids', 'cols', 'rows'),
  loops=[
   {'inv': ['0 <= `k` <= %s' % N, 'forall v. 0 <= v < %s -> `work`[v] = cnt %s `k` v' % (R, K)], 'var': '%s - `k`' % N,
    'after': ['sums_csum `work` %s %s %s %s' % (K, N, R, R), 'csum_offsets %s %s %s' % (K, N, R), 'if %s > 0 then offsets_monos `csc.colptr` `csc.cols` %s' % (N, N)]},
   {'inv': ['0 <= `i` <= `csc.cols`', WORK % '`csc.colptr`[`i`]'] + [d % '`csc.colptr`[`i`]' if '%s' in d else d for d in DONE], 'var': '`csc.cols` - `i`',
    },
   {'inv': ['`csc.colptr`[`i`] <= `j` <= `csc.colptr`[`i`+1]', WORK % '`j`'] + [d % '`j`' if '%s' in d else d for d in DONE], 'var': '`csc.colptr`[`i`+1] - `j`',
    'begin': ['place_range %s %s %s `j`' % (K, N, R), 'places_before %s %s %s `j` `j`' % (K, N, R)]},
  ],
  post=['rows_sorted %s `csc.colptr` `this.colids` %s %s `csc.cols` %s' % (K, N, R, R), 'assert { [@expl:the columns of every row come out in order] forall v. 0 <= v < %s -> row_sorted %s `this.colids` %s v }' % (R, K, N)],
  ensures=wfc('this', 'rowptr', 'colids', 'rows', 'cols') + ['`this.nnz` = %s' % N, '`this.rows` = %s' % R, '`this.cols` = `csc.cols`', '`this.zerobased`',
    'forall v. 0 <= v <= %s -> `this.rowptr`[v] = csum %s %s v' % (R, K, N)] + [d % N if '%s' in d else d for d in DONE]))
# the constructor that may also reinterpret the columns as rows
import copy
u = copy.deepcopy(UNITS[0])
u.update(name='CSR.fromCSC2', sigmatch=r'^void \(const CSC<.*> &, (const )?bool\)')
u['loops'] += [{'inv': ['0 <= `k`', '`k` <= `this.rows` + 1', '`this.rows` = 0 -> `k` = 0', 'forall x. 0 <= x < `k` -> `this.rowptr`[x] = `csc.colptr`[x]', 'forall x. `k` <= x <= `this.rows` -> `this.rowptr`[x] = 0'], 'var': '`this.rows` + 1 - `k`',
  'after': ['assert { `this.rows` > 0 -> `k` = `this.rows` + 1 /\\ `this.rowptr`[0] = 0 }', 'assert { `this.rows` > 0 -> `this.rowptr`[`this.rows`] = `csc.colptr`[`csc.cols`] }', 'assert { forall i. 0 <= i < `this.rows` -> `this.rowptr`[i] <= `this.rowptr`[i+1] }', 'assert { `this.rows` = 0 -> `this.nnz` = 0 }', 'assert { `this.rowptr`[0] = 0 }', 'assert { offsets `this.rowptr` `this.rows` `this.nnz` }']},
               {'inv': ['0 <= `k` <= `this.nnz`', 'forall x. 0 <= x < `k` -> `this.colids`[x] = `csc.rowids`[x] /\\ `this.values`[x] = `csc.values`[x]'], 'var': '`this.nnz` - `k`'}]
u['requires'] = [r.replace('`csc.nnz` > 0 -> offsets `csc.colptr` `csc.cols` `csc.nnz` /\\ `csc.colptr:len` >= `csc.cols` + 1', '(`csc.nnz` > 0 \\/ `csc.cols` > 0) -> offsets `csc.colptr` `csc.cols` `csc.nnz` /\\ `csc.colptr:len` >= `csc.cols` + 1') for r in u['requires']]
T = lambda e: 'not `transpose` -> (%s)' % e
pl = u['ensures']
u['ensures'] = [x for x in pl[:3]] + ['`this.nnz` = `csc.nnz`', '`this.zerobased`'] + [T(x) for x in pl[4:6] + pl[7:]] + [
  '`transpose` -> `this.rows` = `csc.cols` /\\ `this.cols` = `csc.rows`',
  '`transpose` -> `this.rows` > 0 -> forall x. 0 <= x <= `this.rows` -> `this.rowptr`[x] = `csc.colptr`[x]',
  '`transpose` -> forall x. 0 <= x < `this.nnz` -> `this.colids`[x] = `csc.rowids`[x] /\\ `this.values`[x] = `csc.values`[x]']
u['post'] = ['if not `transpose` then (%s)' % u['post'][0], u['post'][1].replace('] forall', '] not `transpose` -> forall')]
UNITS.append(u)
# CSR -> CSC, and transposition within one format
KC = '`csrColIdx`'
PC = lambda q: '(place %s `nnz` %s)' % (KC, q)
CD = ['forall q. 0 <= q < %%s -> `cscVal`[%s] = `csrVal`[q]' % PC('q'),
      'forall r q. 0 <= r < `m` -> 0 <= q -> `csrRowPtr`[r] <= q < `csrRowPtr`[r+1] -> q < %%s -> `cscRowIdx`[%s] = r' % PC('q')]
FOOT = '`csrRowPtr`[@I] <= entry_at %s `nnz` @X `nnz` < `csrRowPtr`[@I+1]' % KC
ROWFOOT = ('`csrRowPtr`[@I]', '`csrRowPtr`[@I+1]')
LOCAL = ['forall q. 0 <= q < %%s -> `dloc`[q] = cnt %s q %s[q]' % (KC, KC), 'forall v. 0 <= v < `n` -> `atomicColPtr`[v] = cnt %s %%s v' % KC]
FRAME = ['forall x. not (0 <= x < `nnz`) -> `cscVal`[x] = `cscVal@Entry`[x] /\\ `cscRowIdx`[x] = `cscRowIdx@Entry`[x]']
f1 = lambda l, v: [x % v if '%s' in x else x for x in l]
COLPTR = 'forall v. 0 <= v <= %%s -> `cscColPtr`[v] = csum %s `nnz` v' % KC
UNITS.append(dict(name='csr2csc', fn='csr2csc_atomic_nosort', targs=['long', 'double'], theories=['convs.Conv'], callable=False, base0=['csrRowPtr', 'csrColIdx', 'csrVal', 'cscColPtr', 'cscRowIdx', 'cscVal'], constptr=['csrRowPtr', 'csrColIdx', 'csrVal'],
  requires=['offsets `csrRowPtr` `m` `nnz`', '`nnz` >= 0', '`n` >= 0', '`csrRowPtr:len` >= `m` + 1', '`csrColIdx:len` >= `nnz`', '`csrVal:len` >= `nnz`', '`cscColPtr:len` >= `n` + 1', '`cscRowIdx:len` >= `nnz`', '`cscVal:len` >= `nnz`',
            'forall q. 0 <= q < `nnz` -> 0 <= `csrColIdx`[q] < `n`'],
  pre=['offsets_monos `csrRowPtr` `m` `nnz`', 'csum_offsets %s `nnz` `n`' % KC],
  loops=[{'inv': ['0 <= `i` <= `n`', 'forall x. 0 <= x < `i` -> `atomicColPtr`[x] = 0'], 'var': '`n` - `i`'},
         {'inv': ['0 <= `i` <= `m`'] + f1(LOCAL, '`csrRowPtr`[`i`]'), 'var': '`m` - `i`', 'foot': {'dloc': ROWFOOT}, 'foot_dom': ('0', '`m`')},
         {'inv': ['`csrRowPtr`[`i`] <= `j` <= `csrRowPtr`[`i`+1]'] + f1(LOCAL, '`j`'), 'var': '`csrRowPtr`[`i`+1] - `j`'},
         {'inv': ['0 <= `i` <= `n`', COLPTR % '`i`', 'forall v. not (0 <= v <= `n`) -> `cscColPtr`[v] = `cscColPtr@Entry`[v]'], 'var': '`n` - `i`'},
         {'inv': ['0 <= `i` <= `m`'] + f1(CD, '`csrRowPtr`[`i`]') + FRAME, 'var': '`m` - `i`', 'foot': {'cscRowIdx': FOOT, 'cscVal': FOOT, 'dloc': ROWFOOT}, 'foot_dom': ('0', '`m`')},
         {'inv': ['`csrRowPtr`[`i`] <= `j` <= `csrRowPtr`[`i`+1]'] + f1(CD, '`j`') + FRAME, 'var': '`csrRowPtr`[`i`+1] - `j`',
          'begin': ['place_range %s `nnz` `n` `j`' % KC, 'places_before %s `nnz` `n` `j` `j`' % KC, 'entry_at_place %s `nnz` `n` `j`' % KC]}],
  ensures=['offsets `cscColPtr` `n` `nnz`', COLPTR % '`n`', 'forall v. not (0 <= v <= `n`) -> `cscColPtr`[v] = (old `cscColPtr`)[v]', 'forall x. not (0 <= x < `nnz`) -> `cscVal`[x] = (old `cscVal`)[x] /\\ `cscRowIdx`[x] = (old `cscRowIdx`)[x]'] + f1(CD, '`nnz`')))
# CSC from arrays, from triples, from tuples
def cscctor(name, sig, K, Rm, V, params, nnz, rows, cols, extra=[], targs=None, begin=[], **kw):
    PLQ = '(place %s %s q)' % (K, nnz)
    WK = lambda k: 'forall v. 0 <= v < %s -> `work`[v] = csum %s %s v + cnt %s %s v' % (cols, K, nnz, K, k)
    PLACED = lambda k: 'placed %s %s %s `tosort.first` `tosort.second` %s %s' % (K, Rm, V, nnz, k)
    CP = 'forall v. 0 <= v <= %s -> `this.colptr`[v] = csum %s %s v' % (cols, K, nnz)
    return dict(name=name, fn='CSC', cls='CSC<long, double>', sigmatch=sig, theories=['convs.Conv'], callable=False, uses=['CumulativeSum'], zeroed=True, pre=['csum_offsets %s 0 %s' % (K, cols)],
      requires=['%s >= 0' % x for x in (nnz, rows, cols)] + ['forall q. 0 <= q < %s -> 0 <= %s[q] < %s /\\ 0 <= %s[q] < %s' % (nnz, K, cols, Rm, rows)] + extra,
      loops=[
       {'inv': ['0 <= `k` <= %s' % nnz, 'forall v. 0 <= v < %s -> `work`[v] = cnt %s `k` v' % (cols, K)], 'var': '%s - `k`' % nnz,
        'after': ['sums_csum `work` %s %s %s %s' % (K, nnz, cols, cols), 'csum_offsets %s %s %s' % (K, nnz, cols)]},
       {'pre': ['assert { %s }' % CP, 'offsets_monos `this.colptr` %s %s' % (cols, nnz)],
        'inv': ['0 <= `k` <= %s' % nnz, WK('`k`'), PLACED('`k`')], 'var': '%s - `k`' % nnz,
        'begin': ['place_range %s %s %s `k`' % (K, nnz, cols), 'places_before %s %s %s `k` `k`' % (K, nnz, cols)]},
       {'pre': ['let f0 = `tosort.first` in', 'let g0 = `tosort.second` in'],
        'inv': ['0 <= `i` <= %s' % cols, 'forall x. `this.colptr`[`i`] <= x < %s -> `tosort.first`[x] = f0[x] /\\ `tosort.second`[x] = g0[x]' % nnz,
                'forall c. 0 <= c < `i` -> colok f0 g0 `this.rowids` `this.values` `this.colptr` c'], 'var': '%s - `i`' % cols,
        'begin': ['let o1 = `this.rowids` in', 'let u1 = `this.values` in', 'let f1 = `tosort.first` in', 'let g1 = `tosort.second` in'],
        'end': ['colok_frames f0 g0 o1 u1 `this.rowids` `this.values` `this.colptr` %s %s `i`' % (cols, nnz),
                'colok_new f0 g0 f1 g1 `tosort.first` `tosort.second` `this.rowids` `this.values` `this.colptr` `i`'],
        'foot': {x: ('`this.colptr`[@I]', '`this.colptr`[@I+1]') for x in ('tosort', 'this.rowids', 'this.values')}, 'foot_dom': ('0', cols)},
       {'inv': ['`this.colptr`[`i`] <= `ind` <= `this.colptr`[`i`+1]', '`itr:off` = `ind`',
                'forall x. `this.colptr`[`i`] <= x < `ind` -> `this.rowids`[x] = `tosort.first`[x] /\\ `this.values`[x] = `tosort.second`[x]',
                'forall x. not (`this.colptr`[`i`] <= x < `ind`) -> `this.rowids`[x] = o1[x] /\\ `this.values`[x] = u1[x]'], 'var': '`this.colptr`[`i`+1] - `ind`'},
      ],
      ensures=['`this.nnz` = %s' % nnz, '`this.rows` = %s' % rows, '`this.cols` = %s' % cols, 'offsets `this.colptr` %s %s' % (cols, nnz), CP, '`this.colptr:len` >= %s + 1 /\\ `this.rowids:len` >= %s /\\ `this.values:len` >= %s' % (cols, nnz, nnz),
               '%s > 0 -> exists f g. placed %s %s %s f g %s %s /\\ forall c. 0 <= c < %s -> colok f g `this.rowids` `this.values` `this.colptr` c' % (nnz, K, Rm, V, nnz, nnz, cols)],
      **kw)
UNITS.append(cscctor('CSC.fromArrays', r'^void \(long \*, long \*, double \*, long, long, long\)', '`ci`', '`ri`', '`val`', [], '`mynnz`', '`m`', '`n`',
  extra=['`mynnz` <> 0', '`m` <> 0', '`ri:len` >= `mynnz`', '`ci:len` >= `mynnz`', '`val:len` >= `mynnz`'], base0=['ri', 'ci', 'val'], constptr=['ri', 'ci', 'val']))
UNITS.append(cscctor('CSC.fromTriples', r'^void \(Triple<.*> \*, long, long, long\)', '`triples.col`', '`triples.row`', '`triples.val`', [], '`mynnz`', '`m`', '`n`',
  extra=['`triples:len` >= `mynnz`'], base0=['triples'], constptr=['triples']))
UNITS.append(cscctor('CSC.fromTuples', r'^void \((std::)?vector<(std::)?tuple<.*> &, long, long, .*\)', '`tuple.1`', '`tuple.0`', '`tuple.2`', [], '`tuple:len`', '`m`', '`n`'))
def edges():
    K, m, n = '`edges.second`', '`mynnz`', '`n`'
    u = cscctor('CSC.fromEdges', r'^void \((std::)?vector<(std::)?pair<.*>, long, long, long\)', K, '`edges.first`', '`edges.first`', [], m, '`m`', n, extra=['`edges:len` >= `mynnz`'], sortperm=True)
    P = lambda k: 'placed %s `edges.first` `edges.first` `this.rowids` `this.rowids` %s %s' % (K, m, k)
    u['loops'][1]['inv'][2] = P('`k`')
    u['loops'][2] = {'pre': ['let f0 = `this.rowids` in'],
        'inv': ['0 <= `i` <= `n`', 'forall x. `this.colptr`[`i`] <= x < %s -> `this.rowids`[x] = f0[x]' % m,
                'forall c. 0 <= c < `i` -> colok f0 f0 `this.rowids` `this.rowids` `this.colptr` c'], 'var': '`n` - `i`',
        'begin': ['let o1 = `this.rowids` in'],
        'end': ['colok_frames f0 f0 o1 o1 `this.rowids` `this.rowids` `this.colptr` `n` %s `i`' % m,
                'colok_new f0 f0 o1 o1 `this.rowids` `this.rowids` `this.rowids` `this.rowids` `this.colptr` `i`'],
        'foot': {'this.rowids': ('`this.colptr`[@I]', '`this.colptr`[@I+1]')}, 'foot_dom': ('0', '`n`')}
    u['loops'][3] = {'inv': ['0 <= `k` <= %s' % m, 'forall x. 0 <= x < `k` -> `this.values`[x] = (nt_of_int 1)'], 'var': '%s - `k`' % m}
    u['ensures'][-1] = '%s > 0 -> exists f. placed %s `edges.first` `edges.first` f f %s %s /\\ forall c. 0 <= c < `n` -> colok f f `this.rowids` `this.rowids` `this.colptr` c' % (m, K, m, m)
    u['ensures'] += ['forall x. 0 <= x < %s -> `this.values`[x] = (nt_of_int 1)' % m]
    return u
UNITS.append(edges())
