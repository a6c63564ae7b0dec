# Contracts for the building blocks of the drivers: spgemm-blocks/common.h
from common import *
UNITS = []
DWARGS = '`accumWorkPerRow` `totalWork` `nrows` `numThreads`'
UNITS.append({'name': 'distributeWork', 'fn': 'distributeWork', 'targs': ['long'], 'theories': ['dist.Dist'], 'base0': ['accumWorkPerRow'],
  'requires': ['`numThreads` >= 1', '0 <= `thisThread` < `numThreads`', '`totalWork` >= 0', '0 <= `nrows` <= `accumWorkPerRow:len`', 'sorted_le `accumWorkPerRow` 0 `nrows`'],
  'ensures': ['let (b, e) = result in b = dw %s `thisThread` /\\ e = dw %s (`thisThread` + 1)' % (DWARGS, DWARGS)],})

# ---------------------------------------------------------------- work estimates (C10)
RFL = lambda i: 'rfl `A.colids` `B.rowptr` `A.rowptr`[%s] `A.rowptr`[%s+1]' % (i, i)
MFL = lambda i: 'mfl `A.rowptr` `A.colids` `B.rowptr` `M.rowptr` %s' % i
TFL = 'tfl `A.rowptr` `A.colids` `B.rowptr`'
WF_AB = wf('A') + wf('B') + ['`A.cols` = `B.rows`']
WF_ABMs = WF_AB + wf('M') + ['`M.rows` = `A.rows`', '`M.cols` = `B.cols`']
def wfc(m): return ['wf_rowptr `%s.colptr` `%s.cols` `%s.nnz`' % (m, m, m), 'in_range `%s.rowids` `%s.nnz` `%s.rows`' % (m, m, m),
    '`%s.colptr:len` >= `%s.cols` + 1' % (m, m), '`%s.rowids:len` >= `%s.nnz`' % (m, m), '`%s.values:len` >= `%s.nnz`' % (m, m), '`%s.rows` >= 0' % m]
INNER = lambda v, ac, lo, hi: {'inv': [between(lo, '`j`', hi), '%s = rfl `A.colids` `B.rowptr` (%s) `j`' % (v, lo)], 'var': '%s - `j`' % hi}
for two in (False, True):
    UNITS.append({'name': 'calculateMultOps', 'fn': 'calculateMultOps', 'targs': ['long', 'double'], 'nparams': 3, 'theories': ['spec.Spec', 'work.Work'],
      'requires': WF_AB + ['`numThreads` >= 0'],
      'ensures': ['result = %s `A.rows`' % TFL],
      'loops': [{'inv': ['0 <= `i` <= `A.rows`', '`nops` = %s `i`' % TFL], 'var': '`A.rows` - `i`'},
                INNER('`nopsRow`', None, '`A.rowptr`[`i`]', '`A.rowptr`[`i`+1]')]})
    break
FR = ['forall i. not (0 <= i < `A.rows`) -> `flopsPerRow`[i] = (old `flopsPerRow`)[i]']
for masked in (False, True):
    S = MFL if masked else RFL
    UNITS.append({'name': 'calculateFlops' + ('Masked' if masked else ''), 'fn': 'calculateFlops', 'targs': ['long', 'double'], 'nparams': 5 if masked else 4, 'theories': ['spec.Spec', 'work.Work'],
      'base0': ['flopsPerRow'],
      'requires': (WF_ABMs if masked else WF_AB) + ['`numThreads` >= 1', '`flopsPerRow:len` >= `A.rows`'],
      'ensures': ['forall i. 0 <= i < `A.rows` -> `flopsPerRow`[i] = %s' % S('i'), 'result = sum `flopsPerRow` 0 `A.rows`', 'forall i. 0 <= i < `A.rows` -> 0 <= `flopsPerRow`[i]'] + FR,
      'loops': [{'inv': ['0 <= `i` <= `A.rows`', 'forall x. 0 <= x < `i` -> `flopsPerRow`[x] = %s /\\ 0 <= `flopsPerRow`[x]' % S('x'), '`flops` = sum `flopsPerRow` 0 `i`',
                         'forall x. not (0 <= x < `A.rows`) -> `flopsPerRow`[x] = `flopsPerRow@Entry`[x]'], 'var': '`A.rows` - `i`',
                 'begin': ['rfl_pos `A.colids` `B.rowptr` (`A.rowptr`[`i`]) (`A.rowptr`[`i`+1])'],
                 'end': []},
                INNER('`flopsRow`', None, '`A.rowptr`[`i`]', '`A.rowptr`[`i`+1]')]})

# ---------------------------------------------------------------- work of the inner-product algorithm
WF_ABcM = wf('A') + wfc('B') + wf('M') + ['`A.cols` = `B.rows`', '`M.rows` = `A.rows`', '`M.cols` = `B.cols`']
LA = lambda i: '(`A.rowptr`[%s+1] - `A.rowptr`[%s])' % (i, i)
DWK = lambda i, hi=None: 'dwk %s `M.colids` `B.colptr` `M.rowptr`[%s] %s' % (LA(i), i, hi or '`M.rowptr`[%s+1]' % i)
UNITS.append({'name': 'calculateWork', 'fn': 'calculateWork', 'targs': ['long', 'double'], 'nparams': 5, 'theories': ['spec.Spec', 'work.Work'], 'base0': ['workPerRow'],
  'requires': WF_ABcM + ['`numThreads` >= 1', '`workPerRow:len` >= `M.rows`'],
  'ensures': ['forall i. 0 <= i < `M.rows` -> `workPerRow`[i] = %s' % DWK('i'), 'result = sum `workPerRow` 0 `M.rows`', 'forall i. 0 <= i < `M.rows` -> 0 <= `workPerRow`[i]',
              'forall i. not (0 <= i < `M.rows`) -> `workPerRow`[i] = (old `workPerRow`)[i]'],
  'loops': [{'inv': ['0 <= `i` <= `M.rows`', 'forall x. 0 <= x < `i` -> `workPerRow`[x] = %s /\\ 0 <= `workPerRow`[x]' % DWK('x'), '`work` = sum `workPerRow` 0 `i`',
                     'forall x. not (0 <= x < `M.rows`) -> `workPerRow`[x] = `workPerRow@Entry`[x]'], 'var': '`M.rows` - `i`',
             'begin': ['dwk_pos %s `M.colids` `B.colptr` (`M.rowptr`[`i`]) (`M.rowptr`[`i`+1])' % LA('`i`')]},
            {'inv': [between('`M.rowptr`[`i`]', '`j`', '`M.rowptr`[`i`+1]'), '`workRow` = %s' % DWK('`i`', '`j`')], 'var': '`M.rowptr`[`i`+1] - `j`'}]})
# ---------------------------------------------------------------- sizes derived from the estimates
TR = 'trank `A.rowptr` `A.colids` `A.values` `B.rowptr` `B.colids` `B.values` `M.rowptr` `M.colids`'
TCR = 'tcrank `A.rowptr` `A.colids` `A.values` `B.rowptr` `B.colids` `B.values` `M.rowptr` `M.colids` `B.cols`'
ROWI = AB + ' (`A.rowptr`[`row`]) (`A.rowptr`[`row`+1]) `M.colids` (`M.rowptr`[`row`]) (`M.rowptr`[`row`+1])'
SR = ['0 <= `rowBeginIdx`', '`rowEndIdx` <= `A.rows`', '`flopsPerRow:len` >= `A.rows`']
DISTALL = 'forall i. 0 <= i < `M.rows` -> distinct `M.colids` `M.rowptr`[i] `M.rowptr`[i+1]'
UNITS.append({'name': 'estimateResultSize', 'fn': 'estimateResultSize', 'targs': ['long', 'double'], 'theories': ['spec.Spec', 'work.Work'], 'base0': ['flopsPerRow'], 'constptr': ['flopsPerRow'],
  'requires': WF_ABMs + SR + [DISTALL, 'forall i. `rowBeginIdx` <= i < `rowEndIdx` -> `flopsPerRow`[i] >= %s' % MFL('i')],
  'ensures': ['result >= %s `rowBeginIdx` `rowEndIdx`' % TR],
  'loops': [{'inv': ['`rowBeginIdx` <= `row`', '`row` <= `rowEndIdx` \\/ `row` = `rowBeginIdx`', '`size` >= %s `rowBeginIdx` `row`' % TR], 'var': '`rowEndIdx` - `row`',
             'begin': ['rank_le_rfl ' + ROWI]}]})
B2 = {True: 'true', False: 'false'}
def scan_unit(comp, size, a, m, f):
    nm = 'scanInputs.%s' % ''.join('ft'[x] for x in (comp, size, a, m, f))
    T = TCR if comp else TR
    inv = ['`rowBeginIdx` <= `row`', '`row` <= `rowEndIdx` \\/ `row` = `rowBeginIdx`', '0 <= `sizeC`', '0 <= `maxRowSizeA`', '0 <= `maxRowSizeM`', '0 <= `maxRowFlops`']
    ens = ['let (s, a, m, f) = result in 0 <= s /\\ 0 <= a /\\ 0 <= m /\\ 0 <= f']
    def both(i, e): inv.append(i); ens.append('let (s, a, m, f) = result in ' + e)
    if size: both('`sizeC` >= %s `rowBeginIdx` `row`' % T, 's >= %s `rowBeginIdx` `rowEndIdx`' % T)
    for on, v, r, e in ((a, 'maxRowSizeA', 'a', '`A.rowptr`[x+1] - `A.rowptr`[x]'), (m, 'maxRowSizeM', 'm', '`M.rowptr`[x+1] - `M.rowptr`[x]'), (f, 'maxRowFlops', 'f', '`flopsPerRow`[x]')):
        if on: both('forall x. `rowBeginIdx` <= x < `row` -> %s <= `%s`' % (e, v), 'forall x. `rowBeginIdx` <= x < `rowEndIdx` -> %s <= %s' % (e, r))
    UNITS.append({'name': nm, 'fn': 'scanInputs', 'targs': [B2[x] for x in (comp, size, a, m, f)] + ['long', 'double'], 'theories': ['spec.Spec', 'work.Work'], 'base0': ['flopsPerRow'], 'constptr': ['flopsPerRow'],
      'requires': WF_ABMs + SR + [DISTALL, 'forall i. `rowBeginIdx` <= i < `rowEndIdx` -> `flopsPerRow`[i] >= %s /\\ `flopsPerRow`[i] >= 0' % (RFL('i') if comp else MFL('i'))],
      'ensures': ens,
      'loops': [{'inv': inv, 'var': '`rowEndIdx` - `row`', 'begin': ['crank_le_rfl ' + ROWI + ' `B.cols`' if comp else 'rank_le_rfl ' + ROWI]}]})
SCANS = []
for comp, a, m, f in ((False, False, False, False), (True, False, False, False), (False, False, True, False), (True, False, True, True), (False, True, False, False), (True, True, False, False), (False, True, True, True), (True, True, True, True)):
    for size in (True, False): scan_unit(comp, size, a, m, f); SCANS.append(UNITS[-1]['name'])
