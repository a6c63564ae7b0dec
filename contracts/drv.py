# Contracts for the drivers (C07): spgemm-blocks/masked-spgemm.h, for any row algorithm that meets the contract of AnyRow
from common import *
import blocks
UNITS = []
GCONST = ['`A.rows` = gm', '`A.rowptr` = gAp', '`A.colids` = gAc', '`A.values` = gAv', '`B.rowptr` = gBp', '`B.colids` = gBc', '`B.values` = gBv', '`M.rowptr` = gMp', '`M.colids` = gMc', '`B.cols` = gn']
ABST = 'row algorithm of a driver: any one whose numericRow, symbolicRow, setBuffer, releaseBuffer and getMemoryRequirement meet the contract of AnyRow (contracts/drv.py); C01-C06 and C11 prove the row contracts of the concrete ones'
TH = ['spec.Spec', 'work.Work', 'dist.Dist', 'drvs.Drv']
LENA, LENM = '(`A.rowptr`[`row`+1] - `A.rowptr`[`row`])', '(`M.rowptr`[`row`+1] - `M.rowptr`[`row`])'
REQ = lambda p: 'memreq `%smaxIndex` `%smA` `%smM` `%smF`' % (p, p, p, p)
UNITS.append({'name': 'AnyAcc.setBuffer', 'abstract': ABST, 'fn': 'setBuffer', 'cls': 'AnyAcc<long>', 'theories': TH,
  'requires': ['`buffer:off` = 0', '`bufferSize` <= `buffer:len`', REQ('this.') + ' <= `bufferSize`', '`dirty` = `bufferSize` \\/ `dirty` = released `bufferSize`'],
  'ensures': ['`this.ready` = 1', '`this.size` = `bufferSize`']})
UNITS.append({'name': 'AnyAcc.releaseBuffer', 'abstract': ABST, 'fn': 'releaseBuffer', 'cls': 'AnyAcc<long>', 'theories': TH,
  'requires': ['`this.ready` = 1'], 'ensures': ['`this.ready` = 0', 'result = released `this.size`', '0 <= result <= `this.size`', '`this.size` = old `this.size`']})
for x in 'PC':
    cls = 'AnyRow<long, double, %s>' % {'P': 'false', 'C': 'true'}[x]
    th = TH + ['drvs.Drv' + x]
    ROW = GCONST + ['0 <= `row` < `A.rows`', LENA + ' <= `this.%s.mA`', LENM + ' <= `this.%s.mM`', '`flops` <= `this.%s.mF`', '`flops` >= 1', '`this.%s.maxIndex` = gn', '`this.%s.ready` = 1']
    row = lambda w: [r.replace('%s', w) for r in ROW]
    UNITS.append({'name': 'AnyRow%s.getMemoryRequirement' % x, 'abstract': ABST, 'fn': 'getMemoryRequirement', 'cls': cls, 'theories': th,
      'ensures': ['let (s, a) = result in s >= %s /\\ s >= %s /\\ s >= 0 /\\ a >= 1' % (REQ('this.num.'), REQ('this.sym.'))]})
    RFL = 'rfl `A.colids` `B.rowptr` `A.rowptr`[`row`] `A.rowptr`[`row`+1]'
    UNITS.append({'name': 'AnyRow%s.symbolicRow' % x, 'abstract': ABST, 'fn': 'symbolicRow', 'cls': cls, 'theories': th,
      'requires': row('sym') + ['`rowNvals:off` = 0', '`row` < `rowNvals:len`', '`flops` >= ' + RFL],
      'ensures': ['`rowNvals`[`row`] = rz[`row`]', 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]']})
    UNITS.append({'name': 'AnyRow%s.numericRow' % x, 'abstract': ABST, 'fn': 'numericRow', 'cls': cls, 'targs': ['Mul', 'Add'], 'theories': th,
      'requires': row('num') + ['`flops` >= rz[`row`]', '`currColId:off` >= 0', '`currValue:off` >= 0', '`currColId:off` + rz[`row`] <= `currColId:len`', '`currValue:off` + rz[`row`] <= `currValue:len`'],
      'ensures': ['`currColId:off` = old `currColId:off` + rz[`row`]', '`currValue:off` = old `currValue:off` + rz[`row`]',
                  'forall i. `currColId`[i] = (if old `currColId:off` <= i < `currColId:off` then rcol `row` (i - old `currColId:off`) else (old `currColId`)[i])',
                  'forall i. `currValue`[i] = (if old `currValue:off` <= i < `currValue:off` then rval `row` (i - old `currValue:off`) else (old `currValue`)[i])']})
UNITS.append({'name': 'setNumThreads', 'fn': 'setNumThreads', 'nparams': 1, 'theories': ['spec.Spec'],
  'ensures': ['if old `numThreads` = 0 then 1 <= `numThreads` <= 65536 else `numThreads` = old `numThreads`'], 'parallel': [{'team': 'numThreads'}]})
UNITS.append({'name': 'initC', 'fn': 'initC', 'nparams': 5, 'sigmatch': 'const CSR<long, double> &, const CSR<long, double> &', 'theories': ['dist.Dist'], 'base0': ['threadsNvals'], 'constptr': ['threadsNvals'],
  'requires': ['0 <= `A.rows`', '0 <= `numThreads` <= `threadsNvals:len`', '0 <= sum `threadsNvals` 0 `numThreads`'],
  'ensures': ['`C.rows` = `A.rows`', '`C.cols` = `B.cols`', '`C.nnz` = sum `threadsNvals` 0 `numThreads`', '`C.rowptr:len` = `A.rows` + 1', '`C.colids:len` = `C.nnz`', '`C.values:len` = `C.nnz`']})
INITC = UNITS[-1]
for o, al in (('A', {'C': 'A'}), ('B', {'C': 'B'}), ('all', {'B': 'A', 'C': 'A'})):
    u = dict(INITC); u['name'] = 'initC.into' + o; u['alias'] = al; o = al['C']; u['mutable'] = [o]
    u['ensures'] = ['`%s.rows` = old `A.rows`' % o, '`%s.cols` = old `B.cols`' % o] + [x.replace('`C.', '`%s.' % o).replace('`A.rows`', '(old `A.rows`)') for x in u['ensures'][2:]]
    UNITS.append(u)
u = dict(INITC); u['name'] = 'initC.I'; u['sigmatch'] = 'const CSR<long, double> &, const CSC<long, double> &'; UNITS.append(u)
u = dict(next(v for v in UNITS if v['name'] == 'initC.intoA')); u['name'] = 'initC.I.intoA'; u['sigmatch'] = 'const CSR<long, double> &, const CSC<long, double> &'; UNITS.append(u)
SRO = 'sum `threadsNvals` 0 `thisThread` + sum `rowNvals` `rowBeginIdx` '
UNITS.append({'name': 'setRowOffsets', 'fn': 'setRowOffsets', 'nparams': 7, 'targs': ['long', 'double'], 'theories': ['dist.Dist'], 'base0': ['threadsNvals', 'rowNvals'], 'constptr': ['threadsNvals', 'rowNvals'],
  'requires': ['0 <= `rowBeginIdx` <= `rowEndIdx` <= `C.rows`', '`C.rows` < `C.rowptr:len`', '`rowEndIdx` <= `rowNvals:len`', '0 <= `thisThread` < `numThreads` <= `threadsNvals:len`', '`thisThread` = `numThreads` - 1 -> `rowEndIdx` = `C.rows`'],
  'ensures': ['forall i. `rowBeginIdx` <= i < `rowEndIdx` -> `C.rowptr`[i] = %s i' % SRO, '`thisThread` = `numThreads` - 1 -> `C.rowptr`[`C.rows`] = %s `rowEndIdx`' % SRO,
              'forall i. not (`rowBeginIdx` <= i < `rowEndIdx`) -> not (`thisThread` = `numThreads` - 1 /\\ i = `C.rows`) -> `C.rowptr`[i] = (old `C.rowptr`)[i]'],
  'loops': [{'inv': ['`rowBeginIdx` <= `i` <= `rowEndIdx`', '`rowPtrOffset` = %s `i`' % SRO, 'forall x. `rowBeginIdx` <= x < `i` -> `C.rowptr`[x] = %s x' % SRO, 'forall x. not (`rowBeginIdx` <= x < `i`) -> `C.rowptr`[x] = `C.rowptr@Entry`[x]'], 'var': '`rowEndIdx` - `i`'}]})
DWA = '`cumulativeWork` `flops` gm `numThreads`'
DW = lambda t: '(dw %s %s)' % (DWA, t)
FB = lambda t: '(fb %s %s)' % (DWA, t)
RB, RE = DW('`tid`'), DW('(`tid`+1)')
for x in 'PC':
    c = 'f' if x == 'P' else 't'
    AFTERSCAN = ['rz_bound `flopsPerRow` gm', 'prefix_sorted `flopsPerRow` `cumulativeWork` gm']
    CPOST = lambda C: ['`%s.rows` = gm' % C, '`%s.cols` = gn' % C, '`%s.nnz` = sum rz 0 gm' % C, '`%s.rowptr:len` >= gm + 1' % C, '`%s.colids:len` >= `%s.nnz`' % (C, C), '`%s.values:len` >= `%s.nnz`' % (C, C)]
    ENS = CPOST('C') + ['forall r. 0 <= r <= gm -> `C.rowptr`[r] = sum rz 0 r', 'forall e. 0 <= e < `C.nnz` -> `C.colids`[e] = fcol 0 gm e', 'forall e. 0 <= e < `C.nnz` -> `C.values`[e] = fval 0 gm e']
    REQS = blocks.WF_ABMs + [blocks.DISTALL] + GCONST + ['0 <= `numThreads`']
    USES = ['AnyAcc.setBuffer', 'AnyAcc.releaseBuffer', 'AnyRow%s.getMemoryRequirement' % x, 'AnyRow%s.symbolicRow' % x, 'AnyRow%s.numericRow' % x,
            'calculateFlops' + ('Masked' if x == 'P' else ''), 'exclusiveScan', 'distributeWork', 'setNumThreads', 'initC', 'setRowOffsets']
    BEGIN = AFTERSCAN + ['dw_step %s `tid`' % DWA, 'fb_ordered ' + DWA, 'f_piece %s %s gm' % (RB, RE)]
    OWN0 = {'rowNvals': (RB, RE), 'threadsNvals': ('`tid`', '`tid` + 1')}
    OWNC = lambda C: {C + '.rowptr': (RB, '(if `tid` = `numThreads` - 1 then gm + 1 else %s)' % RE), C + '.colids': (FB('`tid`'), FB('(`tid`+1)')), C + '.values': (FB('`tid`'), FB('(`tid`+1)'))}
    GUAR0 = ['`threadsNvals`[`tid`] = sum rz %s %s' % (RB, RE), 'forall r. %s <= r < %s -> `rowNvals`[r] = rz[r]' % (RB, RE)]
    HINT = {0: ['sum_threads rz `threadsNvals` %s `numThreads`' % DWA, 'sum_threads rz `threadsNvals` %s `tid`' % DWA, 'sum_eq_all `rowNvals` rz %s %s' % (RB, RE), 'sum_app_all rz 0 %s %s' % (RB, RE), 'sum_mono 0 gm']}
    POST = lambda C: CPOST(C) + ['forall r. %s <= r < %s -> `%s.rowptr`[r] = sum rz 0 r' % (RB, RE, C), '`tid` = `numThreads` - 1 -> `%s.rowptr`[gm] = sum rz 0 gm' % C,
          'forall e. %s <= e < %s -> `%s.colids`[e] = fcol 0 gm e' % (FB('`tid`'), FB('(`tid`+1)'), C), 'forall e. %s <= e < %s -> `%s.values`[e] = fval 0 gm e' % (FB('`tid`'), FB('(`tid`+1)'), C)]
    AFTER = AFTERSCAN + ['partition_covers ' + DWA, 'fb_covers ' + DWA, 'fb_ordered ' + DWA]
    def after(C): return AFTER + ['assert { [@expl:every row is set by its thread] forall r. 0 <= r < gm -> let t = owner %s r (`numThreads` - 1) in 0 <= t < `numThreads` /\\ %s <= r < %s /\\ `%s.rowptr`[r] = sum rz 0 r }' % (DWA, DW('t'), DW('(t+1)'), C),
        'assert { [@expl:the last thread closes the row offsets] let t = `numThreads` - 1 in 0 <= t < `numThreads` -> `%s.rowptr`[gm] = sum rz 0 gm }' % C] + [
        'assert { [@expl:every entry is copied by its thread] forall e. 0 <= e < `%s.nnz` -> let t = fown %s e (`numThreads` - 1) in 0 <= t < `numThreads` /\\ %s <= e < %s /\\ `%s.%s`[e] = %s 0 gm e }' % (C, DWA, FB('t'), FB('(t+1)'), C, fl, fn) for fl, fn in (('colids', 'fcol'), ('values', 'fval'))]
    LOCAL = ['forall e. 0 <= e < sum rz %s %s -> `%s`[e] = %s %s %s e']
    SETOFF = {'inv': ['%s <= `i` <= %s' % (RB, RE), '`rowPtrOffset` = sum rz 0 `i`', 'forall r. %s <= r < `i` -> `C.rowptr`[r] = sum rz 0 r' % RB], 'var': RE + ' - `i`'}
    UNITS.append({'name': 'MaskedSpGEMM1p.' + x, 'fn': 'MaskedSpGEMM1p', 'bodymatch': 'AnyRow<long, double, %s>' % {'P': 'false', 'C': 'true'}[x], 'nparams': 7, 'theories': TH + ['drvs.Drv' + x],
      'uses': USES + ['scanInputs.%stttt' % c], 'requires': REQS, 'ensures': ENS,
      'parallel': {'nthreads': '`numThreads`', 'shared': ['rowNvals', 'threadsNvals', 'C.rowptr', 'C.colids', 'C.values', 'flopsPerRow', 'cumulativeWork'],
        'begin': BEGIN + ['tr_sum %s %s' % (RB, RE)],
        'own': [OWN0, {}, OWNC('C')], 'master': {1: True}, 'master_writes': ['C'], 'hint': HINT,
        'guar': [GUAR0, CPOST('C'), []], 'post': POST('C'), 'after': after('C')},
      'loops': [
        {'inv': ['%s <= `row` <= %s' % (RB, RE), '`currColId:off` = sum rz %s `row`' % RB, '`currValue:off` = sum rz %s `row`' % RB,
                 'forall r. %s <= r < `row` -> `rowNvals`[r] = rz[r]' % RB,
                 'forall e. 0 <= e < sum rz %s `row` -> `colIdsLocal`[e] = fcol %s `row` e' % (RB, RB), 'forall e. 0 <= e < sum rz %s `row` -> `valuesLocal`[e] = fval %s `row` e' % (RB, RB), '`alg.num.ready` = 1', '`alg.num.size` = `bufferSize`'], 'var': RE + ' - `row`',
         'begin': ['sum_app rz %s `row` %s' % (RB, RE), 'sum_app rz %s (`row`+1) %s' % (RB, RE), 'sum_mono `row` %s' % RE, 'sum_mono (`row`+1) %s' % RE, 'sum_mono %s `row`' % RB]}]})
    SYM = {'inv': ['%s <= `row` <= %s' % (RB, RE), '`nvals` = sum rz %s `row`' % RB, 'forall r. %s <= r < `row` -> `rowNvals`[r] = rz[r]' % RB, '`alg.sym.ready` = 1', '`alg.sym.size` = `bufferSize`'], 'var': RE + ' - `row`'}
    STEP = ['sum_app rz %s `row` %s' % (RB, RE), 'sum_app rz %s (`row`+1) %s' % (RB, RE), 'sum_mono `row` %s' % RE, 'sum_mono (`row`+1) %s' % RE, 'sum_mono %s `row`' % RB]
    UNITS.append({'name': 'MaskedSpGEMM2p.' + x, 'fn': 'MaskedSpGEMM2p', 'bodymatch': 'AnyRow<long, double, %s>' % {'P': 'false', 'C': 'true'}[x], 'nparams': 7, 'theories': TH + ['drvs.Drv' + x],
      'uses': USES + ['scanInputs.%sfttt' % c], 'requires': REQS, 'ensures': ENS,
      'parallel': {'nthreads': '`numThreads`', 'shared': ['rowNvals', 'threadsNvals', 'R.rowptr', 'R.colids', 'R.values', 'flopsPerRow', 'cumulativeWork'],
        'begin': BEGIN,
        'own': [OWN0, {}, OWNC('R')], 'master': {1: True}, 'master_writes': ['R'], 'hint': HINT,
        'guar': [GUAR0, CPOST('R'), []], 'post': POST('R'), 'after': after('R')},
      'loops': [SYM,
        {'inv': ['%s <= `row` <= %s' % (RB, RE), '%s < %s -> `currColId:off` = sum rz 0 `row` /\\ `currValue:off` = sum rz 0 `row`' % (RB, RE),
                 'forall e. %s <= e < sum rz 0 `row` -> `R.colids`[e] = fcol 0 gm e' % FB('`tid`'), 'forall e. %s <= e < sum rz 0 `row` -> `R.values`[e] = fval 0 gm e' % FB('`tid`'), '`alg.num.ready` = 1', '`alg.num.size` = `bufferSize`'], 'var': RE + ' - `row`',
         'begin': ['f_row `row` gm', 'sum_mono (`row`+1) gm', 'sum_mono %s `row`' % RB, 'sum_mono `row` (`row`+1)', 'sum_mono (`row`+1) %s' % RE]}]})
# the output may be one of the operands (initC says so): the same contract with C standing for A, B or M
for base, o, al in (('1p', 'A', {'C': 'A'}), ('1p', 'B', {'C': 'B'}), ('1p', 'M', {'M': 'C'}), ('1p', 'all', {'B': 'A', 'C': 'A', 'M': 'A'}), ('2p', 'A', {'C': 'A'})):
    u = dict(next(v for v in UNITS if v['name'] == 'MaskedSpGEMM%s.P' % base)); u['name'] += '.into' + o; u['alias'] = al; u['mutable'] = [al['C']] if 'C' in al else []
    if base == '1p' and o != 'M': u['uses'] = [x + '.into' + o if x == 'initC' else x for x in u['uses']]
    UNITS.append(u)
# ---------------------------------------------------------------- inner-product drivers: masked-spgemm-inner.h, with the rows of MaskedInner (C06)
IGCONST = ['`A.rows` = gm', '`B.cols` = gn', '`A.rowptr` = gAp', '`A.colids` = gAc', '`A.values` = gAv', '`B.colptr` = gBp', '`B.rowids` = gBc', '`B.values` = gBv', '`M.rowptr` = gMp', '`M.colids` = gMc']
IREQ = blocks.WF_ABcM + IGCONST + ['forall r. 0 <= r < gm -> sorted_lt `A.colids` `A.rowptr`[r] `A.rowptr`[r+1]', 'forall c. 0 <= c < `B.cols` -> sorted_lt `B.rowids` `B.colptr`[c] `B.colptr`[c+1]', '0 <= `numThreads`']
DWA = '`cumulativeWork` `work` gm `numThreads`'
RB, RE = DW('`tid`'), DW('(`tid`+1)')
OWN0 = {'rowNvals': (RB, RE), 'threadsNvals': ('`tid`', '`tid` + 1')}
AFTERSCAN = ['rz_bound gm', 'prefix_sorted `workPerRow` `cumulativeWork` gm']
AFTER = AFTERSCAN + ['partition_covers ' + DWA, 'fb_covers ' + DWA, 'fb_ordered ' + DWA]
BEGIN = AFTERSCAN + ['dw_step %s `tid`' % DWA, 'fb_ordered ' + DWA, 'f_piece %s %s gm' % (RB, RE)]
GUAR0 = ['`threadsNvals`[`tid`] = sum rz %s %s' % (RB, RE), 'forall r. %s <= r < %s -> `rowNvals`[r] = rz[r]' % (RB, RE)]
HINT = {0: ['sum_threads rz `threadsNvals` %s `numThreads`' % DWA, 'sum_threads rz `threadsNvals` %s `tid`' % DWA, 'sum_eq_all `rowNvals` rz %s %s' % (RB, RE), 'sum_app_all rz 0 %s %s' % (RB, RE), 'sum_mono 0 gm']}
IUSES = ['MaskedInner.numericRow', 'MaskedInner.symbolicRow', 'calculateWork', 'exclusiveScan', 'distributeWork', 'setNumThreads', 'initC.I', 'setRowOffsets']
STEP = ['sum_app rz %s `row` %s' % (RB, RE), 'sum_app rz %s (`row`+1) %s' % (RB, RE), 'sum_mono `row` %s' % RE, 'sum_mono (`row`+1) %s' % RE, 'sum_mono %s `row`' % RB]
MB = 'gMp[%s]' % RB
SHARED = ['rowNvals', 'threadsNvals', 'C.rowptr', 'C.colids', 'C.values', 'workPerRow', 'cumulativeWork']
UNITS.append({'name': 'MaskedSpGEMM1p.I', 'fn': 'MaskedSpGEMM1p', 'bodymatch': 'MaskedInner<long, double', 'nparams': 7, 'theories': TH + ['dot.Dot', 'drvs.DrvI'],
  'uses': IUSES, 'requires': IREQ, 'ensures': ENS,
  'parallel': {'nthreads': '`numThreads`', 'shared': SHARED + ['colIds', 'values'], 'begin': BEGIN + ['fits %s %s' % (RB, RE)],
    'own': [dict(OWN0, colIds=(MB, 'gMp[%s]' % RE), values=(MB, 'gMp[%s]' % RE)), {}, OWNC('C')], 'master': {1: True}, 'master_writes': ['C'], 'hint': HINT,
    'guar': [GUAR0 + ['forall x. %s <= x < %s + sum rz %s %s -> `colIds`[x] = fcol %s %s (x - %s)' % (MB, MB, RB, RE, RB, RE, MB), 'forall x. %s <= x < %s + sum rz %s %s -> `values`[x] = fval %s %s (x - %s)' % (MB, MB, RB, RE, RB, RE, MB)], CPOST('C'), []], 'post': POST('C'), 'after': after('C')},
  'loops': [
    {'inv': ['%s <= `row` <= %s' % (RB, RE), '`currColId:off` = %s + sum rz %s `row`' % (MB, RB), '`currValue:off` = %s + sum rz %s `row`' % (MB, RB),
             'forall r. %s <= r < `row` -> `rowNvals`[r] = rz[r]' % RB,
             'forall x. %s <= x < %s + sum rz %s `row` -> `colIds`[x] = fcol %s `row` (x - %s)' % (MB, MB, RB, RB, MB), 'forall x. %s <= x < %s + sum rz %s `row` -> `values`[x] = fval %s `row` (x - %s)' % (MB, MB, RB, RB, MB)], 'var': RE + ' - `row`',
     'begin': ['let oc = `currColId:off` in', 'let ov = `currValue:off` in'] + STEP + ['fits %s (`row`+1)' % RB], 'end': ['row_content `colIds` `values` oc ov `row`']}]})
UNITS.append({'name': 'MaskedSpGEMM2p.I', 'fn': 'MaskedSpGEMM2p', 'bodymatch': 'MaskedInner<long, double', 'nparams': 7, 'theories': TH + ['dot.Dot', 'drvs.DrvI'],
  'uses': IUSES, 'requires': IREQ, 'ensures': ENS,
  'parallel': {'nthreads': '`numThreads`', 'shared': [x.replace('C.', 'R.') for x in SHARED], 'begin': BEGIN, 'own': [OWN0, {}, dict(OWNC('R'), rowNvals=OWN0['rowNvals'])], 'master': {1: True}, 'master_writes': ['R'], 'hint': HINT,
    'guar': [GUAR0, CPOST('R'), []], 'post': POST('R'), 'after': after('R')},
  'loops': [{'inv': ['%s <= `row` <= %s' % (RB, RE), '`nvals` = sum rz %s `row`' % RB, 'forall r. %s <= r < `row` -> `rowNvals`[r] = rz[r]' % RB], 'var': RE + ' - `row`', 'begin': ['if `workPerRow`[`row`] = 0 then irk_zero `row` gMp[`row`+1]']},
    {'inv': ['%s <= `row` <= %s' % (RB, RE), '%s < %s -> `currColId:off` = sum rz 0 `row` /\\ `currValue:off` = sum rz 0 `row`' % (RB, RE),
             'forall e. %s <= e < sum rz 0 `row` -> `R.colids`[e] = fcol 0 gm e' % FB('`tid`'), 'forall e. %s <= e < sum rz 0 `row` -> `R.values`[e] = fval 0 gm e' % FB('`tid`')], 'var': RE + ' - `row`',
     'begin': ['let oc = `currColId:off` in', 'let ov = `currValue:off` in', 'if `workPerRow`[`row`] = 0 then irk_zero `row` gMp[`row`+1]', 'f_row `row` gm', 'sum_mono (`row`+1) gm', 'sum_mono %s `row`' % RB, 'sum_mono `row` (`row`+1)', 'sum_mono (`row`+1) %s' % RE],
     'end': ['row_content `R.colids` `R.values` oc ov `row`']}]})
for base, o, al in (('1p', 'A', {'C': 'A'}), ('1p', 'M', {'M': 'C'}), ('2p', 'A', {'C': 'A'}), ('2p', 'M', {'M': 'C'})):
    u = dict(next(v for v in UNITS if v['name'] == 'MaskedSpGEMM%s.I' % base)); u['name'] += '.into' + o; u['alias'] = al; u['mutable'] = [al['C']] if 'C' in al else []
    if base == '1p' and o == 'A': u['uses'] = [x + '.into' + o if x == 'initC.I' else x for x in u['uses']]
    UNITS.append(u)
