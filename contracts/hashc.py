# Contracts for the hash accumulator (C12) and the hash row algorithms (C03), spgemm-blocks/hash/
from common import *
UNITS = []
TK, N = '`this._table.key`', '`this._size`'
EN = {'K': 'HashAccumEntryT<long>', 'V': 'HashAccumEntryT<long, double, bool>'}
AC = {'K': 'HashAccumulator<long, void, void>', 'V': 'HashAccumulator<long, double, bool>'}
TAB = ['tab %s %s' % (TK, N), '`this._mask` = %s - 1' % N, '%s <= `this._table:len`' % N]
def probe(i, key='`key`', e='e'): return {'begin': ['probe_step %s %s %s %s %s' % (TK, N, key, i, e), 'nxt %s %s' % (i, N)]}
def op(kind, name, fn, **kw):
    UNITS.append(dict({'name': 'Hash%s.%s' % (kind, name), 'fn': fn, 'theories': ['spec.Spec', 'hash.Hash', 'hash.Hash2', 'hash.Hash3']}, **kw))
for k in 'KV':
  op(k, 'adjustSize', 'adjustSize', cls='HashAccumulatorBase<%s>' % EN[k],
     requires=['`requestedSize` >= 0'],
     ensures=['result = grow 16 (`requestedSize` + 1)', 'is_pow2 result', 'result >= 16', 'result >= 4 * (`requestedSize` + 1)'],
     loops=[{'inv': ['`size` >= 16', 'is_pow2 `size`', 'grow `size` `requestedSize` = grow 16 `requestedSize`'], 'var': '4 * `requestedSize` - `size`'}] * 2)
for k in 'KV':
    base = 'HashAccumulatorBase<%s>' % EN[k]
    op(k, 'findIdx', 'findIdx', cls=base, requires=TAB + ['`key` >= 0'], pre=['home `key` %s' % N],
       ensures=['probed %s %s `key` result' % (TK, N), '%s[result] = `key` \\/ (%s[result] = -1 /\\ not (has %s %s `key`))' % (TK, TK, TK, N)],
       loops=[{'begin': ['probe_step %s %s `key` `hv` (free_slot %s %s)' % (TK, N, TK, N), 'nxt `hv` %s' % N],
               'inv': ['probed %s %s `key` `hv`' % (TK, N)], 'var': 'dist `hv` (free_slot %s %s) %s' % (TK, N, N), 'after': ['if %s[`hv`] = -1 then probe_miss %s %s `key` `hv`' % (TK, TK, N)]}])
    FLD = ['value1', 'value2'] if k == 'V' else []
    mv = ['moved `this._table.key` %s `this._table.%s` (old `this._table.key`) (old `this._table.%s`)' % (N, f, f) for f in FLD]
    op(k, 'findIdxForce', 'findIdxForce', cls=base, requires=['%s >= 1' % N, 'is_pow2 %s' % N] + TAB[1:] + ['`key` >= 0', 'has %s %s `key`' % (TK, N)],
       pre=['home `key` %s' % N], ensures=['0 <= result < %s' % N, '%s[result] = `key`' % TK],
       loops=[{'begin': ['force_step %s %s `key` `hv` (key_slot %s %s `key`)' % (TK, N, TK, N), 'nxt `hv` %s' % N],
               'inv': ['fprobed %s %s `key` `hv`' % (TK, N)], 'var': 'dist `hv` (key_slot %s %s `key`) %s' % (TK, N, N)}])
    op(k, 'find', 'find', cls=base, requires=TAB + ['`key` >= 0', '%s <= 4611686018427387904' % N], uses=['Hash%s.findIdx' % k],
       ensures=['if has %s %s `key` then 0 <= result < %s /\\ %s[result] = `key` else result = 18446744073709551615' % (TK, N, N, TK)])
    lp = {'inv': ['0 <= `eraseIdx` < %s' % N, '0 <= `shiftIdx` < %s' % N, 'keepx %s %s `eraseIdx` `key` t0' % (TK, N), 'unheld %s %s `eraseIdx`' % (TK, N), 'scanned %s %s `eraseIdx` `shiftIdx`' % (TK, N),
                  '%s[e0] = -1' % TK, '%s[`eraseIdx`] <> -1' % TK, 'forall x. (x < 0 \\/ x >= %s) -> %s[x] = t0[x]' % (N, TK)] +
                 ['movedx %s %s `eraseIdx` `this._table.%s` t0 v%s' % (TK, N, f, f) for f in FLD],
          'var': 'dist `shiftIdx` e0 %s' % N,
          'begin': ['shift_next %s %s `eraseIdx` `shiftIdx` e0' % (TK, N), 'nxt `shiftIdx` %s' % N, 'let s = nx `shiftIdx` %s in' % N,
                    'if %s[s] <> -1 then home2 %s[s] %s' % (TK, TK, N),
                    'if %s[s] = -1 then shift_done %s %s `eraseIdx` `shiftIdx` e0' % (TK, TK, N),
                    'if (%s[s] <> -1) && pcyc (hsh %s[s] %s) `eraseIdx` s then shift_move %s %s `eraseIdx` `shiftIdx` e0' % (TK, TK, N, TK, N),
                    'if (%s[s] <> -1) && pcyc (hsh %s[s] %s) `eraseIdx` s then erase_move %s %s `eraseIdx` s `key` t0' % (TK, TK, N, TK, N),
                    'if (%s[s] <> -1) && not (pcyc (hsh %s[s] %s) `eraseIdx` s) then shift_keep %s %s `eraseIdx` `shiftIdx` e0' % (TK, TK, N, TK, N)],
          'after': ['erase_end %s %s `eraseIdx` `key` t0' % (TK, N)]}
    op(k, 'erase', 'erase', cls=base, requires=TAB + ['`key` >= 0'], uses=['Hash%s.findIdx' % k],
       pre=['home `key` %s' % N, 'let t0 = %s in' % TK, 'let e0 = free_slot %s %s in' % (TK, N)] + ['let v%s = `this._table.%s` in' % (f, f) for f in FLD],
       loops=[lp],
       ensures=['tab %s %s' % (TK, N), 'result <-> has (old %s) %s `key`' % (TK, N),
                'forall x. x <> -1 -> (has %s %s x <-> has (old %s) %s x /\\ x <> `key`)' % (TK, N, TK, N),
                'cnt %s (-1) 0 %s = cnt (old %s) (-1) 0 %s + (if result then 1 else 0)' % (TK, N, TK, N), 'forall x. (x < 0 \\/ x >= %s) -> %s[x] = (old %s)[x]' % (N, TK, TK)] + mv)
NC = lambda t: 'cnt %s (-1) 0 %s' % (t, N)
OT = '(old `this._table.key`)'
INS_POST = ['tab %s %s' % (TK, N), 'result <-> not (has %s %s `key`)' % (OT, N), 'forall x. x <> -1 -> (has %s %s x <-> has %s %s x \\/ x = `key`)' % (TK, N, OT, N),
            '%s = %s - (if result then 1 else 0)' % (NC(TK), NC(OT)), 'forall i. %s[i] = %s[i] \\/ (0 <= i < %s /\\ %s[i] = -1 /\\ %s[i] = `key`)' % (TK, OT, N, OT, TK)]
FT = ['spec.Spec', 'hash.Hash', 'hash.HashFill']
KS = '`this._keys`'
for tk in (False, True):
    op('K', 'insert%d' % tk, 'insert', cls=AC['K'], targs=[str(tk).lower()], requires=TAB + ['`key` >= 0', NC(TK) + ' > 1'], theories=FT, uses=['HashK.findIdx'],
       ensures=INS_POST + (['`this._keys:len` = old `this._keys:len` + (if result then 1 else 0)', 'forall q. 0 <= q < old `this._keys:len` -> %s[q] = (old %s)[q]' % (KS, KS), 'result -> %s[old `this._keys:len`] = `key`' % KS] if tk else []))
op('V', 'insert', 'insert', cls=AC['V'], nparams=1, requires=TAB + ['`key` >= 0', NC(TK) + ' > 1'], theories=FT, uses=['HashV.findIdx'],
   ensures=INS_POST + ['forall i. `this._table.value2`[i] = (if %s[i] = %s[i] then (old `this._table.value2`)[i] else false)' % (TK, OT)])
for tr in (False, True):
    op('V', 'insertValue%d' % tr, 'insert', cls=AC['V'], targs=[str(tr).lower()], nparams=3, requires=TAB + ['`key` >= 0', NC(TK) + ' > 1'], uses=['HashV.findIdx'], theories=FT,
       ensures=INS_POST + ['forall i. `this._table.value1`[i] = (if %s[i] = %s[i] then (old `this._table.value1`)[i] else `value1`)' % (TK, OT), 'forall i. `this._table.value2`[i] = (if %s[i] = %s[i] then (old `this._table.value2`)[i] else `value2`)' % (TK, OT)] +
       (['`this._keys:len` = old `this._keys:len` + (if result then 1 else 0)', 'forall q. 0 <= q < old `this._keys:len` -> %s[q] = (old %s)[q]' % (KS, KS), 'result -> %s[old `this._keys:len`] = `key`' % KS] if tr else []))
V1, V2, OV1, OV2 = '`this._table.value1`', '`this._table.value2`', '`this._table.value1@Entry`', '`this._table.value2@Entry`'
LV = lambda x: 'live `this._table.key@Entry` %s %s' % (OV2, x)
GA = lambda at, hi: ['forall p. 0 <= p < %s -> `this._table.key@Entry`[p] <> -1 -> %s[p] = true -> %s < %s /\\ `idxPtr`[`idxPtr:off@Entry` + %s] = `this._table.key@Entry`[p] /\\ `valPtr`[`valPtr:off@Entry` + %s] = %s[p]' % (hi, OV2, LV('p'), LV(hi), LV('p'), LV('p'), OV1),
   'forall x. not (`idxPtr:off@Entry` <= x < `idxPtr:off`) -> `idxPtr`[x] = `idxPtr@Entry`[x]', 'forall x. not (`valPtr:off@Entry` <= x < `valPtr:off`) -> `valPtr`[x] = `valPtr@Entry`[x]',
   '`idxPtr:off` = `idxPtr:off@Entry` + %s' % LV(hi), '`valPtr:off` = `valPtr:off@Entry` + %s' % LV(hi), 'forall p. 0 <= p < %s -> %s[p] = -1' % (hi, TK)]
ENS = lambda l: [x.replace('`this._table.key@Entry`', '(old `this._table.key`)').replace(OV1, '(old %s)' % V1).replace(OV2, '(old %s)' % V2).replace('`idxPtr:off@Entry`', '(old `idxPtr:off`)').replace('`valPtr:off@Entry`', '(old `valPtr:off`)').replace('`idxPtr@Entry`', '(old `idxPtr`)').replace('`valPtr@Entry`', '(old `valPtr`)') for x in l]
op('V', 'gatherAll', 'gather', cls=AC['V'], nparams=2, theories=['spec.Spec', 'hash.HashLive'], requires=['0 <= %s <= `this._table:len`' % N, '%s <= 4611686018427387904' % N, '`idxPtr:off` >= 0', '`valPtr:off` >= 0',
     '`idxPtr:off` + live %s %s %s <= `idxPtr:len`' % (TK, V2, N), '`valPtr:off` + live %s %s %s <= `valPtr:len`' % (TK, V2, N)],
   ensures=ENS(GA('', N)),
   loops=[{'inv': ['0 <= `i` <= %s' % N, 'forall p. `i` <= p < %s -> %s[p] = `this._table.key@Entry`[p] /\\ %s[p] = %s[p] /\\ %s[p] = %s[p]' % (N, TK, V1, OV1, V2, OV2)] + GA('', '`i`'), 'var': N + ' - `i`', 'begin': ['live_mono t0 w0 (`i` + 1) %s' % N]}],
   pre=['let t0 = %s in' % TK, 'let w0 = %s in' % V2])
# resize / reset / gather, then the rows
op('K', 'resetStates', 'resetStates', cls='HashAccumulatorBase<%s>' % EN['K'], requires=['%s <= `this._table:len`' % N, '%s >= 0' % N],
   ensures=['forall i. %s[i] = (if 0 <= i < %s then -1 else (old %s)[i])' % (TK, N, TK)],
   loops=[{'inv': ['0 <= `i` <= %s' % N, 'forall i. %s[i] = (if 0 <= i < `i` then -1 else %s[i])' % (TK, OT.replace('(old ', '').replace(')', '').replace('key`', 'key@Entry`'))], 'var': N + ' - `i`'}])
ROWS_OK = ['rows_ok `A.rowptr` `A.colids` `B.rowptr` `A.rows` `A.nnz` `A.cols` `B.nnz` `row`']
def row(w, cls, fn, **kw):
    UNITS.append(dict({'cls': 'internal::%s' % cls, 'fn': fn, 'theories': ['spec.Spec', 'work.Work', 'hash.Hash', 'hash.Hash2', 'hash.Hash3', 'hash.HashRow']}, **kw))
MC = '`M.colids`'
SZ = '(%s - %s)' % (MHI, MLO)
RFL = 'rfl `A.colids` `B.rowptr` %s %s' % (ALO, AHI)
it = '`maskIt:off`'
def inm(lo, hi, x): return 'is_in %s %s %s %s' % (MC, lo, hi, x)
def names(w):
    a = 'this._%sAccumulator' % w
    return '`%s._table.key`' % a, '`%s._size`' % a, '`%s._capacity`' % a, '`%s._mask`' % a, a
def pre(w, extra):
    k, n, cap, mask, a = names(w)
    return WF_ABM + ['0 <= `row` < `A.rows`', DISTM, 'grow 16 (%s + 1) <= %s' % (extra, cap), '%s <= `%s._table:len`' % (cap, a), '%s <= 4611686018427387904' % cap, 'forall i. 0 <= i < %s -> %s[i] = -1' % (cap, k)]
def clean(w): k, n, cap, mask, a = names(w); return 'forall i. 0 <= i < %s -> %s[i] = -1' % (cap, k)
def outside(k, n, cap): return 'forall i. %s <= i < %s -> %s[i] = -1' % (n, cap, k)
for w, K_, srt in (('symbolic', 'K', 0),):
    k, n, cap, mask, a = names(w)
    base = ['tab %s %s' % (k, n), outside(k, n, cap)]
    CP = '`currRowNvals` = cpos %s (slots %s %s) (-1) %s %s' % (MC, k, n, MLO, MHI)
    ER = {'end': ['cpos_erase %s t1 %s %s (%s) (%s) (`B.colids`[`k`])' % (MC, k, n, MLO, MHI)], 'begin': ['let t1 = %s in' % k]}
    def HAS(f): return 'forall x. x <> -1 -> (has %s %s x <-> %s /\\ %s = None)' % (k, n, inm(MLO, MHI, 'x'), f)
    row(w, 'MaskedHash<long, double, false>', 'symbolicRow', name='MaskedHash.symbolicRow', uses=['HashK.insert0', 'HashK.erase', 'HashK.resetStates', 'HashK.adjustSize'],
      requires=pre(w, SZ) + ['`rowNvals:off` = 0', '`rowNvals:len` >= `A.rows`'],
      ensures=['`rowNvals`[`row`] = %s %s %s' % (RANK, MLO, MHI), 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]', clean(w)],
      loops=[
        {'inv': [between(MLO, it, MHI)] + base + ['cnt %s (-1) 0 %s = %s - (%s - %s)' % (k, n, n, it, MLO), 'forall x. x <> -1 -> (has %s %s x <-> %s)' % (k, n, inm(MLO, it, 'x'))], 'var': MHI + ' - ' + it,
         'pre': ['tab_empty %s %s' % (k, n)], 'after': ['slots_has %s %s' % (k, n), 'cpos_zero %s (slots %s %s) (-1) (%s) (%s)' % (MC, k, n, MLO, MHI)]},
        {'inv': [between(ALO, '`j`', AHI)] + base + [HAS(fj('`j`', 'x')), CP], 'var': AHI + ' - `j`', 'after': ['slots_has %s %s' % (k, n), 'cpos_rank %s %s (slots %s %s) (-1) (%s) (%s)' % (ROWA, MC, k, n, MLO, MHI)]},
        dict({'inv': [between(BLO, '`k`', BHI)] + base + [HAS(fk('`j`', '`k`', 'x')), CP], 'var': BHI + ' - `k`'}, **ER),
      ])
    D, DL = '`%s._keys`' % a, '`%s._keys:len`' % a
    LIST = ['distinct %s 0 %s' % (D, DL), 'forall q. 0 <= q < %s -> 0 <= %s[q] < `B.cols` /\\ has %s %s %s[q]' % (DL, D, k, n, D), 'forall x. x <> -1 -> has %s %s x -> is_in %s 0 %s x' % (k, n, D, DL)]
    def HASC(f): return 'forall x. x <> -1 -> (has %s %s x <-> %s <> None)' % (k, n, f)
    CNTD = ['cnt %s (-1) 0 %s = %s - %s' % (k, n, n, DL), '`currRowNvals` = %s' % DL]
    PART = 'rfl `A.colids` `B.rowptr` %s `j`' % ALO
    row(w, 'MaskedHashComplemented<long, double, true>', 'symbolicRow', name='MaskedHash.complement.symbolicRow', uses=['HashK.insert1', 'HashK.find', 'HashK.findIdxForce', 'HashK.adjustSize'],
      requires=pre(w, SZ + ' + `flops`') + ['`flops` >= ' + RFL, '`rowNvals:off` = 0', '`rowNvals:len` >= `A.rows`', DL + ' = 0'],
      ensures=['`rowNvals`[`row`] = %s %s %s 0 `B.cols`' % (CRANK, MLO, MHI), 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]', clean(w), DL + ' = 0'],
      pre=ROWS_OK,
      loops=[
        {'inv': [between(ALO, '`j`', AHI)] + base + [HASC(fj('`j`', 'x'))] + LIST + CNTD + ['%s <= %s' % (DL, PART)], 'var': AHI + ' - `j`',
         'pre': ['tab_empty %s %s' % (k, n)], 'begin': ['rfl_mono `A.colids` `B.rowptr` (%s) (`j` + 1) (%s)' % (ALO, AHI)], 'after': ['ind_spec %s %s `B.cols`' % (D, DL)]},
        {'inv': [between(BLO, '`k`', BHI)] + base + [HASC(fk('`j`', '`k`', 'x'))] + LIST + CNTD + ['%s <= %s + (`k` - %s)' % (DL, PART, BLO)], 'var': BHI + ' - `k`'},
        {'inv': [between(MLO, it, MHI), '`currRowNvals` = cnt (mset (ind %s %s) %s %s %s) 1 0 `B.cols`' % (D, DL, MC, MLO, it)], 'var': MHI + ' - ' + it,
         'begin': ['mset_spec (ind %s %s) %s (%s) %s' % (D, DL, MC, MLO, it), 'cnt_upd (mset (ind %s %s) %s (%s) %s) 1 0 `B.cols` (%s[%s]) 0' % (D, DL, MC, MLO, it, MC, it)],
         'after': ['mset_spec (ind %s %s) %s (%s) (%s)' % (D, DL, MC, MLO, MHI), 'cnt_crank %s %s (%s) (%s) (mset (ind %s %s) %s (%s) (%s)) 1 0 `B.cols`' % (ROWA, MC, MLO, MHI, D, DL, MC, MLO, MHI)]},
        {'inv': ['distinct %s 0 %s' % (D, DL), 'dkeys %s %s' % (k, n), 'nonneg %s %s' % (k, n), outside(k, n, cap), 'forall q. `ridx` <= q < %s -> %s[q] >= 0 /\\ has %s %s %s[q]' % (DL, D, k, n, D), 'forall y. 0 <= y < %s -> %s[y] <> -1 -> is_in %s `ridx` %s %s[y]' % (n, k, D, DL, k)],
         'begin': ['list_drop %s %s (key_slot %s %s %s[`ridx`]) %s `ridx` %s' % (k, n, k, n, D, D, DL)]},
      ])
w = 'numeric'
k, n, cap, mask, a = names(w)
v1, v2 = '`%s._table.value1`' % a, '`%s._table.value2`' % a
base = ['tab %s %s' % (k, n), outside(k, n, cap)]
VAL = lambda f: 'forall i. 0 <= i < %s -> %s[i] <> -1 -> match %s with None -> %s[i] = false | Some v -> %s[i] = true /\\ %s[i] = v end' % (n, k, f, v2, v2, v1)
INM = lambda lo, hi: 'forall x. x <> -1 -> (has %s %s x <-> %s)' % (k, n, inm(lo, hi, 'x'))
MASKIN = {'inv': [between(MLO, it, MHI)] + base + ['cnt %s (-1) 0 %s = %s - (%s - %s)' % (k, n, n, it, MLO), INM(MLO, it), 'forall i. 0 <= i < %s -> %s[i] <> -1 -> %s[i] = false' % (n, k, v2)], 'var': MHI + ' - ' + it, 'pre': ['tab_empty %s %s' % (k, n)]}
ki = '`keysIt:off`'
row(w, 'MaskedHash<long, double, false>', 'numericRow', name='MaskedHash.numericRow', targs=['Mul', 'Add'], uses=['HashV.insert', 'HashV.find', 'HashV.findIdxForce', 'HashV.adjustSize'],
  requires=pre(w, SZ) + num_pre_plain(), ensures=num_post_plain() + [clean(w)],
  loops=[
    MASKIN,
    {'inv': [between(ALO, '`j`', AHI)] + [VAL(fj('`j`', '(%s[i])' % k))], 'var': AHI + ' - `j`'},
    {'inv': [between(BLO, '`k`', BHI)] + [VAL(fk('`j`', '`k`', '(%s[i])' % k))], 'var': BHI + ' - `k`'},
    {'inv': [between(MLO, ki, MHI), 'dkeys %s %s' % (k, n), 'nonneg %s %s' % (k, n), outside(k, n, cap), INM(ki, MHI), VAL(fj(AHI, '(%s[i])' % k))] + gather_inv_plain(ki), 'var': MHI + ' - ' + ki,
     'begin': ['rank_mono %s %s (%s) (%s + 1) (%s)' % (ROWA, MC, MLO, ki, MHI), 'drop_has %s %s (key_slot %s %s (%s[%s])) (%s[%s])' % (k, n, k, n, MC, ki, MC, ki)], 'after': ['no_keys %s %s' % (k, n)]},
  ])
tM = 'tM'
D, DL = '`%s._keys`' % a, '`%s._keys:len`' % a
inmk = lambda x: inm(MLO, MHI, x)
for srt in (False, True):
    def VALC(f): return ['forall i. 0 <= i < %s -> %s[i] <> -1 -> %s -> %s[i] = false' % (n, k, inmk('%s[i]' % k), v2), 'forall i. 0 <= i < %s -> %s[i] <> -1 -> not (%s) -> %s[i] = true /\\ %s = Some %s[i]' % (n, k, inmk('%s[i]' % k), v2, f, v1)]
    EMB = 'forall i. 0 <= i < %s -> %s[i] <> -1 -> %s[i] = %s[i]' % (n, tM, k, tM)
    def HASU(f): return 'forall x. x <> -1 -> (has %s %s x <-> %s \\/ %s <> None)' % (k, n, inmk('x'), f)
    LIST = ['distinct %s 0 %s' % (D, DL), 'forall q. 0 <= q < %s -> 0 <= %s[q] < `B.cols` /\\ not (%s) /\\ has %s %s %s[q]' % (DL, D, inmk('%s[q]' % D), k, n, D), 'forall x. x <> -1 -> has %s %s x -> %s \\/ is_in %s 0 %s x' % (k, n, inmk('x'), D, DL)]
    BASE = base + ['cnt %s (-1) 0 %s = %s - %s - %s' % (k, n, n, SZ, DL)] + [EMB] + LIST
    keyi = '(%s[i])' % k
    g = ki
    row(w, 'MaskedHashComplemented<long, double, %s>' % str(srt).lower(), 'numericRow', name='MaskedHash.complement%s.numericRow' % ('Sorted' if srt else ''), targs=['Mul', 'Add'], uses=['HashV.insert', 'HashV.findIdx', 'HashV.findIdxForce', 'HashV.erase', 'HashV.adjustSize'],
      theories=['spec.Spec', 'work.Work', 'hash.Hash', 'hash.Hash2', 'hash.Hash3', 'hash.HashFill', 'hash.HashRow'], pre=ROWS_OK,
      requires=pre(w, SZ + ' + `flops`') + ['`flops` >= ' + CSIZE, DL + ' = 0'] + num_pre_compl(), ensures=num_post_compl(srt) + [clean(w), DL + ' = 0'],
      loops=[
        dict(MASKIN, inv=MASKIN['inv'] + [DL + ' = 0']),
        {'inv': [between(ALO, '`j`', AHI)] + BASE + [HASU(fj('`j`', 'x'))] + VALC(fj('`j`', keyi)), 'var': AHI + ' - `j`',
         'pre': ['let tM = %s in' % k], 'after': ['list_crank %s %s (%s) (%s) %s %s `B.cols`' % (ROWA, MC, MLO, MHI, D, DL),
           'assert { forall c. is_in %s 0 %s c -> 0 <= c < `B.cols` /\\ not (%s) /\\ %s <> None }' % (D, DL, inmk('c'), fj(AHI, 'c'))]},
        {'inv': [between(BLO, '`k`', BHI)] + BASE + [HASU(fk('`j`', '`k`', 'x'))] + VALC(fk('`j`', '`k`', keyi)), 'var': BHI + ' - `k`',
         'begin': ['list_le_crank %s (%s) `j` (%s) `A.values`[`j`] (%s) `k` (%s) %s (%s) (%s) %s %s `B.cols`' % (AB, ALO, AHI, BLO, BHI, MC, MLO, MHI, D, DL), 'if not (has_b %s %s (`B.colids`[`k`])) then distinct_push %s %s (`B.colids`[`k`])' % (k, n, D, DL)]},
        {'inv': ['0 <= %s <= %s' % (g, DL), '%s = %s' % (DL, CSIZE), 'distinct %s 0 %s' % (D, DL), 'forall q. 0 <= q < %s -> 0 <= %s[q] < `B.cols` /\\ not (%s) /\\ %s <> None' % (DL, D, inmk('%s[q]' % D), fj(AHI, '%s[q]' % D)),
                 'forall i. 0 <= i < `B.cols` -> not (%s) -> %s <> None -> is_in %s 0 %s i' % (inmk('i'), fj(AHI, 'i'), D, DL)] + (['sorted_le %s 0 %s' % (D, DL)] if srt else []) +
                ['`currColId:off` = `currColId:off@Entry` + %s' % g, '`currValue:off` = `currValue:off@Entry` + %s' % g,
                 'forall q. 0 <= q < %s -> `currColId`[`currColId:off@Entry` + q] = %s[q]' % (g, D),
                 'forall x. `currColId:off@Entry` <= x < `currColId:off` -> `currColId`[x] = %s[x - `currColId:off@Entry`] /\\ 0 <= `currColId`[x] < `B.cols` /\\ not (%s) /\\ %s = Some (`currValue`[x - `currColId:off@Entry` + `currValue:off@Entry`])' % (D, inmk('`currColId`[x]'), fj(AHI, '`currColId`[x]')),
                 'forall i. not (`currColId:off@Entry` <= i < `currColId:off`) -> `currColId`[i] = `currColId@Entry`[i]',
                 'forall i. not (`currValue:off@Entry` <= i < `currValue:off`) -> `currValue`[i] = `currValue@Entry`[i]',
                 'dkeys %s %s' % (k, n), 'nonneg %s %s' % (k, n), outside(k, n, cap), EMB,
                 'forall y. 0 <= y < %s -> %s[y] <> -1 -> %s \\/ is_in %s %s %s %s[y]' % (n, k, inmk('%s[y]' % k), D, g, DL, k),
                 'forall q. %s <= q < %s -> has %s %s %s[q]' % (g, DL, k, n, D)] + VALC(fj(AHI, keyi)), 'var': '%s - %s' % (DL, g),
         'begin': ['drop_has %s %s (key_slot %s %s (%s[%s])) (%s[%s])' % (k, n, k, n, D, g, D, g)], 'after': ['restore %s %s %s' % (tM, k, n), 'assert { %s }' % INM(MLO, MHI)]},
        {'inv': [between(MLO, it, MHI), INM(it, MHI), DL + ' = 0'] + base, 'var': MHI + ' - ' + it, 'after': ['no_keys %s %s' % (k, n)]},
      ])
