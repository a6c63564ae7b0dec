# Contracts for the mask-compressed accumulator row algorithm, spgemm-blocks/mca/
from common import *
from msa import vrest, vrest_post
UNITS = []
SORTED = ['forall r. 0 <= r < `B.rows` -> sorted_lt `B.colids` `B.rowptr`[r] `B.rowptr`[r+1]', 'sorted_lt `M.colids` %s %s' % (MLO, MHI), '%s < %s' % (MLO, MHI)]
def acc(w): a = 'this._%sAccumulator' % w; return '`%s._entries.state`' % a, '`%s._entries.value`' % a, '`%s._entries:len`' % a, '`%s._maxIndex`' % a
SZ = '(%s - %s)' % (MHI, MLO)
def pre(w):
    st, vl, ln, mx = acc(w)
    return WF_ABM + ['0 <= `row` < `A.rows`'] + SORTED + ['%s <= %s' % (SZ, mx), '%s >= %s' % (ln, mx), 'forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st)]
KEY = '`key` = `B.colids`[`loc`]'
COL = '`M.colids`[%s + i]' % MLO
def REST(): return 'if `loc` < %s then foldk_rest %s (%s) `j` %s (%s) `loc` (%s)' % (BHI, AB, ALO, '`A.values`[`j`]', BLO, BHI)
CASE = ['assert { [@expl:a smaller column is not in the mask row] `key` < `M.colids`[`maskIdx`] -> not (is_in `M.colids` %s %s `key`) }' % (MLO, MHI)]
MERGE = [between(BLO, '`loc`', BHI), '`loc` < ' + BHI, between(MLO, '`maskIdx`', MHI), '`maskIdx` < ' + MHI, KEY, 'forall q. %s <= q < `maskIdx` -> `M.colids`[q] < `key`' % MLO]
VAR = '%s - `loc` + (%s - `maskIdx`)' % (BHI, MHI)

st, vl, ln, mx = acc('numeric')
def E(f, lo='0', clean=True): return ['forall i. %s <= i < %s -> match %s with None -> %s[i] = 255 | Some v -> %s[i] = 1 /\\ %s[i] = v end' % (lo, SZ, f, st, st, vl),
   'forall i. %s <= i < %s -> %s[i] = 255' % (SZ, mx, st)]
UNITS.append({'name': 'MCA.numericRow', 'fn': 'numericRow', 'cls': 'MCA<false, false>::Impl<long, double>', 'targs': ['Mul', 'Add'], 'theories': ['spec.Spec', 'merge.Merge'],
  'requires': pre('numeric') + num_pre_plain(),
  'ensures': num_post_plain() + ['forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st)] + vrest_post(mx, vl),
  'loops': [dict(l, inv=l['inv'] + vrest(mx, st, vl)) for l in [
    {'inv': [between(ALO, '`j`', AHI)] + E(fj('`j`', COL)), 'var': AHI + ' - `j`'},
    {'inv': MERGE + E(fk('`j`', '`loc`', COL)), 'var': VAR, 'begin': CASE, 'after': [REST()]},
    {'begin': ['rank_mono %s `M.colids` (%s) (%s + `i` + 1) (%s)' % (ROWA, MLO, MLO, MHI)],
     'inv': ['0 <= `i` <= %s' % SZ] + gather_inv_plain('(%s + `i`)' % MLO), 'var': SZ + ' - `i`'},
  ]]})
st, vl, ln, mx = acc('symbolic')
PST = '`M.colids` (shift %s %s %s) 0 %s %s' 
UNITS.append({'name': 'MCA.symbolicRow', 'fn': 'symbolicRow', 'cls': 'MCA<false, false>::Impl<long, double>', 'theories': ['spec.Spec', 'merge.Merge'],
  'requires': pre('symbolic') + ['`rowNvals:off` = 0', '`rowNvals:len` >= `A.rows`'],
  'ensures': ['`rowNvals`[`row`] = %s %s %s' % (RANK, MLO, MHI), 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]', 'forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st)],
  'pre': ['cnt_zero %s 0 0 %s' % (st, SZ)],
  'loops': [
    {'inv': [between(ALO, '`j`', AHI), 'forall i. 0 <= i < %s -> %s[i] = (if %s = None then 255 else 0)' % (SZ, st, fj('`j`', COL)), 'forall i. %s <= i < %s -> %s[i] = 255' % (SZ, mx, st), '`currRowNvals` = cnt %s 0 0 %s' % (st, SZ)], 'var': AHI + ' - `j`',
     'after': ['cnt_rank %s `M.colids` %s 0 (%s) (%s)' % (ROWA, st, MLO, MHI)]},
    {'inv': MERGE + ['forall i. 0 <= i < %s -> %s[i] = (if %s = None then 255 else 0)' % (SZ, st, fk('`j`', '`loc`', COL)), 'forall i. %s <= i < %s -> %s[i] = 255' % (SZ, mx, st), '`currRowNvals` = cnt %s 0 0 %s' % (st, SZ)], 'var': VAR,
     'begin': CASE + ['cnt_upd %s 0 0 %s (`maskIdx` - %s) 0' % (st, SZ, MLO)], 'after': [REST()]},
  ]})
