# Contracts for the inner-product row algorithm, spgemm-blocks/inner/
from common import *
import blocks
UNITS = []
DOTA = '`A.colids` `A.values` %s %s `B.rowids` `B.values`' % (ALO, AHI)
def dot(c, hi=AHI): return '(dot `A.colids` `A.values` %s %s `B.rowids` `B.values` `B.colptr`[%s] `B.colptr`[%s+1])' % (ALO, hi, c, c)
IRANK = 'irank `A.colids` `A.values` %s %s `B.colptr` `B.rowids` `B.values` `M.colids`' % (ALO, AHI)
SORTED_AB = ['sorted_lt `A.colids` %s %s' % (ALO, AHI), 'forall c. 0 <= c < `B.cols` -> sorted_lt `B.rowids` `B.colptr`[c] `B.colptr`[c+1]']
PRE = blocks.WF_ABcM + ['0 <= `row` < `A.rows`'] + SORTED_AB
J = '`M.colids`[`j`]'
BL, BH = '`B.colptr`[%s]' % J, '`B.colptr`[%s+1]' % J
D = dot(J, '`itAIdx`')
FULL = dot(J)
MERGE = [between(ALO, '`itAIdx`', AHI), between(BL, '`itBIdx`', BH), '`itAIdx` < %s' % AHI, '`itBIdx` < %s' % BH,
         'forall q. %s <= q < `itBIdx` -> `B.rowids`[q] < `A.colids`[`itAIdx`]' % BL]
HINT = ['let cA = `A.colids`[`itAIdx`] in let cB = `B.rowids`[`itBIdx`] in let o = %s in if cA = cB then foldk_one o `A.values`[`itAIdx`] `B.rowids` `B.values` (%s) `itBIdx` (%s) cA else if cA < cB then foldk_none o `A.values`[`itAIdx`] `B.rowids` `B.values` (%s) (%s) cA' % (D, BL, BH, BL, BH)]
AFTER = ['if `itBIdx` = %s then (if `itAIdx` < %s then dot_rest %s %s `itAIdx` %s `B.rowids` `B.values` (%s) (%s))' % (BH, AHI, '`A.colids` `A.values`', ALO, AHI, BL, BH)]
EMPTY = ['dot_empty_col `A.colids` `A.values` (%s) (%s) `B.rowids` `B.values` (%s) (%s)' % (ALO, AHI, BL, BH)]
def PB(p): return '`M.colids`[%s]' % p
def num_post(oc='old `currColId:off`', ov='old `currValue:off`', hi=MHI, cc='`currColId:off`', cv='`currValue:off`', entry='old'):
    o = (lambda x: '(old %s)' % x) if entry == 'old' else (lambda x: x[:-1] + '@Entry`')
    return ['%s = %s + %s %s %s' % (cc, oc, IRANK, MLO, hi), '%s = %s + %s %s %s' % (cv, ov, IRANK, MLO, hi),
      'forall p. %s <= p < %s -> %s <> None -> %s %s p < %s %s %s' % (MLO, hi, dot(PB('p')), IRANK, MLO, IRANK, MLO, hi),
      'forall p. %s <= p < %s -> %s <> None -> `currColId`[%s + %s %s p] = `M.colids`[p]' % (MLO, hi, dot(PB('p')), oc, IRANK, MLO),
      'forall p. %s <= p < %s -> match %s with None -> true | Some v -> `currValue`[%s + %s %s p] = v end' % (MLO, hi, dot(PB('p')), ov, IRANK, MLO),
      'forall i. not (%s <= i < %s) -> `currColId`[i] = %s[i]' % (oc, cc, o('`currColId`')),
      'forall i. not (%s <= i < %s) -> `currValue`[i] = %s[i]' % (ov, cv, o('`currValue`'))]
UNITS.append({'name': 'MaskedInner.numericRow', 'fn': 'numericRow', 'cls': 'MaskedInner<long, double, false>', 'targs': ['Mul', 'Add'], 'theories': ['spec.Spec', 'dot.Dot'],
  'requires': PRE + ['`currColId:off` >= 0', '`currValue:off` >= 0', '`currColId:off` + %s %s %s <= `currColId:len`' % (IRANK, MLO, MHI), '`currValue:off` + %s %s %s <= `currValue:len`' % (IRANK, MLO, MHI)],
  'ensures': num_post(),
  'loops': [
    {'begin': ['irank_mono `A.colids` `A.values` (%s) (%s) `B.colptr` `B.rowids` `B.values` `M.colids` (%s) (`j`+1) (%s)' % (ALO, AHI, MLO, MHI)] if False else
              ['irank_mono `A.colids` `A.values` (%s) (%s) `B.colptr` `B.rowids` `B.values` `M.colids` (%s) (`j`+1) (%s)' % (ALO, AHI, MLO, MHI), 'if %s >= %s then %s' % (BL, BH, EMPTY[0])],
     'inv': [between(MLO, '`j`', MHI)] + num_post('`currColId:off@Entry`', '`currValue:off@Entry`', '`j`', entry='entry'), 'var': MHI + ' - `j`'},
    {'begin': HINT, 'inv': MERGE + ['if `active` then %s = Some `value` else %s = None' % (D, D)], 'var': '%s - `itAIdx` + (%s - `itBIdx`)' % (AHI, BH),
     'after': AFTER + ['assert { [@expl:the dot product is complete] if `active` then %s = Some `value` else %s = None }' % (FULL, FULL),
      'assert { [@expl:counted exactly when there is a product] %s %s (`j`+1) = %s %s `j` + (if `active` then 1 else 0) }' % (IRANK, MLO, IRANK, MLO)]},
  ]})
UNITS.append({'name': 'MaskedInner.symbolicRow', 'fn': 'symbolicRow', 'cls': 'MaskedInner<long, double, false>', 'theories': ['spec.Spec', 'dot.Dot'],
  'requires': PRE + ['`rowNvals:off` = 0', '`rowNvals:len` >= `A.rows`'],
  'ensures': ['`rowNvals`[`row`] = %s %s %s' % (IRANK, MLO, MHI), 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]'],
  'loops': [
    {'begin': ['if %s >= %s then %s' % (BL, BH, EMPTY[0])],
     'inv': [between(MLO, '`j`', MHI), '`currRowNvals` = %s %s `j`' % (IRANK, MLO)], 'var': MHI + ' - `j`'},
    {'begin': HINT, 'inv': MERGE + ['%s = None' % D, '`currRowNvals` = %s %s `j`' % (IRANK, MLO)], 'var': '%s - `itAIdx` + (%s - `itBIdx`)' % (AHI, BH),
     'after': ['if `itAIdx` < %s && `itBIdx` < %s then dot_some `A.colids` `A.values` (%s) (`itAIdx`+1) (%s) `B.rowids` `B.values` (%s) (%s)' % (AHI, BH, ALO, AHI, BL, BH)] + AFTER +
              ['assert { [@expl:counted exactly when there is a product] `currRowNvals` = %s %s (`j`+1) }' % (IRANK, MLO)]},
  ]})
