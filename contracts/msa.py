# Contracts for the MSA (dense masked accumulator) row algorithms, spgemm-blocks/msa/.
from common import *

UNITS = []
lo, hi = MLO, MHI
# bytes of values are 0xFF again where no value is stored, or as they were when the row began
def vrest(mx, st, vl): return ['forall i. 0 <= i < %s -> %s[i] <> 1 -> %s[i] = nt_ff \\/ %s[i] = %s@Entry`[i]' % (mx, st, vl, vl, vl[:-1])]
def vrest_post(mx, vl): return ['forall i. 0 <= i < %s -> %s[i] = nt_ff \\/ %s[i] = old %s[i]' % (mx, vl, vl, vl)]

def acc(which, arrays):
    a = 'this._%sAccumulator' % which
    if arrays == 1: return '`%s._entries.state`' % a, '`%s._entries.value`' % a, '`%s._entries:len`' % a, None, '`%s._maxIndex`' % a, a
    return '`%s._storage._states`' % a, '`%s._storage._values`' % a, '`%s._storage._states:len`' % a, '`%s._storage._values:len`' % a, '`%s._maxIndex`' % a, a

def pre_common(st, ln, vlen, mx, a):
    r = WF_ABM + ['0 <= `row` < `A.rows`', '`B.cols` = %s' % mx, '%s >= %s' % (ln, mx)]
    if vlen: r.append('%s >= %s' % (vlen, mx))
    return r + ['`%s._dirtyIndices:len` = 0' % a, 'forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st), DISTM]

for arrays in (1, 2):
    cls = 'MSA%dA' % arrays
    C = 'internal::%s<long, double, %%s>' % cls
    # ------------------------------------------------ plain mask, numeric
    st, vl, ln, vlen, mx, a = acc('numeric', arrays)
    R = lambda x, y: 'forall i. 0 <= i < %s -> %s[i] = %s' % (mx, st, y)
    def V(cond, f): return 'forall i. 0 <= i < %s -> %s -> match %s with None -> true | Some v -> %s[i] = v end' % (mx, cond, f, vl)
    clean = lambda cond, f: ['forall i. 0 <= i < %s -> (%s /\\ %s <> None) \\/ %s[i] = nt_ff' % (mx, cond, f, vl)] if arrays == 1 else []
    inm = 'is_in `M.colids` %s %s i' % (lo, hi)
    STF = lambda cond, f: 'forall i. 0 <= i < %s -> %s[i] = (if %s then (match %s with None -> 0 | Some _ -> 1 end) else 255)' % (mx, st, cond, f)
    it = '`maskIt:off`'
    UNITS.append({
        'name': cls + '.numericRow', 'fn': 'numericRow', 'cls': C % 'false, false', 'targs': ['Mul', 'Add'], 'theories': ['spec.Spec'],
        'requires': pre_common(st, ln, vlen, mx, a) + num_pre_plain() + (['forall i. 0 <= i < %s -> %s[i] = nt_ff' % (mx, vl)] if arrays == 1 else []),
        'ensures': num_post_plain() + ['`%s._dirtyIndices:len` = 0' % a, 'forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st)] +
            (['forall i. 0 <= i < %s -> %s[i] = nt_ff' % (mx, vl)] if arrays == 1 else vrest_post(mx, vl)),
        'loops': [dict(l, inv=l['inv'] + (vrest(mx, st, vl) if arrays == 2 else [])) for l in [
          {'inv': [between(lo, it, hi), 'forall i. 0 <= i < %s -> %s[i] = (if is_in `M.colids` %s %s i then 0 else 255)' % (mx, st, lo, it)], 'var': hi + ' - ' + it},
          {'inv': [between(ALO, '`j`', AHI), STF(inm, fj('`j`', 'i')), V(inm, fj('`j`', 'i'))] + clean(inm, fj('`j`', 'i')), 'var': AHI + ' - `j`'},
          {'inv': [between(BLO, '`k`', BHI), STF(inm, fk('`j`', '`k`', 'i')), V(inm, fk('`j`', '`k`', 'i'))] + clean(inm, fk('`j`', '`k`', 'i')), 'var': BHI + ' - `k`'},
          {'begin': ['rank_mono %s `M.colids` %s (%s+1) %s' % (ROWA, lo, it, hi)],
           'inv': [between(lo, it, hi)] + gather_inv_plain(it) +
                   [STF('is_in `M.colids` %s %s i' % (it, hi), fj(AHI, 'i')), V('is_in `M.colids` %s %s i' % (it, hi), fj(AHI, 'i'))] + clean('is_in `M.colids` %s %s i' % (it, hi), fj(AHI, 'i')),
           'var': hi + ' - ' + it},
        ]]})
    # ------------------------------------------------ plain mask, symbolic
    st, vl, ln, vlen, mx, a = acc('symbolic', arrays)
    ST2 = lambda f: 'forall i. 0 <= i < %s -> %s[i] = (if %s /\\ %s = None then 0 else 255)' % (mx, st, inm, f)
    CP = '`currRowNvals` = cpos `M.colids` %s 255 %s %s' % (st, lo, hi)
    UNITS.append({
        'name': cls + '.symbolicRow', 'fn': 'symbolicRow', 'cls': C % 'false, false', 'theories': ['spec.Spec'],
        'requires': pre_common(st, ln, None, mx, a) + ['`rowNvals:off` = 0', '`rowNvals:len` >= `A.rows`'],
        'ensures': ['`rowNvals`[`row`] = %s %s %s' % (RANK, lo, hi), 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]',
            'forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st), '`%s._dirtyIndices:len` = 0' % a],
        'loops': [
          {'inv': [between(lo, it, hi), 'forall i. 0 <= i < %s -> %s[i] = (if is_in `M.colids` %s %s i then 0 else 255)' % (mx, st, lo, it)], 'var': hi + ' - ' + it,
           'after': ['cpos_zero `M.colids` %s 255 %s %s' % (st, lo, hi)]},
          {'inv': [between(ALO, '`j`', AHI), ST2(fj('`j`', 'i')), CP], 'var': AHI + ' - `j`',
           'after': ['cpos_rank %s `M.colids` %s 255 %s %s' % (ROWA, st, lo, hi)]},
          {'begin': ['let e = `B.colids`[`k`] in if any bool ensures { result <-> is_in `M.colids` %s %s e } then (let q = any int ensures { is_in `M.colids` %s %s e -> %s <= result < %s /\\ `M.colids`[result] = e } in if %s[e] <> 255 then cpos_upd `M.colids` %s 255 %s %s q)' % (lo, hi, lo, hi, lo, hi, st, st, lo, hi)],
           'inv': [between(BLO, '`k`', BHI), ST2(fk('`j`', '`k`', 'i')), CP], 'var': BHI + ' - `k`'},
          {'inv': [between(lo, it, hi), 'forall i. 0 <= i < %s -> %s[i] = (if is_in `M.colids` %s %s i /\\ %s = None then 0 else 255)' % (mx, st, it, hi, fj(AHI, 'i'))], 'var': hi + ' - ' + it},
        ]})
    # ------------------------------------------------ complemented mask, numeric
    for srt in (False, True):
        st, vl, ln, vlen, mx, a = acc('numeric', arrays)
        D, DL = '`%s._dirtyIndices`' % a, '`%s._dirtyIndices:len`' % a
        def STC(f): return 'forall i. 0 <= i < %s -> %s[i] = (if %s then 0 else match %s with None -> 255 | Some _ -> 1 end)' % (mx, st, inm, f)
        def VC(f): return 'forall i. 0 <= i < %s -> not %s -> match %s with None -> true | Some v -> %s[i] = v end' % (mx, inm, f, vl)
        DI = ['%s = cnt %s 1 0 %s' % (DL, st, mx), 'forall q. 0 <= q < %s -> 0 <= %s[q] < %s /\\ %s[%s[q]] = 1' % (DL, D, mx, st, D), 'distinct %s 0 %s' % (D, DL),
              'forall i. 0 <= i < %s -> %s[i] = 1 -> is_in %s 0 %s i' % (mx, st, D, DL)]
        g = '`ridx`'
        UNITS.append({
            'name': cls + '.complement%s.numericRow' % ('Sorted' if srt else ''), 'fn': 'numericRow', 'cls': C % ('true, true' if srt else 'true, false'), 'targs': ['Mul', 'Add'], 'theories': ['spec.Spec'],
            'requires': pre_common(st, ln, vlen, mx, a) + num_pre_compl(),
            'ensures': num_post_compl(srt) + ['%s = 0' % DL, 'forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st)] + vrest_post(mx, vl),
            'loops': [dict(l, inv=l['inv'] + vrest(mx, st, vl)) for l in [
              {'inv': [between(lo, it, hi), 'forall i. 0 <= i < %s -> %s[i] = (if is_in `M.colids` %s %s i then 0 else 255)' % (mx, st, lo, it), '%s = 0' % DL], 'var': hi + ' - ' + it,
               'after': ['cnt_zero %s 1 0 %s' % (st, mx)]},
              {'inv': [between(ALO, '`j`', AHI), STC(fj('`j`', 'i')), VC(fj('`j`', 'i'))] + DI, 'var': AHI + ' - `j`',
               'after': ['cnt_crank %s `M.colids` %s %s %s 1 0 %s' % (ROWA, lo, hi, st, mx)]},
              {'begin': ['cnt_upd %s 1 0 %s (`B.colids`[`k`]) 1' % (st, mx), 'if %s[`B.colids`[`k`]] <> 1 then distinct_push %s %s (`B.colids`[`k`])' % (st, D, DL)],
               'inv': [between(BLO, '`k`', BHI), STC(fk('`j`', '`k`', 'i')), VC(fk('`j`', '`k`', 'i'))] + DI, 'var': BHI + ' - `k`'},
              {'inv': [  '%s = %s %s %s 0 %s' % (DL, CRANK, lo, hi, mx), 'distinct %s 0 %s' % (D, DL), 'forall q. 0 <= q < %s -> 0 <= %s[q] < %s /\\ not (is_in `M.colids` %s %s %s[q]) /\\ %s <> None' % (DL, D, mx, lo, hi, D, fj(AHI, '%s[q]' % D)),
                       'forall i. 0 <= i < %s -> not %s -> %s <> None -> is_in %s 0 %s i' % (mx, inm, fj(AHI, 'i'), D, DL)] + (['sorted_le %s 0 %s' % (D, DL)] if srt else []) +
                      ['`currColId:off` = `currColId:off@Entry` + %s' % g, '`currValue:off` = `currValue:off@Entry` + %s' % g,
                       'forall q. 0 <= q < %s -> `currColId`[`currColId:off@Entry` + q] = %s[q]' % (g, D),
                       'forall x. `currColId:off@Entry` <= x < `currColId:off` -> `currColId`[x] = %s[x - `currColId:off@Entry`] /\\ 0 <= `currColId`[x] < %s /\\ not (is_in `M.colids` %s %s `currColId`[x]) /\\ %s = Some (`currValue`[x - `currColId:off@Entry` + `currValue:off@Entry`])' % (D, mx, lo, hi, fj(AHI, '`currColId`[x]')),
                       'forall i. not (`currColId:off@Entry` <= i < `currColId:off`) -> `currColId`[i] = `currColId@Entry`[i]',
                       'forall i. not (`currValue:off@Entry` <= i < `currValue:off`) -> `currValue`[i] = `currValue@Entry`[i]',
                       'forall i. 0 <= i < %s -> %s[i] = (if %s then 0 else if is_in %s %s %s i then 1 else 255)' % (mx, st, inm, D, g, DL),
                       'forall q. %s <= q < %s -> %s = Some %s[%s[q]]' % (g, DL, fj(AHI, '%s[q]' % D), vl, D)]},
              {'inv': [between(lo, '`first:off`', hi), 'forall i. 0 <= i < %s -> %s[i] = (if is_in `M.colids` `first:off` %s i then 0 else 255)' % (mx, st, hi)], 'var': hi + ' - `first:off`'},
              {'inv': ['%s = 0' % DL, 'forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st)]},
            ]]})
    # ------------------------------------------------ complemented mask, symbolic
    st, vl, ln, vlen, mx, a = acc('symbolic', arrays)
    D, DL = '`%s._dirtyIndices`' % a, '`%s._dirtyIndices:len`' % a
    def STS(f): return 'forall i. 0 <= i < %s -> %s[i] = (match %s with None -> 255 | Some _ -> 1 end)' % (mx, st, f)
    DI = ['forall q. 0 <= q < %s -> 0 <= %s[q] < %s' % (DL, D, mx), 'forall i. 0 <= i < %s -> %s[i] = 1 -> is_in %s 0 %s i' % (mx, st, D, DL)]
    CN = '`currRowNvals` = cnt %s 1 0 %s' % (st, mx)
    UNITS.append({
        'name': cls + '.complement.symbolicRow', 'fn': 'symbolicRow', 'cls': C % 'true, true', 'theories': ['spec.Spec'],
        'requires': pre_common(st, ln, None, mx, a) + ['`rowNvals:off` = 0', '`rowNvals:len` >= `A.rows`'],
        'ensures': ['`rowNvals`[`row`] = %s %s %s 0 `B.cols`' % (CRANK, lo, hi), 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]',
            'forall i. 0 <= i < %s -> %s[i] = 255' % (mx, st), '%s = 0' % DL],
        'pre': ['cnt_zero %s 1 0 %s' % (st, mx)],
        'loops': [
          {'inv': [between(ALO, '`j`', AHI), STS(fj('`j`', 'i')), CN] + DI, 'var': AHI + ' - `j`'},
          {'begin': ['cnt_upd %s 1 0 %s (`B.colids`[`k`]) 1' % (st, mx)],
           'inv': [between(BLO, '`k`', BHI), STS(fk('`j`', '`k`', 'i')), CN] + DI, 'var': BHI + ' - `k`'},
          {'begin': ['cnt_upd %s 1 0 %s (`M.colids`[%s]) 255' % (st, mx, it)],
           'inv': [between(lo, it, hi), 'forall i. 0 <= i < %s -> %s[i] = (if is_in `M.colids` %s %s i then 255 else match %s with None -> 255 | Some _ -> 1 end)' % (mx, st, lo, it, fj(AHI, 'i')), CN] + DI, 'var': hi + ' - ' + it,
           'after': ['cnt_crank %s `M.colids` %s %s %s 1 0 %s' % (ROWA, lo, hi, st, mx)]},
          {'inv': ['forall q. 0 <= q < %s -> 0 <= %s[q] < %s' % (DL, D, mx), 'forall i. 0 <= i < %s -> %s[i] = (if is_in %s `ridx` %s i then %s[i] else 255)' % (mx, st, D, DL, st)]},
        ]})
