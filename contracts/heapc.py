# Contracts for the heap-based row algorithms, spgemm-blocks/heap/
from common import *
import copy
UNITS = []
E, N = 'this._heap._entries', '`this._heap._size`'
KEY, RUNR, LOC = ('`%s.%s`' % (E, x) for x in ('key', 'runr', 'loc'))
MAX = '9223372036854775807'
MC = '`M.colids`'
CTX = '`A.colids` `B.rowptr` `B.colids` ' + ALO
def hook(tx, name, reg, a, b, n):
    from tx import Unsupported
    if set(reg.maps) != {'key', 'runr', 'loc'} or a != '0': raise Unsupported(name, n)
    ms = []
    for x in ('key', 'runr', 'loc'): reg.maps[x].written = True; ms.append(reg.maps[x].term)
    ctx = tx.spec(CTX + ' ' + AHI)
    m = ' '.join(ms)
    if name == 'make_heap': tx.emit('hmake %s slot (%s) !pos %s' % (m, b, ctx))
    else: tx.emit('%s %s slot pos (%s) %s' % ({'pop_heap': 'hpop', 'push_heap': 'hpush'}[name], m, b, ctx))
    return '()'
def hp(f='0', hi=AHI): return 'hp %s %s %s %s %s !slot !pos %s %s' % (f, KEY, RUNR, LOC, N, CTX, hi)
HEAP = lambda f='0': 'heap_from %s %s %s' % (KEY, f, N)
def fp(c, pos='!pos'): return '(foldp %s %s %s %s %s)' % (AB, ALO, AHI, pos, c if ' ' not in c else '(%s)' % c)
RK = lambda x: '(%s %s %s)' % (RANK, MLO, x)
MCOL = MC + '[`maskIdx`]'
BLOj, BHIj = '`B.rowptr`[`A.colids`[j]]', '`B.rowptr`[`A.colids`[j]+1]'
pre = WF_ABM + ['0 <= `row` < `A.rows`', 'rows_lt `B.rowptr` `B.colids` `B.rows`', 'sorted_lt %s %s %s' % (MC, MLO, MHI), '`B.cols` <= ' + MAX,
       '%s = 0' % N, '`%s:len` >= %s - %s' % (E, AHI, ALO)]
NONEMPTY = ['%s < %s' % (MLO, MHI)]
LET = ['let slot = ref (endpos `A.colids` `B.rowptr`) in', 'let pos = ref (endpos `A.colids` `B.rowptr`) in']
# ---- filling the heap
INIT = {'inv': [between(ALO, '`j`', AHI), '0 <= %s <= `j` - %s' % (N, ALO), hp('0', '`j`'), 'unmasked `A.colids` `B.rowptr` `B.colids` %s `j` !pos %s %s %s' % (ALO, MC, MLO, MHI),
                'forall x. `j` <= x < %s -> !pos[x] = `B.rowptr`[`A.colids`[x]+1]' % AHI], 'var': AHI + ' - `j`',
        'begin': ['let n0 = %s in' % N, 'let k0 = %s in' % KEY, 'let r0 = %s in' % RUNR, 'let d0 = %s in' % LOC, 'assert { 0 <= `A.colids`[`j`] < `B.rows` }', 'assert { sorted_lt `B.colids` `B.rowptr`[`A.colids`[`j`]] `B.rowptr`[`A.colids`[`j`] + 1] }'],
        'end': ['if %s > n0 then begin slot := !slot[%s[%s-1] <- %s-1]; pos := !pos[%s[%s-1] <- %s[%s-1]] end' % (N, RUNR, N, N, RUNR, N, LOC, N)]}
def init(fill):
    d = copy.deepcopy(INIT)
    if fill and '`maskIdx`' in fill[0]['var']: d['inv'].append('`maskIdx` = ' + MLO); d['end'] = ['assert { %s = n0 -> forall x q. %s <= x < %s -> %s <= q < %s -> `B.colids`[x] <> %s[q] }' % (N, BLO.replace('`j`', '`j`'), BHI, MLO, MHI, MC)] + d['end']
    # foldp of every mask column is empty when the merge starts
    d['after'] = ['foldp_nones %s %s %s !pos %s %s %s' % (AB, ALO, AHI, MC, MLO, MHI)]
    return [d] + fill
SKIPPED = 'forall x q. %s <= x < `loc` -> %s <= q < %s -> `B.colids`[x] <> %s[q]' % (BLO, MLO, MHI, MC)
FILLPOS = ['%s <= `loc` < %s' % (BLO, BHI), '`key` = `B.colids`[`loc`]']
FILL1 = {'inv': FILLPOS + [SKIPPED], 'var': BHI + ' - `loc`'}
FILL2 = {'inv': FILLPOS + [SKIPPED, '%s <= `maskIdx` < %s' % (MLO, MHI), 'forall q. %s <= q < `maskIdx` -> %s[q] < `key`' % (MLO, MC), '%s = n0' % N, KEY + ' = k0', RUNR + ' = r0', LOC + ' = d0', 'forall x. `loc` < x < %s -> `key` < `B.colids`[x]' % BHI], 'var': '%s - `loc` + (%s - `maskIdx`)' % (BHI, MHI),
  'begin': ['assert { `key` < %s -> forall q. %s <= q < %s -> %s[q] <> `key` }' % (MCOL, MLO, MHI, MC), 'assert { %s < `key` -> forall q. %s <= q <= `maskIdx` -> %s[q] < `key` }' % (MCOL, MLO, MC), 'assert { %s < `key` -> `maskIdx` + 1 = %s -> forall q. %s <= q < %s -> %s[q] < `key` }' % (MCOL, MHI, MLO, MHI, MC)]}
# ---- moving the row on top of the heap to its next entry
ROOT = ['let j0 = %s[0] in' % RUNR, 'let l0 = %s[0] in' % LOC, 'let p0 = !pos in']
J0HI = '`B.rowptr`[`A.colids`[j0]+1]'
ROOTOK = ['%s = n0' % N, RUNR + '[0] = j0', hp('1'), HEAP('1'), '!pos = p0']
NEXTSKIP = 'forall x q. l0 < x < %s[0] -> mi <= q < %s -> `B.colids`[x] <> %s[q]' % (LOC, MHI, MC)
NEXT1 = {'inv': ROOTOK + ['l0 <= %s[0] < %s' % (LOC, J0HI), NEXTSKIP, '%s[0] > l0 -> forall q. mi <= q < %s -> `B.colids`[%s[0]] <> %s[q]' % (LOC, MHI, LOC, MC)], 'var': '%s - %s[0]' % (J0HI, LOC),
  'end': ['assert { forall q. mi <= q < %s -> %s[mi] <= %s[q] }' % (MHI, MC, MC)]}
NEXT2 = {'inv': ROOTOK + ['l0 < %s[0] < %s' % (LOC, J0HI), '%s[0] = `B.colids`[%s[0]]' % (KEY, LOC), NEXTSKIP, 'mi <= `maskIdx` < %s' % MHI, 'forall q. mi <= q < `maskIdx` -> %s[q] < %s[0]' % (MC, KEY), 'forall x. %s[0] < x < %s -> %s[0] < `B.colids`[x]' % (LOC, J0HI, KEY)], 'var': '%s - %s[0] + (%s - `maskIdx`)' % (J0HI, LOC, MHI),
  'begin': ['assert { %s[0] < %s -> forall q. mi <= q < %s -> %s[q] <> %s[0] }' % (KEY, MCOL, MHI, MC, KEY), 'assert { %s < %s[0] -> forall q. mi <= q <= `maskIdx` -> %s[q] < %s[0] }' % (MCOL, KEY, MC, KEY), 'assert { %s < %s[0] -> `maskIdx` + 1 = %s -> forall q. mi <= q < %s -> %s[q] < %s[0] }' % (MCOL, KEY, MHI, MHI, MC, KEY)]}
# ---- merging
ONE = '(if `maskIdx` < %s && `prevKey` = %s then 1 else 0)' % (MHI, MCOL)
BELOW = 'forall i q. 0 <= i < %s -> %s <= q < `maskIdx` -> %s[q] < %s[i]' % (N, MLO, MC, KEY)
REST = 'forall q. `maskIdx` < q < %s -> %s = None' % (MHI, fp(MC + '[q]'))
PREV = '`maskIdx` < %s -> `prevKey` = %s \\/ 0 <= `prevKey` <= %s' % (MHI, MAX, MCOL)
HAS = '`maskIdx` < %s -> (%s <> None <-> `prevKey` = %s)' % (MHI, fp(MCOL), MCOL)
DONE = 'foldp_done %s %s %s !pos %s' % (AB, ALO, AHI, MCOL)
ABOVE = 'above %s %s %s %s !slot !pos %s %s `B.rows`' % (KEY, RUNR, LOC, N, CTX, AHI)
CO, VO = 'co0', 'vo0'
OUT = ['`currColId:off` = %s + %s + %s - 1' % (CO, RK('`maskIdx`'), ONE), '`currValue:off` = %s + %s + %s - 1' % (VO, RK('`maskIdx`'), ONE),
       'outp %s %s %s `maskIdx` `currColId` %s `currValue` %s' % (ROWA, MC, MLO, CO, VO),
       '`maskIdx` < %s -> `prevKey` = %s -> `currColId`[`currColId:off`] = %s /\\ %s = Some (`currValue`[`currValue:off`])' % (MHI, MCOL, MCOL, fp(MCOL)),
       'forall i. not (%s <= i <= `currColId:off`) -> `currColId`[i] = `currColId@Entry`[i]' % CO,
       'forall i. not (%s <= i <= `currValue:off`) -> `currValue`[i] = `currValue@Entry`[i]' % VO]
MINE = 'assert { foldj %s %s <> None -> `currColId`[%s + %s] = %s /\\ Some (`currValue`[%s + %s]) = foldj %s %s }' % (ROWA, MCOL, CO, RK('`maskIdx`'), MCOL, VO, RK('`maskIdx`'), ROWA, MCOL)
CNT = ['`currRowNvals` = %s + %s' % (RK('`maskIdx`'), ONE)]
FINISH = ['if `maskIdx` < %s then begin foldp_dones %s %s %s !pos %s `maskIdx` %s; rank_tail %s %s %s (`maskIdx`+1) %s end' % (MHI, AB, ALO, AHI, MC, MHI, ROWA, MC, MLO, MHI)]
def merge(out, nxt):
    return [{'inv': ['%s <= `maskIdx` < %s' % (MLO, MHI), '%s <= %s - %s' % (N, AHI, ALO), hp(), HEAP(), BELOW, REST, PREV, HAS] + out, 'var': 'remain `A.colids` `B.rowptr` %s %s !pos' % (ALO, AHI),
             'begin': ROOT + ['let n0 = %s in' % N, ABOVE, 'assert { sorted_lt `B.colids` `B.rowptr`[`A.colids`[j0]] %s }' % J0HI, 'heap_top %s %s %s' % (KEY, N, N), 'remain_pos `A.colids` `B.rowptr` %s %s !pos' % (ALO, AHI)],
             'end': ([] if out is CNT else ['outp_keep %s %s %s mi cc0 %s cv0 %s `currColId` `currValue`' % (ROWA, MC, MLO, CO, VO)]) + ['assert { moved `B.rowptr` `A.colids` %s %s p0 !pos j0 }' % (ALO, AHI),
                     'assert { forall x q. l0 < x < !pos[j0] -> mi <= q < %s -> `B.colids`[x] <> %s[q] }' % (MHI, MC),
                     'foldp_advs %s %s %s p0 !pos j0 %s mi %s' % (AB, ALO, AHI, MC, MHI), 'remain_adv `A.colids` `B.rowptr` %s %s p0 !pos j0' % (ALO, AHI)],
             'after': FINISH + ([] if out is CNT else ['assert { `maskIdx` < %s -> %s = foldj %s %s }' % (MHI, fp(MCOL), ROWA, MCOL), 'assert { `maskIdx` < %s -> foldj %s %s <> None -> `prevKey` = %s }' % (MHI, ROWA, MCOL, MCOL),
               'assert { `maskIdx` < %s -> %s' % (MHI, MINE[9:]), 'if `maskIdx` < %s then begin outp_next %s %s %s `maskIdx` `currColId` %s `currValue` %s; outp_tail %s %s %s (`maskIdx` + 1) (%s) `currColId` %s `currValue` %s end' % (MHI, ROWA, MC, MLO, CO, VO, ROWA, MC, MLO, MHI, CO, VO)] + ['outp_all %s %s %s (%s) `currColId` %s `currValue` %s %s' % (ROWA, MC, MLO, MHI, CO, VO, MLO)])},
            {'inv': [between(MLO, '`maskIdx`', MHI), 'forall q. %s <= q < `maskIdx` -> %s[q] < %s[0]' % (MLO, MC, KEY), REST, PREV, HAS] + out, 'var': MHI + ' - `maskIdx`',
             'begin': [DONE, 'assert { foldj %s %s <> None <-> `prevKey` = %s }' % (ROWA, MCOL, MCOL), 'assert { %s = %s + %s }' % (RK('(`maskIdx`+1)'), RK('`maskIdx`'), ONE)] + ([] if out is CNT else [MINE, 'outp_next %s %s %s `maskIdx` `currColId` %s `currValue` %s' % (ROWA, MC, MLO, CO, VO)]), 'after': ['let mi = `maskIdx` in', 'if mi < %s && %s[0] = %s[mi] then begin foldj_some %s %s %s %s[mi] j0 l0; rank_room %s %s %s mi (%s) end' % (MHI, KEY, MC, AB, ALO, AHI, MC, ROWA, MC, MLO, MHI)] + ([] if out is CNT else ['let cc0 = `currColId` in', 'let cv0 = `currValue` in'])}] + nxt
def units(cls, nm, fill, nxt):
    req = pre + NONEMPTY
    UNITS.append({'name': nm + '.numericRow', 'fn': 'numericRow', 'cls': cls, 'targs': ['Mul', 'Add'], 'theories': ['spec.Spec', 'heaps.Heaps'], 'heap': hook, 'requires': req + num_pre_plain(), 'ensures': num_post_plain() + [N + ' = 0'],
      'pre': ['let co0 = `currColId:off` in', 'let vo0 = `currValue:off` in'] + LET, 'loops': init(fill) + merge(OUT, nxt)})
    UNITS.append({'name': nm + '.symbolicRow', 'fn': 'symbolicRow', 'cls': cls, 'theories': ['spec.Spec', 'heaps.Heaps'], 'heap': hook, 'requires': req + ['`rowNvals:off` = 0', '`rowNvals:len` >= `A.rows`'],
      'ensures': ['`rowNvals`[`row`] = ' + RK(MHI), 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]', N + ' = 0'],
      'pre': LET, 'loops': init(fill) + merge(CNT, nxt)})
units('MaskedHeap_v0<long, double>', 'MaskedHeap_v0', [], [])
units('MaskedHeap_v1<long, double>', 'MaskedHeap_v1', [FILL1], [NEXT1])
units('MaskedHeap_v2<long, double>', 'MaskedHeap_v2', [FILL2], [NEXT2])
UNITS.append({'name': 'HeapEntry.less', 'fn': 'operator<', 'cls': 'Heap<long>::EntryT', 'ensures': ['result <-> `this.key` > `rhs.key`']})
units('internal::MaskedHeap<long, double, 0>', 'MaskedHeap<0>', [], [])
units('internal::MaskedHeap<long, double, 1>', 'MaskedHeap<1>', [FILL1], [NEXT1])
units('internal::MaskedHeap<long, double, -1>', 'MaskedHeap<dot>', [FILL2], [NEXT2])
FILL3, NEXT3 = copy.deepcopy(FILL2), copy.deepcopy(NEXT2)
FILL3['inv'].append('`maskIdx` < `maskStop` <= ' + MHI); NEXT3['inv'].append('`maskIdx` < `maskStop` <= ' + MHI)
units('internal::MaskedHeap<long, double, 3>', 'MaskedHeap<3>', [FILL3], [NEXT3])
# ---- complemented mask
RC = '%s %s %s %s' % (ROWA, MC, MLO, MHI)
MASKED = lambda c: '(is_in %s %s %s %s)' % (MC, MLO, MHI, c)
CINIT = copy.deepcopy(INIT)
CINIT['inv'][3] = 'forall x. %s <= x < `j` -> !pos[x] = `B.rowptr`[`A.colids`[x]]' % ALO
CINIT['after'] = ['foldp_noner %s %s %s !pos 0 (`B.cols` + 1)' % (AB, ALO, AHI)]
CONE = '(if `prevKey` = !cur then 1 else 0)'
CINV = [between(MLO, '`maskIdx`', MHI), '%s <= %s - %s' % (N, AHI, ALO), hp(), HEAP(), BELOW, '0 <= !cur <= `B.cols` /\\ (!cur < `B.cols` \\/ !cur = 0)',
        'forall i. 0 <= i < %s -> !cur <= %s[i]' % (N, KEY), 'forall c. !cur < c < `B.cols` -> %s = None' % fp('c'),
        'not %s -> (%s <> None <-> `prevKey` = !cur)' % (MASKED('!cur'), fp('!cur')), '%s -> `prevKey` <> !cur' % MASKED('!cur'),
        '0 <= `prevKey` <= !cur /\\ `prevKey` < `B.cols` \\/ `prevKey` = ' + MAX]
COUT = ['`currColId:off` = co0 + !nn + %s - 1' % CONE, '`currValue:off` = vo0 + !nn + %s - 1' % CONE, '0 <= !nn = %s %s %s 0 !cur' % (CRANK, MLO, MHI),
        'cout %s !cur `currColId` co0 `currValue` vo0 !nn' % RC, '`prevKey` = !cur -> `currColId`[co0 + !nn] = !cur /\\ %s = Some (`currValue`[vo0 + !nn])' % fp('!cur'),
        'forall i. not (co0 <= i <= `currColId:off`) -> `currColId`[i] = `currColId@Entry`[i]', 'forall i. not (vo0 <= i <= `currValue:off`) -> `currValue`[i] = `currValue@Entry`[i]']
CCNT = ['`currRowNvals` = !nn + ' + CONE, '!nn = %s %s %s 0 !cur' % (CRANK, MLO, MHI)]
def adv(num, k): return ('cadv %s !pos `currColId` co0 `currValue` vo0 cur nn `prevKey` (%s)' if num else 'csadv %s !pos cur nn `prevKey` (%s)') % (RC, k)
def cmerge(num):
    out = COUT if num else CCNT
    kept = (['let cc0 = `currColId` in', 'let cv0 = `currValue` in'] if num else []) + ['assert { not %s -> foldj %s %s[0] <> None }' % (MASKED(KEY + '[0]'), ROWA, KEY), 'assert { %s[0] = !cur }' % KEY]
    room = lambda c: ['foldj_some %s %s %s %s[0] j0 l0' % (AB, ALO, AHI, KEY)] + ['if %s then crank_room %s %s[0] `B.cols`' % (c, RC, KEY)]
    beg = ROOT + ['let n0 = %s in' % N, ABOVE, 'heap_top %s %s %s' % (KEY, N, N), 'remain_pos `A.colids` `B.rowptr` %s %s !pos' % (ALO, AHI), 'assert { 0 <= %s[0] < `B.cols` }' % KEY, adv(num, KEY + '[0]')]
    end = (['cout_keep %s !cur cc0 co0 cv0 vo0 !nn `currColId` `currValue`' % RC] if num else []) + ['assert { moved `B.rowptr` `A.colids` %s %s p0 !pos j0 }' % (ALO, AHI),
           'foldp_advr %s %s %s p0 !pos j0 !cur `B.cols`' % (AB, ALO, AHI), 'assert { `B.colids`[p0[j0]] = !cur }', 'assert { %s = step (foldp %s %s %s p0 !cur) (mulf `A.values`[j0] `B.values`[l0]) }' % (fp('!cur'), AB, ALO, AHI), 'remain_adv `A.colids` `B.rowptr` %s %s p0 !pos j0' % (ALO, AHI)]
    var = 'remain `A.colids` `B.rowptr` %s %s !pos' % (ALO, AHI)
    last = ['assert { forall j. %s <= j < %s -> !pos[j] = `B.rowptr`[`A.colids`[j]+1] }' % (ALO, AHI), adv(num, '`B.cols`')]
    return [copy.deepcopy(CINIT),
            {'inv': CINV + out, 'var': var, 'begin': beg, 'end': end},
            {'inv': [between(MLO, '`maskIdx`', MHI), 'forall q. %s <= q < `maskIdx` -> %s[q] < %s[0]' % (MLO, MC, KEY)], 'var': MHI + ' - `maskIdx`',
             'after': ['assert { `maskIdx` < %s -> (%s <-> %s[0] = %s) }' % (MHI, MASKED(KEY + '[0]'), KEY, MCOL)] + room('`maskIdx` < %s && %s[0] <> %s' % (MHI, KEY, MCOL)) + kept},
            {'inv': CINV + out + ['%s > 0 -> `maskIdx` = %s' % (N, MHI)], 'var': var, 'begin': beg + ['assert { not %s }' % MASKED(KEY + '[0]')] + room('true') + kept, 'end': end, 'after': last}]
CLET = LET + ['let cur = ref 0 in', 'let nn = ref 0 in']
for x in ('numericRow', 'symbolicRow'):
    u = {'name': 'MaskedHeap.complement.' + x, 'fn': x, 'cls': 'internal::MaskedHeapComplemented<long, double>', 'theories': ['spec.Spec', 'heaps.Heaps'], 'heap': hook}
    if x == 'numericRow': u.update({'targs': ['Mul', 'Add'], 'requires': pre + ['`B.cols` < ' + MAX] + num_pre_compl(), 'ensures': num_post_compl(True) + [N + ' = 0'], 'pre': ['let co0 = `currColId:off` in', 'let vo0 = `currValue:off` in'] + CLET})
    else: u.update({'requires': pre + ['`B.cols` < ' + MAX, '`rowNvals:off` = 0', '`rowNvals:len` >= `A.rows`'], 'ensures': ['`rowNvals`[`row`] = ' + CSIZE, 'forall i. i <> `row` -> `rowNvals`[i] = (old `rowNvals`)[i]', N + ' = 0'], 'pre': CLET})
    u['loops'] = cmerge(x == 'numericRow')
    UNITS.append(u)
