# Contracts for the prefix sums (C09): spgemm-blocks/scan.h and utility.h
UNITS = []
CS, CE = 'cb `size` `numThreads` `tid`', 'cb `size` `numThreads` (`tid`+1)'
def pscan(name, exclusive):
    want = lambda i: 'sum `src` 0 %s' % (i if exclusive else '(%s+1)' % i)
    seq = {'inv': ['1 <= `i` <= `size`', 'forall x. 0 <= x < `i` -> `dst`[x] = %s' % want('x'), 'forall x. not (0 <= x < `size`) -> `dst`[x] = `dst@Entry`[x]'], 'var': '`size` - `i`'}
    UNITS.append({
      'name': name, 'fn': name, 'targs': ['long'], 'nparams': 4, 'theories': ['scans.Scan'], 'base0': ['src', 'dst'],
      'requires': ['`numThreads` >= 1', '`src:len` >= `size`', '`dst:len` >= `size`'],
      'ensures': ['forall i. 0 <= i < `size` -> `dst`[i] = %s' % want('i'), 'forall i. not (0 <= i < `size`) -> `dst`[i] = (old `dst`)[i]'],
      'parallel': {'nthreads': '`numThreads`', 'shared': ['dst', 'partialSums'],
         'own': [{'partialSums': ('`tid`', '`tid` + 1')}, {'dst': (CS, CE)}],
         'guar': [['`partialSums`[`tid`] = sum `src` (%s) (%s)' % (CS, CE)], []],
         'post': ['forall x. %s <= x < %s -> `dst`[x] = %s' % (CS, CE, want('x'))],
         'begin': ['cb_mul `size` `numThreads` `tid`', 'if `tid` < `numThreads` - 1 then cb_mul `size` `numThreads` (`tid`+1)'],
         'post_master': []},
      'loops': [seq,
         {'inv': ['`start` = %s /\\ `end` = %s' % (CS, CE), '`start` <= `i` <= `end`', '`localSum` = sum `src` `start` `i`'], 'var': '`end` - `i`'},
         {'inv': ['0 <= `i` <= `threadId`', '`offset` = sum `partialSums` 0 `i`'], 'var': '`threadId` - `i`',
          'after': ['sum_chunks `src` `partialSums` `size` `numThreads` `threadId`']},
         {'inv': ['`start` + 1 <= `i` <= `end`', 'forall x. `start` <= x < `i` -> `dst`[x] = %s' % want('x')], 'var': '`end` - `i`'}],
      'post': ['assert { [@expl:every position is in a chunk] forall i [`dst`[i]]. 0 <= i < `size` -> let t = which `size` `numThreads` i (`numThreads` - 1) in 0 <= t < `numThreads` /\\ cb `size` `numThreads` t <= i < cb `size` `numThreads` (t+1) }'],
    })
pscan('exclusiveScan', True)
pscan('inclusiveScan', False)
SEQ = ['`in:len` >= `N` - 1', '`out:len` >= `N`']
OUT = ['forall i. 0 <= i < `N` -> `out`[i] = sum `in` 0 i', 'forall i. not (0 <= i < `N`) -> `out`[i] = (old `out`)[i]']
UNITS.append({'name': 'seq_scan', 'fn': 'seq_scan', 'targs': ['long'], 'nparams': 3, 'theories': ['scans.Scan'], 'base0': ['in', 'out'], 'constptr': ['in'],
  'requires': SEQ, 'ensures': OUT,
  'loops': [{'inv': ['0 <= `i` <= `N` - 1', 'forall x. 0 <= x <= `i` -> `out`[x] = sum `in` 0 x', 'forall x. not (0 <= x < `N`) -> `out`[x] = `out@Entry`[x]'], 'var': '`N` - `i`'}]})
c0, c1 = 'cb `N` `tnum` `tid`', 'cb `N` `tnum` (`tid`+1)'
UNITS.append({'name': 'scan', 'fn': 'scan', 'targs': ['long'], 'nparams': 3, 'theories': ['scans.Scan'], 'base0': ['in', 'out'], 'constptr': ['in'], 'uses': ['seq_scan'],
  'requires': SEQ, 'ensures': OUT,
  'parallel': [{'team': 'tnum'}, {'nthreads': '`tnum`', 'default_team': True, 'shared': ['out', 'partial_sum'],
     'begin': ['cb_mul `N` `tnum` `tid`', 'if `tid` < `tnum` - 1 then cb_mul `N` `tnum` (`tid`+1)'],
     'own': [{'out': (c0, c1), 'partial_sum': ('`tid`', '`tid`+1')}, {'out': (c0, c1)}],
     'guar': [['`tid` < `tnum` - 1 -> `partial_sum`[`tid`] = sum `in` (%s) (%s)' % (c0, c1), 'forall x. %s <= x < %s -> `out`[x] = sum `in` (%s) x' % (c0, c1, c0)], []],
     'post': ['forall x. %s <= x < %s -> `out`[x] = sum `in` 0 x' % (c0, c1)],
     'after': ['assert { [@expl:every position is in a chunk] forall i [`out`[i]]. 0 <= i < `N` -> let t = which `N` `tnum` i (`tnum` - 1) in 0 <= t < `tnum` /\\ cb `N` `tnum` t <= i < cb `N` `tnum` (t+1) }']}],
  'loops': [
     {'inv': ['`start` = %s /\\ `end` = %s' % (c0, c1), '`start` <= `i` <= `end` - 1', 'forall x. `start` <= x <= `i` -> `out`[x] = sum `in` `start` x'], 'var': '`end` - `i`'},
     {'inv': ['0 <= `i` <= `tid`', '`offset` = sum `partial_sum` 0 `i`'], 'var': '`tid` - `i`', 'after': ['sum_chunks `in` `partial_sum` `N` `tnum` `tid`']},
     {'begin': ['sum_split `in` 0 `start` `i`'],
      'inv': ['`start` <= `i` <= `end`', 'forall x. `start` <= x < `i` -> `out`[x] = sum `in` 0 x', 'forall x. `i` <= x < `end` -> `out`[x] = sum `in` `start` x'], 'var': '`end` - `i`'}],
})
UNITS.append({'name': 'CumulativeSum', 'fn': 'CumulativeSum', 'targs': ['long'], 'nparams': 2, 'theories': ['scans.Scan'], 'base0': ['arr'],
  'requires': ['0 <= `size` <= `arr:len`'],
  'ensures': ['forall i. 0 <= i < `size` -> `arr`[i] = sum (old `arr`) 0 i', 'forall i. not (0 <= i < `size`) -> `arr`[i] = (old `arr`)[i]', 'result = sum (old `arr`) 0 `size`'],
  'loops': [{'inv': ['0 <= `i`', '`i` <= `size`', '`tempnz` = sum `arr@Entry` 0 `i`', 'forall x. 0 <= x < `i` -> `arr`[x] = sum `arr@Entry` 0 x', 'forall x. not (0 <= x < `i`) -> `arr`[x] = `arr@Entry`[x]'], 'var': '`size` - `i`'}]})
