TRUSTED = [
  'clang 18 (parsing and template instantiation of the real headers)',
  'tool/tx.py (clang AST -> WhyML) and tool/base.mlw (memory model, contracts of std:: functions)',
  'why3 (VC generation), z3 / cvc5 (an unsat answer is believed)',
]
ASSUMPTIONS = [
  'integers are mathematical: arithmetic overflow is not modelled (narrowing and signed-to-unsigned conversions are obligations)',
  'memory allocation succeeds; distinct arrays passed by the caller do not overlap',
  'std::copy, std::fill, std::sort, std::lower_bound, std::min, std::max, std::accumulate and std::vector behave as their contracts in tool/base.mlw and tool/tx.py state',
  'index type long and value type double instantiation; the value operators are uninterpreted functions',
]
def H(src, *flags): return {'src': src, 'flags': list(flags)}
HASHOPS = ['Hash' + x for x in 'K.adjustSize K.findIdx K.findIdxForce K.find K.erase K.insert0 K.insert1 K.resetStates V.adjustSize V.findIdx V.findIdxForce V.find V.erase V.insert V.insertValue0 V.insertValue1 V.gatherAll'.split()]
HASHROWS = ['MaskedHash.' + x for x in 'symbolicRow numericRow complement.symbolicRow complement.numericRow complementSorted.numericRow'.split()]
DRV = ['MaskedSpGEMM1p.P', 'MaskedSpGEMM1p.C', 'MaskedSpGEMM2p.P', 'MaskedSpGEMM2p.C', 'MaskedSpGEMM1p.I', 'MaskedSpGEMM2p.I', 'MaskedSpGEMM1p.P.intoall']
DRVT = ['MaskedSpGEMM1p.P.intoA', 'MaskedSpGEMM1p.P.intoB', 'MaskedSpGEMM1p.P.intoM', 'MaskedSpGEMM2p.P.intoA', 'MaskedSpGEMM1p.I.intoA', 'MaskedSpGEMM1p.I.intoM', 'MaskedSpGEMM2p.I.intoA', 'MaskedSpGEMM2p.I.intoM']
import memory
MEM = [u['name'] for u in memory.UNITS]
PROPS = {
 'C01': {'units': ['MSA1A.numericRow', 'MSA1A.symbolicRow', 'MSA2A.numericRow', 'MSA2A.symbolicRow'], 'harness': [H('spgemm.cpp', '-DH_MSA')]},
 'C02': {'units': ['MSA%dA.%s' % (k, x) for k in (1, 2) for x in ('complement.numericRow', 'complementSorted.numericRow', 'complement.symbolicRow')], 'harness': [H('spgemm.cpp', '-DH_MSAC')]},
 'C03': {'units': HASHROWS, 'harness': [H('spgemm.cpp', '-DH_HASH')]},
 'C12': {'units': HASHOPS, 'harness': [H('hash.cpp')], 'rule': 'generated history of operations; non-trivial when at least two keys are stored at once'},
 'C04': {'units': ['HeapEntry.less'] + [h + x for h in ('MaskedHeap_v0', 'MaskedHeap_v1', 'MaskedHeap_v2', 'MaskedHeap<3>', 'MaskedHeap.complement') for x in ('.numericRow', '.symbolicRow')],
         'thorough_units': [h + x for h in ('MaskedHeap<0>', 'MaskedHeap<1>', 'MaskedHeap<dot>') for x in ('.numericRow', '.symbolicRow')], 'budget': 560, 'harness': [H('spgemm.cpp', '-DH_HEAP')],
         'assumptions': ['the add operator is associative and commutative (stated in the property)', 'std::make_heap, std::pop_heap and std::push_heap behave as their contracts in contracts/heaps.mlw state; as in libstdc++, pop_heap only needs the rest of the heap to be ordered (the code lowers the top before calling it)', 'column indices stay below the largest value of the index type']},
 'C05': {'units': ['MCA.numericRow', 'MCA.symbolicRow'], 'harness': [H('spgemm.cpp', '-DH_MCA')]},
 'C06': {'units': ['MaskedInner.numericRow', 'MaskedInner.symbolicRow'], 'harness': [H('spgemm.cpp', '-DH_INNER')]},
 'C09': {'units': ['exclusiveScan', 'inclusiveScan', 'seq_scan', 'scan', 'CumulativeSum'], 'harness': [H('parts.cpp', '-DH_SCAN')], 'rule': 'generated array and thread count; non-trivial when the array has at least two elements'},
 'C08': {'units': ['distributeWork'], 'harness': [H('parts.cpp', '-DH_WORK')], 'rule': 'generated work estimates and thread count; non-trivial when there are at least two rows and two threads'},
 'C10': {'units': ['calculateMultOps', 'calculateFlops', 'calculateFlopsMasked', 'calculateWork', 'estimateResultSize'] + ['scanInputs.' + c + s + x for c, x in (('f', 'fff'), ('t', 'fff'), ('f', 'ftf'), ('t', 'ftt'), ('f', 'tff'), ('t', 'tff')) for s in 'tf'], 'harness': [H('parts.cpp', '-DH_EST')], 'rule': 'generated operands; non-trivial when the product needs at least one multiplication'},
 'C07': {'units': DRV, 'thorough_units': DRVT, 'harness': [H('drivers.cpp')], 'rule': 'generated operands, thread counts and delays; non-trivial when the result has at least two entries'},
 'C11': {'units': MEM, 'harness': [H('memory.cpp')], 'rule': 'generated sequence of buffers, dirty sizes and accumulators; non-trivial when some accumulator held at least two keys'},
 'C14': {'units': [c + '.' + x for c in ('CSR', 'CSC') for x in ('copy', 'assign', 'selfassign', 'make_empty', 'destroy', 'default')], 'harness': [H('formats.cpp', '-DH_COPY')], 'rule': 'generated sequence of constructions, copies, assignments, emptying, destruction; non-trivial when some matrix has at least two entries'},
 'C15': {'units': ['BitMap.' + x for x in 'default create copy assign selfassign destroy reset set_bit get_bit get_next_bit'.split()], 'harness': [H('formats.cpp', '-DH_BITMAP')], 'rule': 'generated history on several bitmaps; non-trivial when some bitmap holds at least two positions'},
 'C16': {'units': ['mergesort', 'cpu_sorting_key_value', 'CSR.sortIds', 'CSR.Sorted', 'CSC.Sorted'], 'harness': [H('formats.cpp', '-DH_SORT')], 'rule': 'generated keys or rows; non-trivial when there are at least two entries',
         'assumptions': ['std::sort on pairs returns the same pairs ordered by key', 'the recursive calls of mergesort are replaced by its own contract for a strictly smaller range (unit mergesort.rec), i.e. induction on the length of the range', 'the bool computed by Sorted() is what it prints']},
 'C13': {'units': ['CSR.fromCSC', 'CSR.fromCSC2', 'csr2csc', 'CSC.fromArrays', 'CSC.fromTriples', 'CSC.fromTuples', 'CSC.fromEdges', 'CumulativeSum'], 'harness': [H('formats.cpp', '-DH_CONV')], 'rule': 'generated list of entries converted one way; non-trivial when there are at least two entries',
         'assumptions': ['std::atomic_fetch_add is verified for one order of the increments; the conclusion (which positions a row of the result gets) does not depend on the order, the order within a column does']},
}
