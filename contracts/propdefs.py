# The property table: the source of properties.jsonl and (with props.py) MANIFEST.json.
TECH = 'contract-based deductive verification (clang AST of the real headers -> WhyML contracts -> z3/cvc5)'
NOTE = ('Unbounded proof of the listed contracts on the code extracted from the current tree (mathematical integers, uninterpreted value operators); '
        'trusted: clang, tool/tx.py, tool/base.mlw (contracts of std::), why3 and the solvers. A bounded run of the real code under ASan/UBSan accompanies it and supplies failing inputs; it is not counted as proof.')
NOTES = 'Every check: ./check ID.  Design, assumptions and the seeded-bug table are in DESIGN.md.'
PENDING = 'contracts not written yet; see DESIGN.md for the plan'
PENDING17 = 'contracts for these helpers (vectors of vectors filled by several threads, recursive splitting) were not completed in the time; nothing is claimed, and no other technique is used instead'
PENDING18 = 'the kernels keep thread-private tables, std::vectors of vectors and balancing state (BIN) across two parallel regions; their contracts were not completed in the time; nothing is claimed'
TESTS = 'The multiplication test (spgemm-test.cpp) is empty; the suite exercises accumulators, scans and allocation on a few fixed cases and never multiplies matrices through this code.'
MSTR = ('a well-formed CSR matrix without duplicate columns per row')
SPEC = ('Row i of C must hold, exactly once each, the columns j {sel} for which some k has A(i,k) and B(k,j), each with the sum under the user\'s add of mul(A(i,k), B(k,j)), taken in the order of k in A\'s row.')
def mult(id, title, what, sel, extra, files, mech, **kw):
    return dict(id=id, title=title, over=['inputs', 'configurations'],
        statement='%s For every mask row, %s %s' % (what, SPEC.format(sel=sel), extra),
        quant='every pair of conforming sparse operands, every mask with distinct columns per row, every pair of operators, one-phase and two-phase use',
        why=TESTS + ' Even a test that did would sample a handful of sparsity patterns, while the row algorithms branch on the relative order and state of every entry.',
        files=files, mech=mech, na=PENDING, **kw)
B = 'spgemm-blocks/'
DEFS = [
 mult('C01', 'Dense-accumulator masked product equals the definition', 'The masked product computed with the dense (array) accumulators equals its definition.', 'present in the mask row',
   'The counting pass reports exactly the number of entries the numeric pass writes.',
   [B + 'msa/MSAAlgorithm.h', B + 'msa/MaskedSparseAccumulator1A.h', B + 'msa/MaskedSparseAccumulator2A.h'],
   [('MSA1A/MSA2A::numericRow', B + 'msa/MSAAlgorithm.h'), ('symbolicRow', B + 'msa/MSAAlgorithm.h')],
   state=[('state array', '255 not allowed, 0 allowed, 1 has a value', B + 'msa/MaskedSparseAccumulator1A.h')], observe=['C returned by MaskedSpGEMM1p / MaskedSpGEMM2p with MSA1A, MSA2A']),
 mult('C02', 'Dense-accumulator product under a complemented mask is right', 'The dense accumulators also compute the product under a complemented mask.', 'absent from the mask row',
   'The sorted variants emit increasing columns, and the counting pass reports exactly the number of entries the numeric pass writes.',
   [B + 'msa/MSAAlgorithm.h', B + 'msa/MaskedSparseAccumulator1A.h', B + 'msa/MaskedSparseAccumulator2A.h'],
   [('complemented numericRow/symbolicRow', B + 'msa/MSAAlgorithm.h'), ('dirtyIndices', B + 'msa/MaskedSparseAccumulator1A.h')],
   observe=['C returned by MaskedSpGEMM1p / 2p with the complemented MSA1A, MSA2A']),
 mult('C03', 'Hash-based masked product equals the definition', 'The masked and the complemented-mask product computed with hash tables equal their definition.', 'selected by the (possibly complemented) mask row',
   'The counting pass reports exactly the number of entries the numeric pass writes, and the table never overflows.',
   [B + 'hash/MaskedHashAlgorithm.h', B + 'hash/HashAccumulator.h'], [('MaskedHash::numericRow/symbolicRow', B + 'hash/MaskedHashAlgorithm.h'), ('open addressing with linear probing', B + 'hash/HashAccumulator.h')],
   observe=['C returned by MaskedSpGEMM1p / 2p with MaskedHash']),
 mult('C04', 'Heap-based masked product equals the definition', 'The masked and the complemented-mask product computed by heap merging equal their definition when rows of B and M are sorted by column and the add operator is associative and commutative.', 'selected by the (possibly complemented) mask row',
   'Columns come out in increasing order.',
   [B + 'heap/MaskedHeapAlgorithm.h', B + 'heap/MaskedHeapAlgorithmInspect.h', B + 'heap/Heap.h'], [('MaskedHeap_v0/v1/v2 numericRow/symbolicRow', B + 'heap/MaskedHeapAlgorithm.h'), ('MaskedHeap<Inspect> and MaskedHeapComplemented', B + 'heap/MaskedHeapAlgorithmInspect.h'), ('binary heap of row cursors', B + 'heap/Heap.h')],
   observe=['C returned by MaskedSpGEMM1p / 2p with MaskedHeap_v0, v1, v2, MaskedHeap<0, 1, 3, dot> and the complemented MaskedHeap']),
 mult('C05', 'Mask-compressed accumulator product equals the definition', 'The masked product computed with the mask-compressed accumulator equals its definition when the rows of B and M are sorted by column.', 'present in the mask row',
   'The counting pass reports exactly the number of entries the numeric pass writes.',
   [B + 'mca/MCAAlgorithm.h', B + 'mca/MaskCompressedAccumulator.h'], [('MCA::numericRow/symbolicRow', B + 'mca/MCAAlgorithm.h')],
   observe=['C returned by MaskedSpGEMM1p / 2p with MCA']),
 mult('C06', 'Inner-product masked multiplication equals the definition', 'The masked product computed by sparse dot products (B given by columns, sorted rows of A and columns of B) equals its definition.', 'present in the mask row',
   'Columns come out in the order of the mask row, and the counting pass reports exactly the number of entries the numeric pass writes.',
   [B + 'inner/MaskedInnerSpGEMM.h', B + 'masked-spgemm-inner.h'], [('MaskedInner::numericRow/symbolicRow', B + 'inner/MaskedInnerSpGEMM.h'), ('drivers', B + 'masked-spgemm-inner.h')],
   observe=['C returned by MaskedSpGEMM1p / 2p with MaskedInner']),
 dict(id='C07', title='Drivers return a well-formed CSR, independent of the thread count', over=['inputs', 'configurations', 'schedules'],
   statement='For any conforming inputs and any number of threads, the one-phase and two-phase masked multiplications return a matrix with the shape of the product whose row offsets start at 0, never decrease and end at the number of entries, with every row holding exactly what the row algorithm produced for it. The operands and the mask are left unchanged (except when the output is one of them, which is allowed), the result does not depend on the number of threads or their schedule, and no thread writes what another thread reads or writes without a barrier between.',
   quant='all conforming inputs (empty rows, empty matrices, more threads than rows), all thread counts, all interleavings of the parallel region', why=TESTS + ' Interleavings and thread counts are outside what any run samples.',
   files=[B + 'masked-spgemm.h', B + 'masked-spgemm-inner.h', B + 'common.h'], mech=[('MaskedSpGEMM1p', B + 'masked-spgemm.h'), ('MaskedSpGEMM2p', B + 'masked-spgemm.h'), ('setRowOffsets, copyValuesToC, initC', B + 'common.h')],
   observe=['C returned by MaskedSpGEMM1p / MaskedSpGEMM2p'], na=PENDING),
 dict(id='C08', title='Work partition gives every row to exactly one thread', over=['inputs', 'configurations'],
   statement='Splitting rows among threads by estimated work yields consecutive ranges that start at the first row, end after the last one and cover every row exactly once, whatever the work estimates and the number of threads. This includes no rows, no work, and more threads than rows.',
   quant='all arrays of non-negative work estimates, all row counts, all thread counts', why='No existing test calls the partition; the failing cases (skewed work, zero work, more threads than rows) depend on values.',
   files=[B + 'common.h'], mech=[('distributeWork', B + 'common.h')], observe=['row range returned for each thread'], na=PENDING),
 dict(id='C09', title='Prefix sums are right for every length and thread count', over=['inputs', 'configurations', 'schedules'],
   statement='Each prefix-sum routine (inclusive or exclusive, sequential or parallel) writes at every position the sum of exactly the preceding elements (including the element itself for the inclusive ones) and touches nothing outside its arrays. The result is the same for every number of threads and every schedule.',
   quant='all array lengths including 0 and lengths below the thread count, all element values, all thread counts and interleavings', why='The scan test samples lengths that are powers of two with one thread count and one kind of data; chunk-boundary errors and races show only for particular length/thread-count pairs and schedules.',
   files=[B + 'scan.h', 'utility.h'], mech=[('exclusiveScan, inclusiveScan', B + 'scan.h'), ('scan, seq_scan, CumulativeSum', 'utility.h')], observe=['output arrays of the scans'], na=PENDING),
 dict(id='C10', title='Work estimates are exact and size bounds are never too small', over=['inputs', 'configurations'],
   statement='The multiplication counts (total and per row, with or without a mask) equal the number of scalar products the definition needs, for any number of threads. The sizes derived from them (result size, longest row of A and M, largest row of work in a range of rows) are never smaller than what the rows of that range produce.',
   quant='all conforming sparse operands and masks, all row ranges, all thread counts', why='No existing test calls these functions; under-estimates corrupt memory only for the patterns that fill the bound.',
   files=[B + 'common.h', 'BIN.h'], mech=[('calculateMultOps, calculateFlops, calculateWork', B + 'common.h'), ('estimateResultSize, scanInputs', B + 'common.h')], observe=['returned counts and per-row arrays'], na=PENDING),
 dict(id='C11', title='Scratch memory is aligned, disjoint, big enough and handed back clean', over=['inputs', 'configurations', 'histories'],
   statement='Aligned allocation returns memory aligned as asked and frees exactly what it allocated; splitting a buffer yields blocks that do not overlap, stay inside the buffer and respect their alignment. Every accumulator gets a buffer of at least the size it asks for, starts in its empty state, and is again in its empty state after each row, so a buffer may be reused by the next row, phase or thread.',
   quant='all sizes, alignments, numbers of rows processed on one buffer, and sequences of set/release', why='Tests allocate and split a handful of sizes and alignments and process no rows; stale accumulator state shows only for later rows with overlapping columns.',
   files=[B + 'util.h', B + 'msa/MSAAlgorithm.h', B + 'hash/HashAccumulator.h', B + 'hash/MaskedHashAlgorithm.h', B + 'mca/MaskCompressedAccumulator.h'], mech=[('mallocAligned, freeAligned, splitMemory, roundUp, roundDown', B + 'util.h'), ('setBuffer, releaseBuffer', B)], observe=['addresses and contents of scratch buffers'], na=PENDING),
 dict(id='C12', title='The hash accumulator behaves as a map from column to value', over=['inputs', 'histories'],
   statement='For any sequence of operations that never stores more keys than the capacity, the open-addressing accumulator finds exactly the keys that were stored and not removed, with their last value, whatever collisions and wrap-arounds occur. Removing keys or clearing the table leaves every other key reachable and, once all keys are removed, every slot empty.',
   quant='all capacities that are powers of two, all key sets, all insertion/removal orders', why='The hash-accumulator test performs one fixed sequence of operations; probing errors need colliding keys and a wrap-around.',
   files=[B + 'hash/HashAccumulator.h', 'mask_hash.h'], mech=[('find, insert, remove (backward shift)', B + 'hash/HashAccumulator.h')], observe=['returned values'], na=PENDING),
 dict(id='C13', title='Sparse format conversions and transposition preserve the matrix', over=['inputs', 'configurations'],
   statement='Converting between triples, CSR and CSC, transposing, or building from raw arrays yields a well-formed matrix of the right shape with exactly the same (row, column, value) entries, including for empty rows, empty columns and empty matrices. Indices come out sorted where the conversion sorts them, and the source is left unchanged.',
   quant='all well-formed matrices, shapes and thread counts', why='Existing tests touch only a few of the conversions on fixed inputs, never empty matrices or all thread counts.',
   files=['CSR.h', 'CSC.h', 'util/transpose.h', 'util/triple-util.h', 'SplitTuples.h', 'utility.h'], mech=[('CSR(CSC), CSC(CSR), constructors from triples and arrays', 'CSR.h, CSC.h'), ('csr2csc_*', 'util/transpose.h')], observe=['arrays of the resulting matrix'], na=PENDING),
 dict(id='C14', title='Copying, assigning and emptying matrices is deep and safe', over=['inputs', 'histories'],
   statement='Copy construction and assignment of a sparse matrix yield an equal matrix that shares no storage with its source, assignment to itself changes nothing, and emptying a matrix leaves it with no entries. No sequence of these operations and destruction frees storage twice, uses it after it was freed, or changes another matrix.',
   quant='all well-formed matrices including empty ones and ones with no entries, all sequences of copies, assignments and destructions', why='Tests copy few matrices and never empty ones or onto a matrix that already owns storage.',
   files=['CSR.h', 'CSC.h'], mech=[('copy constructors, operator=, make_empty, destructors', 'CSR.h, CSC.h')], observe=['arrays of source and target'], na=PENDING),
 dict(id='C15', title='The bitmap behaves as a set of positions', over=['inputs', 'histories'],
   statement='After clearing, a bitmap reports exactly the positions that were set, for every position below its size, and a copy or assignment is an independent equal bitmap. Searching for the next set position returns the smallest set position greater than the given one, or -1 if there is none.',
   quant='all sizes and sets of positions, including positions beyond 2^32 words of offset', why='No existing test uses the bitmap; word-boundary errors depend on particular positions.',
   files=['BitMap.h'], mech=[('set_bit, get_bit, get_next_bit, reset, copy', 'BitMap.h')], observe=['returned positions'], na=PENDING),
 dict(id='C16', title='Sorting helpers return the ordered input', over=['inputs', 'configurations', 'schedules'],
   statement='The library\'s own sorting helpers (merge sort of keys with values, sorting the entries of every matrix row by column) leave a permutation of their input in increasing order of keys, with each value still attached to its key, whatever the number of threads, and touch nothing else. The sortedness report of a matrix says 1 exactly when every row (CSR) or column (CSC) is in non-decreasing order.',
   quant='all arrays and lengths, all well-formed matrices (duplicates allowed), all thread counts', why='No test sorts anything through these helpers; a sample of arrays would not settle stability of the key-value link or the empty and one-element ranges.',
   files=['CSR.h', 'CSC.h', 'utility.h'], mech=[('CSR::sortIds, CSR::Sorted, CSC::Sorted', 'CSR.h, CSC.h'), ('mergesort, cpu_sorting_key_value, my_is_sorted', 'utility.h')], observe=['sorted arrays, printed report'], na=PENDING),
 dict(id='C17', title='Pattern helpers return exactly the entries their definition selects', over=['inputs'],
   statement='Intersecting two matrices keeps exactly the entries present in both, removing or merging duplicates keeps every distinct entry once, splitting a matrix loses and duplicates no entry, and selecting rows or columns returns exactly the selected entries.',
   quant='all well-formed matrices and selections', why='Tests do not reach these helpers or use one fixed matrix.',
   files=['CSR.h', 'CSC.h', 'SplitTuples.h'], mech=[('Intersect, MergeDuplicates, SpRef, Splitlist', 'CSR.h, CSC.h')], observe=['resulting matrix'], na=PENDING17),
 dict(id='C18', title='Stand-alone SpGEMM kernels equal the definition of the product', over=['inputs', 'configurations', 'schedules'],
   statement='The stand-alone kernels (hash with and without a mask, heap, inner product) return for every pair of conforming operands and every number of threads a well-formed matrix holding exactly the entries of the (masked) product, each with the right value. Their load balancer assigns every row to exactly one thread and reserves a table large enough for every row of that thread.',
   quant='all conforming operands, masks, thread counts', why=TESTS,
   files=['hash_mult.h', 'mask_hash_mult.h', 'heap_mult_generic.h', 'inner_mult.h', 'BIN.h'], mech=[('HashSpGEMM, mxm_hash_mask, HeapSpGEMM, innerSpGEMM_nohash', '.'), ('BIN', 'BIN.h')], observe=['C returned by the kernel'], na=PENDING18),
 dict(id='C19', title='Reading matrix files reproduces the stored matrix', over=['inputs'],
   statement='Reading a matrix from a text or binary file yields exactly the entries the file holds, symmetrised, made loop-free or de-duplicated only as requested.',
   quant='all well-formed files', why='Tests read a few fixed files.', files=['IO.h'], mech=[('ReadASCII, ReadBinary', 'IO.h')], observe=['matrix read'],
   na='the behaviour lives in iostream/fscanf parsing and file I/O, which no contract verifier here can execute symbolically; contracts on the readers would be assumptions about the library, not proofs'),
 dict(id='C20', title='Random graph generators produce graphs of the requested size', over=['inputs', 'configurations'],
   statement='The bundled random generators (R-MAT, random, SSCA2, PaRMAT) produce edges with endpoints in range and the requested number of edges, reproducibly for a given seed.',
   quant='all parameters and seeds', why='Distributional and stream properties are not decided by a test run.', files=['GTgraph/R-MAT/graph.c', 'gen.h' if 0 else 'PaRMAT/src/Edge.cpp'], mech=[('R-MAT generator', 'GTgraph/R-MAT/graph.c')], observe=['edge list'],
   na='floating-point random recursion over third-party stream generators (SPRNG): neither the distribution nor the stream state has a contract a deductive verifier can discharge'),
]
