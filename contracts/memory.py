# Scratch memory (C11): spgemm-blocks/util.h and the accumulators' setBuffer / releaseBuffer.
# A byte buffer is a map from positions to "is this byte 0xFF"; `hdr`[o] is the size_t whose bytes start at o.
UNITS = []
def add(nm, **kw): UNITS.append(dict(dict(name=nm, theories=['align.Align'], callable=False, loops=[]), **kw))
for t, sz in (('std::byte', 1), ('long', 8), ('E24', 24)):
    n = t.split(':')[-1]
    add('mallocAligned.' + n, fn='mallocAligned', targs=[t], hdr=True, addr=True, live=True, requires=['`nelem` >= 0', '`alignment` >= 1'] + (['mod `alignment` 8 = 0'] if sz > 1 else []), ensures=[],        post=['assert { [@expl:aligned as asked] mod (`mem:addr` + `mem:off`) `alignment` = 0 }', 'assert { [@expl:the block lies inside the allocation] 8 <= `mem:off` /\\ `mem:off` + %d * `nelem` <= `mem:len` }' % sz,
              'assert { [@expl:the header says where the allocation starts] `mem.hdr`[`mem:off` - 8] = `mem:off` }'])
add('freeAligned', fn='freeAligned', targs=['std::byte'], hdr=True, addr=True, live=True, requires=['`ptr:live` = 1', '8 <= `ptr:off` <= `ptr:len`', '`ptr.hdr`[`ptr:off` - 8] = `ptr:off`'], ensures=['`ptr:live` <> 1'])
for d in (1, 2, 3, 8, 16, 24):
    add('roundUp.%d' % d, fn='roundUp', targs=[str(d), 'unsigned long'], requires=[], ensures=['result >= `num`', 'result < `num` + %d' % d, 'mod result %d = 0' % d])
    add('roundDown.%d' % d, fn='roundDown', targs=[str(d), 'unsigned long'], requires=[], ensures=['0 <= result <= `num`', 'result > `num` - %d' % d, 'mod result %d = 0' % d])
CL = 'forall b. `dirty` <= b < `bufferSize` -> `buffer`[b]'
def setbuf(nm, cls, need, al, mx, view, esz, leaf, default, extra=[]):
    add(nm, fn='setBuffer', cls=cls, addr=True, base0=['buffer'],
        requires=['%s >= 0' % mx, '0 <= `dirty` <= `bufferSize`', '`bufferSize` <= `buffer:len`', '%s <= `bufferSize`' % need, 'mod `buffer:addr` (%s) = 0' % al, CL],
        ensures=['forall b. b < 0 \\/ b >= `bufferSize` -> `buffer`[b] = (old `buffer`)[b]'],
        post=['assert { [@expl:the view is big enough] `%s:len` >= %s /\\ `%s:voff` + %d * %s <= `bufferSize` }' % (view, mx, view, esz, mx),
              'assert { [@expl:every entry starts in its default state] forall i. 0 <= i < %s -> `%s`[i] = %s }' % (mx, leaf, default),
              'assert { [@expl:memory not declared dirty is clean] 0 <= `this._dirty` <= `bufferSize` /\\ forall b. `this._dirty` <= b < `bufferSize` -> `buffer`[b] }'] + extra)
for compl in (False, True):
    c = 'true' if compl else 'false'
    for k, sz, al in (('void', 1, '1'), ('double', 16, '16')):
        n = 'K' if k == 'void' else 'V'; V = n == 'V'
        mx = '`this._maxIndex`'
        ent = ['assert { forall i. 0 <= i < %s -> `this._entries.value`[i] = nt_ff }' % mx] if V else []
        A1 = 'MaskedSparseAccumulator1A<long, %s, %s>' % (k, c)
        setbuf('MSA1A.setBuffer.%s%d' % (n, compl), A1, '%s * %d' % (mx, sz), str(al), mx, 'this._entries', sz, 'this._entries.state', '255', ent)
        A2 = 'MaskedSparseAccumulator2A<long, %s, %s>' % (k, c)
        setbuf('MSA2A.setBuffer.%s%d' % (n, compl), A2, '%s * %d' % (mx, 9 if V else 1), '8' if V else '1', mx, 'this._storage._states', 1, 'this._storage._states', '255',
               ['assert { [@expl:the values and the states do not overlap] `this._storage._values:voff` + 8 * %s <= `this._storage._states:voff` /\\ `this._storage._values:len` >= %s }' % (mx, mx)] if V else [])
for k, sz in (('void', 1), ('double', 16)):
    n = 'K' if k == 'void' else 'V'; V = n == 'V'
    mx = '`this._maxIndex`'
    setbuf('MCA.setBuffer.' + n, 'MaskCompressedAccumulator<long, %s>' % k, '%s * %d' % (mx, sz), str(sz), mx, 'this._entries', sz, 'this._entries.state', '255',
           ['assert { forall i. 0 <= i < %s -> `this._entries.value`[i] = nt_ff }' % mx] if V else [])
UP = '(if mod {d} {s} = 0 then {d} else {d} + {s} - mod {d} {s})'
for n, sz, E in (('K', 8, 'HashAccumEntryT<long>'), ('V', 24, 'HashAccumEntryT<long, double, bool>')):
    mx = '`this._capacity`'
    up = UP.format(d='`this._dirty`', s=sz)
    setbuf('Hash%s.setBuffer' % n, 'HashAccumulatorBase<%s>' % E, '%s * %d' % (mx, sz), str(sz), mx, 'this._table', sz, 'this._table.key', '-1',
           ['assert { [@expl:the table starts after the dirty memory] `this._table:voff` = %s }' % up])
    add('Hash%s.releaseBuffer' % n, fn='releaseBuffer', cls='HashAccumulatorBase<%s>' % E, requires=['`this._dirty` >= 0', '`this._maxSize` >= 0'],
        ensures=['result >= `this._dirty`', '`this._maxSize` > 0 -> result >= %s + %d * `this._maxSize`' % (up, sz)])
    add('Hash%s.resize' % n, fn='resize', cls='HashAccumulatorBase<%s>' % E, requires=['0 <= `size`', 'grow 16 (`size` + 1) <= `this._capacity`'], theories=['hash.Hash'],
        uses=['Hash%s.adjustSize' % n], ensures=['`this._maxSize` >= `this._size`', '`this._maxSize` >= old `this._maxSize`', '`this._size` > `size`', '`this._mask` = `this._size` - 1'])
    add('Hash%s.memoryRequirement' % n, fn='getMemoryRequirement', cls='HashAccumulatorBase<%s>' % E, requires=[mx + ' >= 0'], ensures=['let (s, a) = result in s >= %d * %s /\\ a >= 1 /\\ mod a 8 = 0' % (sz, mx)])
for compl in (False, True):
    for k, s1, a1, s2, a2 in (('void', 1, 1, 1, 1), ('double', 16, 16, 9, 8)):
        n = 'K' if k == 'void' else 'V'
        for c, s, a in ((1, s1, a1), (2, s2, a2)):
            cls = 'MaskedSparseAccumulator%dA<long, %s, %s>' % (c, k, 'true' if compl else 'false')
            add('MSA%dA.releaseBuffer.%s%d' % (c, n, compl), fn='releaseBuffer', cls=cls, requires=['`this._dirty` >= 0'], ensures=['result >= `this._dirty`'])
            add('MSA%dA.memoryRequirement.%s%d' % (c, n, compl), fn='getMemoryRequirement', cls=cls, requires=['`this._maxIndex` >= 0'], ensures=['let (s, a) = result in s >= %d * `this._maxIndex` /\\ a >= 1 /\\ mod a %d = 0' % (s, a)])
for k, s in (('void', 1), ('double', 16)):
    n = 'K' if k == 'void' else 'V'; cls = 'MaskCompressedAccumulator<long, %s>' % k
    add('MCA.releaseBuffer.' + n, fn='releaseBuffer', cls=cls, requires=['`this._dirty` >= 0'], ensures=['result >= `this._dirty`'])
    add('MCA.memoryRequirement.' + n, fn='getMemoryRequirement', cls=cls, requires=['`this._maxIndex` >= 0'], ensures=['let (s, a) = result in s >= %d * `this._maxIndex` /\\ a >= 1 /\\ mod a %d = 0' % (s, s)])
for nm, cls, sc, nc in (('MSA1A', 'internal::MSA1A<long, double, false, false>', '1 * `this._symbolicAccumulator._maxIndex`', '16 * `this._numericAccumulator._maxIndex`'),
                        ('MSA2A', 'internal::MSA2A<long, double, false, false>', '1 * `this._symbolicAccumulator._maxIndex`', '9 * `this._numericAccumulator._maxIndex`'),
                        ('MSA1A.complement', 'internal::MSA1A<long, double, true, false>', '1 * `this._symbolicAccumulator._maxIndex`', '16 * `this._numericAccumulator._maxIndex`'),
                        ('MSA2A.complement', 'internal::MSA2A<long, double, true, false>', '1 * `this._symbolicAccumulator._maxIndex`', '9 * `this._numericAccumulator._maxIndex`'),
                        ('MaskedHash', 'internal::MaskedHash<long, double, false>', '8 * `this._symbolicAccumulator._capacity`', '24 * `this._numericAccumulator._capacity`'),
                        ('MaskedHash.complement', 'internal::MaskedHashComplemented<long, double, true>', '8 * `this._symbolicAccumulator._capacity`', '24 * `this._numericAccumulator._capacity`'),
                        ('MCA', 'MCA<false, false>::Impl<long, double>', '1 * `this._symbolicAccumulator._maxIndex`', '16 * `this._numericAccumulator._maxIndex`')):
    al = {'MSA1A': (1, 16), 'MSA2A': (1, 8), 'MaskedHash': (8, 24), 'MCA': (1, 16)}[nm.split('.')[0]]
    c_ = int('complement' in nm)
    add(nm + '.memoryRequirement', fn='getMemoryRequirement', cls=cls, uses=['MSA2A.memoryRequirement.K%d' % c_, 'MSA2A.memoryRequirement.V%d' % c_] if 'MSA2A' in nm else [], requires=[sc.split(' * ')[1] + ' >= 0', nc.split(' * ')[1] + ' >= 0'],
        ensures=['let (s, a) = result in s >= %s /\\ s >= %s /\\ a >= 1 /\\ mod a %d = 0 /\\ mod a %d = 0' % (sc, nc, al[0], al[1])])

# the constructors give every accumulator room for the largest row
for nm, cls, ent, cap in (('MSA1A', 'internal::MSA1A<long, double, false, false>', '_maxIndex', '`maxIndex`'), ('MSA2A', 'internal::MSA2A<long, double, false, false>', '_maxIndex', '`maxIndex`'),
                          ('MSA1A.complement', 'internal::MSA1A<long, double, true, false>', '_maxIndex', '`maxIndex`'), ('MSA2A.complement', 'internal::MSA2A<long, double, true, false>', '_maxIndex', '`maxIndex`'),
                          ('MCA', 'MCA<false, false>::Impl<long, double>', '_maxIndex', '`maxRowSizeM`'),
                          ('MaskedHash', 'internal::MaskedHash<long, double, false>', '_capacity', 'grow 16 (`maxRowSizeM` + 1)'), ('MaskedHash.complement', 'internal::MaskedHashComplemented<long, double, true>', '_capacity', 'grow 16 (`maxRowSizeM` + `maxRowFlops` + 1)')):
    h = 'Hash' in nm
    add(nm + '.construct', fn='Impl' if nm == 'MCA' else cls.split('::')[-1].split('<')[0], cls=cls, requires=['`maxIndex` >= 0', '`maxRowSizeM` >= 0', '`maxRowFlops` >= 0', '`maxRowSizeA` >= 0'],
        theories=['hash.Hash'] if h else [], uses=['HashK.adjustSize', 'HashV.adjustSize'] if h else [], pre=['grow_mono 16 (`maxRowFlops` + 1) (`maxRowSizeM` + `maxRowFlops` + 1)'] if 'complement' in nm and h else [],
        ensures=['`this._%sAccumulator.%s` = %s' % (w, ent, cap) for w in ('symbolic', 'numeric')] + (['`this._%sAccumulator._maxSize` >= `this._%sAccumulator._size`' % (w, w) for w in ('symbolic', 'numeric')] if h else []))
