# Copying, assigning, emptying and destroying matrices (C14): CSR.h, CSC.h
UNITS = []
def inv(o, ptr, ids, n):
    """class invariant: what the object claims to hold is allocated and big enough"""
    return ['`%s.nnz` >= 0' % o, '`%s.%s` >= 0' % (o, n), '`{0}.nnz` > 0 -> `{0}.{1}:live` = 1 /\\ `{0}.values:live` = 1 /\\ `{0}.{1}:len` >= `{0}.nnz` /\\ `{0}.values:len` >= `{0}.nnz`'.format(o, ids),
            '`{0}.{2}` > 0 -> `{0}.{1}:live` = 1 /\\ `{0}.{1}:len` >= `{0}.{2}` + 1'.format(o, ptr, n)]
def equal(a, b, ptr, ids, n, extra=()):
    f = lambda x: (a + '.' + x, b + '.' + x)
    return ['`%s` = `%s`' % f(x) for x in ['nnz', 'rows', 'cols'] + list(extra)] + [
        'forall i. 0 <= i < `%s.nnz` -> `%s`[i] = `%s`[i]' % ((b,) + f(ids)), 'forall i. 0 <= i < `%s.nnz` -> `%s`[i] = `%s`[i]' % ((b,) + f('values')),
        '`%s.%s` > 0 -> forall i. 0 <= i <= `%s.%s` -> `%s`[i] = `%s`[i]' % ((b, n, b, n) + f(ptr))]
for cls, ptr, ids, n, extra in (('CSR', 'rowptr', 'colids', 'rows', ['zerobased']), ('CSC', 'colptr', 'rowids', 'cols', [])):
    C = cls + '<long, double>'
    def add(nm, **kw): UNITS.append(dict(name=cls + '.' + nm, cls=C, theories=[], live=True, callable=False, loops=[], **kw))
    I = lambda o: inv(o, ptr, ids, n)
    SAME = ['`this.%s` = old `this.%s`' % (x, x) for x in ['nnz', 'rows', 'cols', ptr, ids, 'values', ptr + ':len', ids + ':len', 'values:len', ptr + ':live', ids + ':live', 'values:live'] + extra]
    EMPTY = ['`this.nnz` = 0', '`this.rows` = 0', '`this.cols` = 0', 'old `this.nnz` > 0 -> `this.%s:live` <> 1 /\\ `this.values:live` <> 1' % ids, 'old `this.%s` > 0 -> `this.%s:live` <> 1' % (n, ptr)]
    add('copy', fn=cls, sigmatch=r'^void \(const %s<' % cls, requires=I('rhs'), ensures=I('this') + equal('this', 'rhs', ptr, ids, n, extra))
    add('assign', fn='operator=', requires=I('this') + I('rhs'), ensures=I('this') + equal('this', 'rhs', ptr, ids, n, extra))
    add('selfassign', fn='operator=', alias={'rhs': 'this'}, requires=I('this'), ensures=I('this') + SAME)
    add('make_empty', fn='make_empty', requires=I('this'), ensures=I('this') + EMPTY)
    add('destroy', fn='~' + cls, requires=I('this'), ensures=EMPTY[3:])
    add('default', fn=cls, sigmatch=r'^void \(\)', requires=[], ensures=I('this') + ['`this.nnz` = 0', '`this.rows` = 0', '`this.cols` = 0'])
