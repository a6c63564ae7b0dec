# The bitmap (C15): BitMap.h
UNITS = []
def add(nm, **kw): UNITS.append(dict(dict(name='BitMap.' + nm, cls='BitMap', theories=['bits.Bits'], live=True, callable=False, loops=[]), **kw))
END = '`this.end:off`'
INV = lambda o: ['`%s.start:live` = 1 \\/ `%s.start:live` = 0' % (o, o), '0 <= `{0}.end:off` <= `{0}.start:len`'.format(o)]
OK = INV('this') + ['words `this.start` ' + END]
EQ = ['`this.end:off` = `rhs.end:off`', 'forall w. 0 <= w < `rhs.end:off` -> `this.start`[w] = `rhs.start`[w]']
add('default', fn='BitMap', sigmatch=r'^void \(\)', requires=[], ensures=INV('this') + [END + ' = 0'])
add('create', fn='BitMap', sigmatch=r'^void \(uint64_t', requires=[], ensures=INV('this') + ['64 * %s >= `size`' % END])
add('copy', fn='BitMap', sigmatch=r'^void \(const BitMap &', requires=INV('rhs'), ensures=INV('this') + EQ)
add('assign', fn='operator=', requires=INV('this') + INV('rhs'), ensures=INV('this') + EQ)
add('selfassign', fn='operator=', alias={'rhs': 'this'}, requires=INV('this'), ensures=INV('this') + ['`this.end:off` = old `this.end:off`', '`this.start` = old `this.start`', '`this.start:len` = old `this.start:len`'])
add('destroy', fn='~BitMap', requires=INV('this'), ensures=['`this.start:live` <> 1'])
add('reset', fn='reset', requires=INV('this'), ensures=INV('this') + [END + ' = old ' + END, 'forall p. 0 <= p < 64 * %s -> not (has `this.start` p)' % END, 'words `this.start` ' + END],
    loops=[{'inv': ['0 <= `it:off` <= ' + END, 'forall w. 0 <= w < `it:off` -> `this.start`[w] = 0'], 'var': END + ' - `it:off`'}], post=['assert { forall p. 0 <= p < 64 * %s -> 0 <= div p 64 < %s }' % (END, END)])
add('set_bit', fn='set_bit', requires=OK + ['`pos` < 64 * ' + END], ensures=INV('this') + ['words `this.start` ' + END, END + ' = old ' + END,
    'forall q. 0 <= q < 64 * %s -> (has `this.start` q <-> has (old `this.start`) q \\/ q = `pos`)' % END], pre=['div_bound `pos` ' + END, 'pos_split `pos`'],
    post=['assert { forall q. 0 <= q < 64 * %s -> div q 64 = div `pos` 64 -> mod q 64 = mod `pos` 64 -> q = `pos` }' % END])
add('get_bit', fn='get_bit', requires=OK + ['`pos` < 64 * ' + END], ensures=['result = True <-> has `this.start` `pos`', '`this.start` = old `this.start`'], pre=['div_bound `pos` ' + END, 'pos_split `pos`'])
add('get_next_bit', fn='get_next_bit', requires=OK + ['`pos` < 64 * ' + END, '`pos` < 0x1000000000000000'],
    ensures=['result = -1 -> none `this.start` (`pos` + 1) (64 * %s)' % END, 'result <> -1 -> `pos` < result < 64 * %s /\\ has `this.start` result /\\ none `this.start` (`pos` + 1) result' % END, '`this.start` = old `this.start`'],
    pre=['div_bound `pos` ' + END, 'pos_split `pos`', 'assert { 0 <= `this.start`[div `pos` 64] < w64 }', 'assert { mod `pos` 64 < 63 -> 0 <= shr `this.start`[div `pos` 64] (mod `pos` 64 + 1) < w64 }'],
    loops=[{'pre': ['word_rest `this.start` %s `pos` `temp` (64 * div `pos` 64 + 64)' % END], 'inv': ['div `pos` 64 <= `it:off` < ' + END, '`next` = 64 * `it:off`', '0 <= `temp` < w64',
              'none `this.start` (`pos` + 1) (64 * `it:off`)', '`it:off` = div `pos` 64 -> `temp` = 0 /\\ none `this.start` (`pos` + 1) (64 * `it:off` + 64)', '`it:off` > div `pos` 64 -> `temp` = `this.start`[`it:off`]'], 'var': END + ' - `it:off`',
            'begin': ['if `it:off` > div `pos` 64 then word_none `this.start` `it:off` 0']},
           {'pre': ['assert { `temp` > 0 }'], 'inv': ['0 <= `it:off` < ' + END, '0 < `temp` < w64', '`pos` < `next`', '64 * `it:off` <= `next` < 64 * `it:off` + 64', 'forall i. 0 <= i -> (bit `temp` i <-> bit `this.start`[`it:off`] (i + (`next` - 64 * `it:off`)))',
              'none `this.start` (`pos` + 1) `next`'], 'var': '64 * `it:off` + 64 - `next`',
            'begin': ['word_bit `it:off` (`next` - 64 * `it:off`)', 'assert { not (bit `temp` 0) }', 'assert { not (has `this.start` `next`) }', 'assert { 0 < abit `temp` /\\ bit `temp` (abit `temp`) }', 'assert { bit (shr `temp` 1) (abit `temp` - 1) }', 'assert { shr `temp` 1 <> 0 }', 'assert { `next` + 1 < 64 * `it:off` + 64 }'],
            'after': ['word_bit `it:off` (`next` - 64 * `it:off`)', 'assert { bit `temp` 0 }', 'assert { has `this.start` `next` }']}])
