"""C++ (clang AST of /repo's headers, templates instantiated) -> WhyML.

One verification unit = one function of /repo with a contract.  Its body is the
function's own AST; callees that have a contract are called through it, every
other callee of /repo is inlined from its AST.  Nothing is transcribed by hand:
a construct that has no rule below raises Unsupported, and the unit then counts
as not verified.

Model (see DESIGN.md): integers are mathematical; every narrowing conversion and
every signed->unsigned conversion yields an obligation; a pointer is (array,
offset) with the array known statically; every access yields a bounds
obligation; C++ assert() yields an obligation; loops yield invariant and
termination obligations.
"""
import re, json, os
from cxxast import qt

class Unsupported(Exception):
    def __init__(self, msg, node=None):
        loc = ''
        if node is not None and node.get('_line'): loc = ' at %s:%s' % (node.get('_file', '?'), node.get('_line'))
        super().__init__(msg + loc)

INT = {'long': (64, 1), 'long long': (64, 1), 'int': (32, 1), 'short': (16, 1), 'signed char': (8, 1), 'char': (8, 1),
       'unsigned long': (64, 0), 'unsigned long long': (64, 0), 'unsigned int': (32, 0), 'unsigned short': (16, 0),
       'unsigned char': (8, 0), 'size_t': (64, 0), 'std::size_t': (64, 0), 'uint8_t': (8, 0), 'uint32_t': (32, 0),
       'uint64_t': (64, 0), 'int64_t': (64, 1), 'int32_t': (32, 1), 'intptr_t': (64, 1), 'uintptr_t': (64, 0), 'unsigned': (32, 0),
       'ptrdiff_t': (64, 1), 'std::ptrdiff_t': (64, 1), '__intptr_t': (64, 1), 'uint16_t': (16, 0),
       'difference_type': (64, 1), 'GrB_Index': (64, 0), 'std::uintptr_t': (64, 0)}

class Ty:
    __slots__ = ('k', 'a', 'b', 'const', 'atomic')
    def __init__(s, k, a=None, b=None, const=False): s.k, s.a, s.b, s.const, s.atomic = k, a, b, const, False
    def __repr__(s): return 'Ty(%s,%s,%s)' % (s.k, s.a, s.b)

def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def strip_cv(s):
    s = s.strip()
    const = False
    while True:
        t = s
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'typename ', 'enum '):
            if s.startswith(p):
                s = s[len(p):].strip()
                if p == 'const ': const = True
        for p in (' const', ' volatile', ' __restrict', '&', '*const', '* const'):
            if s.endswith(p):
                if p in ('*const', '* const'): s = s[:-len(p)] + '*'
                else: s = s[:-len(p)].strip()
                if 'const' in p: const = True
        if s == t: return s, const

def parse_ty(s):
    ref = s.rstrip().endswith('&')
    s0 = s
    s, const = strip_cv(s)
    if s == 'bool': return Ty('bool', const=const)
    if s in INT: return Ty('int', INT[s][0], INT[s][1], const)
    if s in ('double', 'float', 'vfy::Val', 'Val'): return Ty('nt', const=const)
    if s == 'void': return Ty('void')
    m = re.match(r'^(?:std::)?(?:atomic|__atomic_base)<(\w[\w ]*)>$', s)
    if m:
        t = parse_ty(m.group(1)); t.atomic = True
        return t
    if s in ('std::byte', 'byte'): return Ty('byte', const=const)
    if s.endswith('*'):
        e = s[:-1].strip()
        return Ty('ptr', parse_ty(e), e, const)
    m = re.match(r'^(?:std::)?vector<(.*)>$', s)
    if m: return Ty('vec', parse_ty(split_targs(m.group(1))[0]), const=const)
    if '__normal_iterator<' in s: 
        m = re.search(r'__normal_iterator<(.*)>$', s)
        return Ty('ptr', parse_ty(split_targs(m.group(1))[0][:-1].strip()), None, const)
    m = re.match(r'^(?:std::)?tuple<(.*)>$', s)
    if m: return Ty('tuple', [parse_ty(x) for x in split_targs(m.group(1))], const=const)
    b = s.split('::')[-1] if '<' not in s else None
    if b:
        for d in reversed(ALIAS):
            if b in d and d[b] != s0:
                r = d[b]
                if strip_cv(r)[0] == s: continue
                t = parse_ty(r)
                if const: t.const = True
                return t
    return Ty('rec', s, const=const)

ALIAS = []     # typedefs of the classes being translated, innermost last

SIZEOF = {'bool': 1, 'nt': 8, 'ptr': 8, 'byte': 1}

# pointer fields that point into the array of another field of the same object
FIELD_INTO = {('BitMap', 'end'): 'start'}

KEEP = []    # cells are compared by identity: none may be collected while a unit is translated
class Sc:
    """scalar cell: a WhyML ref (mut) or an immutable term"""
    def __init__(s, term, ty, mut=True): s.term, s.ty, s.mut, s.written = term, ty, mut, False; KEEP.append(s)
    def read(s): return '!' + s.term if s.mut else s.term
class Reg:
    """an array: one map per leaf field of the element type, and a length"""
    def __init__(s, name, elem, maps, length, const=False):
        s.name, s.elem, s.maps, s.len, s.const = name, elem, maps, length, const
        s.shared = None; s.moved = False; s.live = None; s.fresh = False; KEEP.append(s)
class Ptr:
    def __init__(s, reg, off, owner=False, ty=None): s.reg, s.off, s.owner, s.ty = reg, off, owner, ty
class Obj:
    def __init__(s, ty, fields): s.ty, s.fields = ty, fields
class Elem:
    def __init__(s, reg, idx, path=''): s.reg, s.idx, s.path = reg, idx, path
class Vec:
    def __init__(s, reg): s.reg = reg
class PV:
    def __init__(s, reg, off): s.reg, s.off = reg, off
class AddrOf:
    def __init__(s, place): s.place = place
class Tup:
    def __init__(s, vals): s.vals = vals
class Functor:
    def __init__(s, which): s.which = which

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
WT = {'int': 'int', 'bool': 'bool', 'nt': 'nt', 'byte': 'bool'}

def lit(t):
    return re.fullmatch(r'-?\d+|\(-\d+\)', t) is not None
def litval(t): return int(t.strip('()'))
def mklit(v): return str(v) if v >= 0 else '(%d)' % v

class Tx:
    def __init__(self, ast, unit, units):
        self.ast, self.unit, self.units = ast, unit, units
        self.out = []
        self.env = {}
        self.scopes = []
        self.cnt = {}
        self.loopno = 0
        self.loops = list(unit.get('loops', []))
        self.rets = []
        self.labels = []
        self.info = {'inlined': set(), 'called': set(), 'builtins': set(), 'asserts': 0, 'loops': 0, 'drops': set()}
        self.this = None
        self.top_this = None
        self.inl_depth = 0
        self.omp = None
        self.loopstack = []
        self.notes = []
        self.dtors = []

    # ---------- emission ----------
    def emit(self, s): self.out.append(('s', s))
    def let(self, name, e): self.out.append(('l', 'let %s = %s in' % (name, e)))
    def raw(self, s): self.out.append(('l', s))
    def gh(self, g):
        """a ghost statement of a contract; 'let x = e in' binds x in what follows"""
        g = self.spec(g)
        if g.rstrip().endswith(' in'): self.raw(g)
        else: self.emit(g)
    def fresh(self, base):
        base = re.sub(r'[^A-Za-z0-9_]', '_', base)
        base = 'x' + base if not base.startswith('x_') else base
        n = self.cnt.get(base, 0)
        self.cnt[base] = n + 1
        return base if n == 0 else '%s__%d' % (base, n)
    def capture(self, f, *a):
        save, self.out = self.out, []
        try:
            r = f(*a)
            blk = self.out
        finally:
            self.out = save
        return blk, r
    @staticmethod
    def compose(blk, final='()'):
        res = final
        for k, s in reversed(blk):
            if k == 'l': res = s + '\n' + res
            else: res = s + ';\n' + res
        return 'begin\n' + res + '\nend'
    def freeze(self, term, base='t'):
        if re.fullmatch(r'[A-Za-z_][A-Za-z_0-9]*|\d+|\(-\d+\)|true|false', term): return term
        n = self.fresh('_' + base)
        self.let(n, term)
        return n
    def asrt(self, expl, f, node=None):
        self.info['asserts'] += 1
        loc = ''
        if node is not None and node.get('_line'): loc = ' %s:%s' % (node.get('_file', ''), node.get('_line'))
        expl = re.sub(r'[^A-Za-z0-9_ .:<>=!+*/%()&|,-]', '_', expl + loc)[:110].replace('(*', '( *').replace('*)', '* )')
        self.emit('assert { [@expl:%s] %s }' % (expl, f))

    # ---------- types / objects ----------
    def find_class(self, s):
        s, _ = strip_cv(s)
        m = re.match(r'^((?:[A-Za-z_0-9]+::|\(anonymous namespace\)::)*)([A-Za-z_0-9]+)(?:<(.*)>)?((?:::[A-Za-z_0-9]+(?:<.*>)?)*)$', s)
        if not m: return None
        tail = m.group(4)
        if m.group(3) is not None:      # the greedy match may have swallowed a nested class: cut at the balanced '>'
            d, i = 0, m.start(3)
            while i < len(s):
                if s[i] == '<': d += 1
                elif s[i] == '>':
                    if d == 0: break
                    d -= 1
                i += 1
            if s[i+1:].startswith('::'): tail = s[i+1:]
        if tail:
            inner = tail[2:]
            outer = self.find_class(s[:-len(tail)])
            if outer is None: return None
            nm = inner.split('<')[0]
            def lookup(c):
                for d in c.get('inner', []):
                    if d.get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and d.get('name') == nm and d.get('completeDefinition'): return d
                    if d.get('kind') == 'ClassTemplateDecl' and d.get('name') == nm:
                        for e in d.get('inner', []):
                            if e.get('kind') == 'ClassTemplateSpecializationDecl' and e.get('completeDefinition'):
                                return e
                return None
            # prefer matching targs
            ia = re.match(r'^[A-Za-z_0-9]+<(.*)>$', inner)
            for c in self.ast.classes(nm):
                p = self.ast.parent.get(c['id'])
                while p is not None and p is not outer and p.get('id') != outer['id']: p = self.ast.parent.get(p.get('id'))
                if p is None: continue
                if ia and not self.targs_match(c, split_targs(ia.group(1))): continue
                return c
            return lookup(outer)
        name, args = m.group(2), m.group(3)
        if name == 'basic_string': return None
        best = None
        for c in self.ast.classes(name):
            if args is None:
                if c['kind'] == 'CXXRecordDecl' and not self.is_pattern(c): return c
                continue
            if c['kind'] != 'ClassTemplateSpecializationDecl': continue
            if self.targs_match(c, split_targs(args)):
                # template template arguments are not printed by clang: tell them apart by the member types
                al = split_targs(args)
                hid = [self.norm(y) for x, y in zip(self.ast.targs(c), al) if x == '?']
                if hid:
                    txt = ' '.join(qt(d) for d in c.get('inner', []) if d.get('kind') in ('FieldDecl', 'TypeAliasDecl', 'TypedefDecl'))
                    if not all(re.search(r'\b%s\b' % re.escape(h), txt) for h in hid if re.match(r'^[A-Za-z_]\w*$', h)): continue
                al = self.ast.targs(c)
                if len(al) > len(split_targs(args)):      # omitted arguments: those of the instantiation named by the defaults
                    df = self.default_targs(name)
                    if any(i < len(df) and df[i] is not None and self.norm(al[i]) != self.norm(df[i]) for i in range(len(split_targs(args)), len(al))): continue
                best = c
        return best
    def default_targs(self, name):
        if not hasattr(self.ast, '_deft'):
            self.ast._deft = {}
            for d in self.ast.byid.values():
                if d.get('kind') != 'ClassTemplateDecl': continue
                out = []
                for x in d.get('inner', []):
                    if x.get('kind') in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl', 'TemplateTemplateParmDecl'):
                        da = x.get('defaultArg')
                        v = None
                        if da and x['kind'] == 'TemplateTypeParmDecl': v = (da.get('type') or {}).get('qualType')
                        elif da and x['kind'] == 'NonTypeTemplateParmDecl':
                            e = x.get('inner', [{}])[-1]
                            e = (e.get('inner') or [{}])[0]
                            if e.get('kind') == 'CXXBoolLiteralExpr': v = 'true' if e.get('value') else 'false'
                            elif e.get('kind') == 'IntegerLiteral': v = str(e.get('value'))
                        out.append(v)
                old = self.ast._deft.get(d.get('name'))
                if old is None or any(v is not None for v in out): self.ast._deft[d.get('name')] = out
        return self.ast._deft.get(name, [])
    def is_pattern(self, c):
        while c is not None:      # a class nested in a template is a pattern as well
            p = self.ast.parent.get(c['id'])
            if p is not None and p.get('kind') == 'ClassTemplateDecl' and c.get('kind') == 'CXXRecordDecl': return True
            c = p if p is not None and p.get('id') else None
        return False
    def norm(self, a):
        a = a.replace('vfy::', '').replace('internal::', '').strip()
        return {'false': '0', 'true': '-1', 'I': 'long', 'N': 'double', 'False': '0', 'True': '-1'}.get(a, a)
    def targs_match(self, c, args):
        t = self.ast.targs(c)
        if len(t) < len(args): return False
        for x, y in zip(t, args):
            if x == '?': continue
            nx, ny = self.norm(x), self.norm(y)
            if nx != ny:
                if re.sub(r'(\d)UL?', r'\1', ny) == nx: continue
                return False
        return True
    def class_alias(self, c, seen=None):
        """typedef names visible in class c -> type text"""
        if c is None: return {}
        if not hasattr(self.ast, '_alias'): self.ast._alias = {}
        if c['id'] in self.ast._alias: return self.ast._alias[c['id']]
        out = {}
        self.ast._alias[c['id']] = out
        p = self.ast.parent.get(c['id'])
        while p is not None and p.get('kind') not in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl'):
            p = self.ast.parent.get(p.get('id'))
        if p is not None: out.update(self.class_alias(p))
        for b in c.get('bases', []):
            bc = self.find_class(b['type'].get('desugaredQualType', b['type']['qualType']))
            if bc is not None: out.update(self.class_alias(bc))
        for d in c.get('inner', []):
            if d.get('kind') in ('TypeAliasDecl', 'TypedefDecl'): out[d['name']] = qt(d)
            if d.get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and d.get('completeDefinition') and d.get('name'):
                pass
        return out
    def pty(self, t, c):
        ALIAS.append(self.class_alias(c))
        try: return parse_ty(t)
        finally: ALIAS.pop()
    def class_fields(self, c):
        """[(name, Ty, decl)]"""
        out = []
        for b in c.get('bases', []):
            t = b['type'].get('desugaredQualType', b['type']['qualType'])
            bc = self.find_class(t)
            if bc is None: raise Unsupported('base class ' + t)
            out += self.class_fields(bc)
        for d in c.get('inner', []):
            if d.get('kind') == 'FieldDecl': out.append((d['name'], self.pty(qt(d), c), d))
        return out
    def leaves(self, ty):
        """leaf fields of an element type: list of (path, Ty)"""
        if ty.k == 'byte' and self.unit.get('hdr'): return [('', ty), ('hdr', Ty('int', 64, 0))]   # hdr[o]: the size_t whose bytes lie at o
        if ty.k in ('int', 'bool', 'nt', 'byte'): return [('', ty)]
        if ty.k == 'rec':
            m = re.match(r'^(?:std::)?pair<(.*)>$', ty.a)
            if m:
                fs = list(zip(('first', 'second'), [parse_ty(x) for x in split_targs(m.group(1))]))
            else:
                c = self.find_class(ty.a)
                if c is None: raise Unsupported('element type ' + ty.a)
                fs = [(n, t) for n, t, _ in self.class_fields(c)]
            out = []
            for n, t in fs:
                for p, l in self.leaves(t): out.append((n + ('.' + p if p else ''), l))
            return out
        if ty.k == 'tuple':
            return [(str(i) + ('.' + p if p else ''), l) for i, t in enumerate(ty.a) for p, l in self.leaves(t)]
        if ty.k == 'ptr': return []   # pointer leaves are not modelled
        raise Unsupported('element type %r' % ty)
    def sizeof(self, ty):
        if ty.k == 'int': return ty.a // 8
        if ty.k in SIZEOF: return SIZEOF[ty.k]
        if ty.k == 'rec':
            off, al = 0, 1
            for p, l in self.leaves(ty):
                s = self.sizeof(l); off = (off + s - 1) // s * s + s; al = max(al, s)
            return (off + al - 1) // al * al
        raise Unsupported('sizeof %r' % ty)
    def ones(self, ty):
        """the value read from an object whose bytes are all 0xFF"""
        if ty.k == 'int': return mklit(-1) if ty.b else str(2 ** ty.a - 1)
        if ty.k == 'nt': return 'nt_ff'
        if ty.k == 'byte': return 'true'
        if ty.k == 'bool': return None
        return None
    def mk_region(self, name, elem, mode, const):
        """mode 'param': declare parameters; returns (Reg, paramlist)"""
        ps, maps = [], {}
        for p, l in self.leaves(elem):
            nm = self.fresh('_' + name + ('_' + p.replace('.', '_') if p else ''))
            maps[p] = Sc(nm, l, mut=not const)
            ps.append((nm, ('map int %s' if const else 'ref (map int %s)') % WT[l.k], maps[p]))
        ln = self.fresh('_' + name + '_len')
        L = Sc(ln, Ty('int', 64, 0), mut=not const)
        ps.append((ln, 'int' if const else 'ref int', L))
        r = Reg(name, elem, maps, L, const)
        if self.unit.get('addr'):      # the address of the first element
            v = self.fresh('_' + name + '_addr')
            r.addrsc = Sc(v, Ty('int', 64, 0), mut=False)
            r.addr = v
            ps.append((v, 'int', r.addrsc))
        if self.unit.get('live'):      # is the storage allocated (and not yet freed)?
            v = self.fresh('_' + name + '_live')
            r.live = Sc(v, Ty('int', 64, 1), mut=not const)   # 1 allocated, 0 null, 2 dangling
            ps.append((v, 'int' if const else 'ref int', r.live))
        return r, ps
    def mk_obj(self, name, tyname, const):
        """object received as a parameter: flattened"""
        m = re.match(r'^(?:std::)?pair<(.*)>$', strip_cv(tyname)[0])
        if m: fl = [(n, parse_ty(t), None) for n, t in zip(('first', 'second'), split_targs(m.group(1)))]
        else:
            c = self.find_class(tyname)
            if c is None: raise Unsupported('class ' + tyname)
            fl = self.class_fields(c)
        fields, ps = {}, []
        for fn, ft, d in fl:
            ty = ft
            nm = name + '_' + fn
            fconst = const or (ty.const and ty.k in ('int', 'bool', 'nt'))
            if ty.k in ('int', 'bool', 'nt'):
                n = self.fresh('_' + nm)
                fields[fn] = Sc(n, ty, mut=not fconst)
                ps.append((n, WT[ty.k] if fconst else 'ref ' + WT[ty.k], fields[fn]))
            elif ty.k == 'ptr' and (tyname, fn) in FIELD_INTO and FIELD_INTO[(tyname, fn)] in fields:
                n = self.fresh('_' + nm + '_off')
                fields[fn] = Ptr(fields[FIELD_INTO[(tyname, fn)]].reg, Sc(n, Ty('int', 64, 1), mut=not const), ty=ty)
                ps.append((n, 'int' if const else 'ref int', fields[fn].off))
            elif ty.k == 'ptr':
                r, pp = self.mk_region(nm, ty.a, 'param', const)
                fields[fn] = Ptr(r, Sc('0', Ty('int', 64, 1), mut=False), owner=True, ty=ty)
                ps += pp
            elif ty.k == 'vec':
                r, pp = self.mk_region(nm, ty.a, 'param', const)
                fields[fn] = Vec(r); ps += pp
            elif ty.k == 'rec':
                try:
                    o, pp = self.mk_obj(nm, ty.a, const)
                except Unsupported as e_:
                    if os.environ.get('VDEBUG'): print('drop', fn, ft.a, e_)
                    self.info['drops'].add('field %s (%s)' % (fn, ty.a)); continue
                fields[fn] = o; ps += pp
            else: raise Unsupported('field %s : %s' % (fn, ft))
        return Obj(tyname, fields), ps
    def new_obj_local(self, name, tyname):
        """a local object with indeterminate fields"""
        o, ps = self.mk_obj(name, tyname, False)
        for n, t, sc in ps:
            if not sc.mut:    # const field: becomes a ref initialised by the constructor
                sc.mut = True
                self.let(n, 'ref (any %s)' % t)
            elif t.startswith('ref (map'):
                self.let(n, 'ref (any %s)' % t[4:])
            else:
                init = '0' if n.endswith('_len') else '2' if n.endswith('_live') else '(any %s)' % t[4:]
                self.let(n, 'ref %s' % init)
        return o
    def new_region_local(self, name, elem, length_term):
        r, ps = self.mk_region(name, elem, 'param', False)
        for n, t, sc in ps:
            if sc is r.len: self.let(n, 'ref (%s)' % length_term)
            elif sc is r.live: self.let(n, 'ref 1')
            elif sc is getattr(r, 'addrsc', 0): self.let(n, 'any int ensures { 0 < result }')
            else: self.let(n, 'ref (any %s)' % t[4:])
        return r

    # ---------- places ----------
    def shared_check(self, reg, idx, write, node):
        if self.omp is None: return
        if getattr(reg.elem, 'atomic', False) and self.omp.get('pfor'): return     # only fetch_add gets here (see load)
        own = self.omp['own'].get(id(reg))
        if own is None:
            if write: self.outer_write(reg, node)
            return
        if own == 'ro':
            if write: raise Unsupported('write to region %s that is read-only in this parallel phase' % reg.name, node)
            return
        if own[0] == 'pred':
            self.asrt('thread footprint of ' + reg.name, own[1](idx), node); return
        lo, hi = own
        self.asrt('thread footprint of ' + reg.name, '%s <= %s < %s' % (lo, idx, hi), node)
    def outer_write(self, reg, node):
        if self.omp is not None and id(reg) in self.omp.get('outer_regs', ()) and id(reg) not in self.omp['own']:
            raise Unsupported('data race: a parallel construct writes the shared array %s, for which no footprint is known' % reg.name, node)
    def region_ids(self):
        return set(id(p.reg) for p in self.all_places() if isinstance(p, (Ptr, Vec)) and p.reg is not None)
    def load(self, p, node=None):
        if isinstance(p, Sc): return p.read()
        if isinstance(p, Ptr):
            if p.reg is None: raise Unsupported('uninitialised pointer read', node)
            return PV(p.reg, p.off.read())
        if isinstance(p, Elem):
            if p.path == '' and p.reg.elem.k in ('rec', 'tuple'): return p
            if getattr(p.reg.elem, 'atomic', False) and self.omp is not None: raise Unsupported('read of an atomic in a parallel construct', node)
            if p.path not in p.reg.maps: return p
            self.bounds(p, False, node)
            return '(%s[%s])' % (p.reg.maps[p.path].read(), p.idx)
        return p
    def bounds(self, p, write, node):
        if p.reg.moved: raise Unsupported('access through a moved-from buffer ' + p.reg.name, node)
        self.asrt('bounds of ' + p.reg.name, '0 <= %s < %s' % (p.idx, p.reg.len.read()), node)
        self.shared_check(p.reg, p.idx, write, node)
    def store(self, p, v, node=None):
        if isinstance(p, Sc):
            if not p.mut: raise Unsupported('write to immutable ' + p.term, node)
            if self.omp is not None and self.omp.get('outer') is not None and id(p) in self.omp['outer'] and id(p) not in self.omp['red']:
                raise Unsupported('data race: unsynchronised write to shared scalar %s in a parallel construct' % p.term, node)
            p.written = True
            self.emit('%s := %s' % (p.term, v))
            return
        if isinstance(p, Ptr):
            if isinstance(v, str) and v in ('NULL', '0'):
                if p.owner:
                    self.store(p.reg.len, '0', node)
                    if p.reg.live is not None: self.store(p.reg.live, '0', node)
                elif p.reg is not None: self.store(p.off, '0', node)
                return
            if not isinstance(v, PV): raise Unsupported('pointer store of %r' % (v,), node)
            if p.owner and p.reg is not v.reg:
                if v.off != '0': self.asrt('owning pointer set to the start of an allocation', '%s = 0' % v.off, node)
                if getattr(v.reg, 'localobj', False): v.reg.handed = True    # the storage of a local object is handed over to p
                elif not v.reg.fresh and not hasattr(v.reg, 'view'): raise Unsupported('an object pointer is made to share the storage of %s' % v.reg.name, node)
                if hasattr(v.reg, 'view'):      # the object's pointer is a view of the byte buffer from now on
                    if hasattr(p.reg, 'view'): raise Unsupported('pointer set to a second view of a buffer', node)
                    p.reg.view = v.reg.view; p.reg.addr = getattr(v.reg, 'addr', None)
                v.reg.moved = True
                for k in p.reg.maps:
                    if k not in v.reg.maps: raise Unsupported('pointer type change', node)
                    p.reg.maps[k].written = True
                    self.emit('%s := %s' % (p.reg.maps[k].term, v.reg.maps[k].read()))
                p.reg.len.written = True
                self.emit('%s := %s' % (p.reg.len.term, v.reg.len.read()))
                if p.reg.live is not None and v.reg.live is not None:
                    p.reg.live.written = True; self.emit('%s := %s' % (p.reg.live.term, v.reg.live.read()))
                if getattr(v.reg, 'handed', False): self.emit('%s := 0' % v.reg.len.term)
                return
            if p.reg is None: p.reg = v.reg
            if p.reg is not v.reg: raise Unsupported('pointer re-targeted to another array (%s -> %s)' % (p.reg.name, v.reg.name), node)
            if p.owner:
                if v.off != '0': raise Unsupported('owning pointer moved', node)
                return
            if not p.off.mut: raise Unsupported('const pointer', node)
            p.off.written = True
            self.emit('%s := %s' % (p.off.term, v.off))
            return
        if isinstance(p, Elem):
            if isinstance(v, Elem):
                self.bounds(v, False, node); self.bounds(p, True, node)
                for k, sc in p.reg.maps.items():
                    if p.path and not (k == p.path or k.startswith(p.path + '.')): continue
                    k2 = v.path + k[len(p.path):] if (p.path or v.path) else k
                    k2 = k2.strip('.')
                    sc.written = True
                    self.emit('%s := %s[%s <- %s[%s]]' % (sc.term, sc.read(), p.idx, v.reg.maps[k2].read(), v.idx))
                return
            if isinstance(v, Obj):
                self.bounds(p, True, node)
                for k, sc in p.reg.maps.items():
                    f = v
                    for q in k.split('.'): f = f.fields[q]
                    sc.written = True
                    self.emit('%s := %s[%s <- %s]' % (sc.term, sc.read(), p.idx, f.read()))
                return
            sc = p.reg.maps.get(p.path)
            if sc is None: raise Unsupported('store to %s.%s' % (p.reg.name, p.path), node)
            self.bounds(p, True, node)
            if p.reg.const or not sc.mut: raise Unsupported('write to const array ' + p.reg.name, node)
            sc.written = True
            self.emit('%s := %s[%s <- %s]' % (sc.term, sc.read(), p.idx, v))
            return
        if isinstance(p, Obj):
            src = v
            for k, f in p.fields.items():
                if isinstance(src, Elem):
                    self.store(f, self.load(Elem(src.reg, src.idx, (src.path + '.' + k).strip('.')), node), node)
                elif isinstance(src, Obj): self.store(f, self.load(src.fields[k], node), node)
                else: raise Unsupported('object store', node)
            return
        raise Unsupported('store to %r' % (p,), node)

    # ---------- spec name resolution ----------
    def lookup(self, name):
        if name == 'this': return self.top_this
        if name == 'self': return self.this
        for sc in reversed(self.scopes):
            if name in sc: return sc[name]
        return None
    def resolve(self, path, at=None):
        """`path` in a contract -> WhyML term"""
        path = path.strip()
        if path.startswith('old '): return '(old %s)' % self.resolve(path[4:])
        m = re.match(r'^(.*)@([A-Za-z0-9_]+)$', path)
        if m: return '(%s at %s)' % (self.resolve(m.group(1)), m.group(2))
        want = None
        m = re.match(r'^(.*):(len|off|live|addr|voff)$', path)
        if m: path, want = m.group(1), m.group(2)
        parts = path.split('.')
        p = self.lookup(parts[0])
        if p is None: raise Unsupported('contract name `%s` not in scope' % path)
        i = 1
        reg = None
        while i < len(parts):
            if isinstance(p, Obj):
                if parts[i] not in p.fields: raise Unsupported('contract name `%s`: no field %s among %s' % (path, parts[i], list(p.fields)))
                p = p.fields[parts[i]]; i += 1
            else: break
        sub = '.'.join(parts[i:])
        if isinstance(p, (Ptr, PV)):
            reg = p.reg
            if want == 'off': return p.off.read() if isinstance(p, Ptr) else p.off
        elif isinstance(p, Vec): reg = p.reg
        elif isinstance(p, Reg): reg = p
        elif isinstance(p, Elem):
            pth = (p.path + '.' + sub).strip('.')
            return '(%s[%s])' % (p.reg.maps[pth].read(), p.idx)
        if reg is not None:
            if want == 'len': return reg.len.read()
            if want == 'live': return reg.live.read()
            if want == 'addr': return self.addr_base(reg)
            if want == 'voff': return reg.view[1]
            if sub not in reg.maps: raise Unsupported('contract name `%s`: no leaf %s' % (path, sub))
            return reg.maps[sub].read()
        if isinstance(p, Sc):
            if sub: raise Unsupported('contract name `%s`' % path)
            return p.read()
        if isinstance(p, str): return p
        raise Unsupported('contract name `%s` resolves to %r' % (path, p))
    def spec(self, f):
        f = re.sub(r'\bold (`[^`]*`)', r'(old \1)', f)
        return re.sub(r'`([^`]*)`', lambda m: self.resolve(m.group(1)), f)

    # ---------- constants ----------
    def const(self, n):
        """python constant of an AST expression, or None"""
        k = n.get('kind')
        inner = n.get('inner', [])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'):
            v = self.const(inner[-1]) if inner else None
            if v is None: return None
            if n.get('castKind') == 'IntegralToBoolean': return bool(v)
            ty = parse_ty(qt(n))
            if ty.k == 'int':
                v = int(v)
                v &= (1 << ty.a) - 1
                if ty.b and v >> (ty.a - 1): v -= 1 << ty.a
                return v
            return v
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr'):
            if k == 'ConstantExpr' and 'value' in n and re.fullmatch(r'-?\d+|true|false', str(n['value'])): return self.pyval(n['value'])
            return self.const(inner[-1]) if inner else None
        if k == 'IntegerLiteral': return int(n['value'])
        if k == 'CharacterLiteral': return int(n['value'])
        if k == 'CXXBoolLiteralExpr': return bool(n['value'])
        if k == 'CXXScalarValueInitExpr' or k == 'ImplicitValueInitExpr': return 0 if parse_ty(qt(n)).k == 'int' else None
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof': return self.do_sizeof(n)
        if k == 'DeclRefExpr':
            d = self.ast.byid.get(n['referencedDecl']['id'])
            if d is None and n['referencedDecl'].get('name') in ('num', 'den') and n.get('_file'):
                # std::ratio<a, b>::num / den through an alias; the AST does not print the qualifier
                src = open(n['_file'], 'rb').read()[n['_off']:n['_off'] + 80].decode('utf8', 'replace')
                m = re.match(r'(?:\w+::)*(\w+)::(num|den)\b', src)
                al = {qt(x) for x in self.ast.byid.values() if x.get('kind') in ('TypeAliasDecl', 'TypedefDecl') and m and x.get('name') == m.group(1)}
                r = [re.fullmatch(r'(?:std::)?ratio<(\d+)(?:, (\d+))?>', a) for a in al]
                if len(r) == 1 and r[0]:
                    a, b = int(r[0].group(1)), int(r[0].group(2) or 1)
                    import math
                    return (a if m.group(2) == 'num' else b) // math.gcd(a, b)
                return None
            if d is not None and d.get('kind') == 'EnumConstantDecl':
                for c in d.get('inner', []):
                    v = self.const(c)
                    if v is not None: return v
                return None
            if d is not None and d.get('kind') == 'VarDecl' and d.get('inner') and qt(d).startswith('const') and d['id'] not in self.env:
                return self.const(d['inner'][0])
            if d is not None and d.get('kind') == 'VarDecl' and d['id'] in self.env:
                p = self.env[d['id']]
                if isinstance(p, Sc) and not p.mut:
                    if p.term in ('true', 'false'): return p.term == 'true'
                    if lit(p.term): return litval(p.term)
            return None
        if k == 'MemberExpr':
            d = self.ast.byid.get(n.get('referencedMemberDecl'))
            if d is not None and d.get('kind') == 'VarDecl' and d.get('inner') and qt(d).startswith('const'): return self.const(d['inner'][0])
            return None
        if k == 'UnaryOperator':
            v = self.const(inner[0])
            if v is None: return None
            if n['opcode'] == '~':
                ty = parse_ty(qt(n))
                return None if ty.k != 'int' else (~v if ty.b else ~v & ((1 << ty.a) - 1))
            return {'-': lambda: -v, '!': lambda: not v, '+': lambda: v}.get(n['opcode'], lambda: None)()
        if k == 'BinaryOperator':
            a = self.const(inner[0])
            op = n['opcode']
            if op == '&&' and a is not None and not a: return False
            if op == '||' and a: return True
            b = self.const(inner[1])
            if a is None or b is None: return None
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: int(a / b), '%': lambda: a % b,
                        '==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b,
                        '>=': lambda: a >= b, '&&': lambda: bool(a and b), '||': lambda: bool(a or b), '<<': lambda: a << b, '>>': lambda: a >> b,
                        '&': lambda: a & b, '|': lambda: a | b}.get(op, lambda: None)()
            except ZeroDivisionError: return None
        if k == 'ConditionalOperator':
            c = self.const(inner[0])
            if c is None: return None
            return self.const(inner[1] if c else inner[2])
        if k == 'CallExpr':
            nm = self.callee_name(n)
            if nm == 'max' and len(inner) == 1:
                ty = parse_ty(qt(n))
                if ty.k == 'int': return 2 ** (ty.a - (1 if ty.b else 0)) - 1
            if nm == 'min' and len(inner) == 1:
                ty = parse_ty(qt(n))
                if ty.k == 'int': return -(2 ** (ty.a - 1)) if ty.b else 0
            if nm == 'lcm' and len(inner) == 3:
                import math
                a, b = self.const(inner[1]), self.const(inner[2])
                if a and b: return a * b // math.gcd(a, b)
        return None
    def pyval(self, v):
        if v in ('true', True): return True
        if v in ('false', False): return False
        return int(v)
    def do_sizeof(self, n):
        t = n.get('argType')
        if t: return self.sizeof(parse_ty(t.get('desugaredQualType', t['qualType'])))
        return self.sizeof(parse_ty(qt(n['inner'][0])))
    def callee_decl(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c.get('kind') == 'DeclRefExpr': return c['referencedDecl']
        if c.get('kind') == 'MemberExpr':
            d = self.ast.byid.get(c.get('referencedMemberDecl'))
            return d if d else {'name': c.get('name'), 'id': c.get('referencedMemberDecl')}
        return {}
    def callee_name(self, n): return self.callee_decl(n).get('name')

    def effects(self, n):
        k = n.get('kind')
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'): return True
        if k in ('CompoundAssignOperator',): return True
        if k == 'BinaryOperator' and n['opcode'] == '=': return True
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            nm = self.callee_name(n)
            if nm not in ('min', 'max', 'operator()', 'operator[]', 'size', 'begin', 'end', 'get'): return True
        return any(self.effects(c) for c in n.get('inner', []) if isinstance(c, dict) and c)

    # ---------- expressions ----------
    def conv(self, v, frm, to, node):
        """value conversion between arithmetic types"""
        if not isinstance(v, str): return v
        if frm.k == 'bool' and to.k == 'int':
            if v in ('true', 'false'): return '1' if v == 'true' else '0'
            return '(if %s then 1 else 0)' % v
        if to.k == 'bool' and frm.k == 'int':
            if lit(v): return 'true' if litval(v) else 'false'
            return '(%s <> 0)' % v
        if frm.k == 'int' and to.k == 'int':
            if lit(v):
                x = litval(v) & ((1 << to.a) - 1)
                if to.b and x >> (to.a - 1): x -= 1 << to.a
                return mklit(x)
            lo_ok = to.b or not frm.b
            if to.a < frm.a:
                lo = -(2 ** (to.a - 1)) if to.b else 0
                hi = 2 ** (to.a - (1 if to.b else 0)) - 1
                v = self.freeze(v, 'cast')
                self.asrt('no truncation to %d bits' % to.a, '%s <= %s <= %s' % (mklit(lo), v, hi), node)
            elif not lo_ok and not self.unit.get('nosign'):
                v = self.freeze(v, 'cast')
                self.asrt('no negative value converted to unsigned', '0 <= %s' % v, node)
            return v
        if frm.k == 'nt' or to.k == 'nt':
            if frm.k == to.k: return v
            if to.k == 'nt' and lit(v): return 'nt_of_int %s' % v if False else '(nt_of_int %s)' % v
            if to.k == 'nt': return '(nt_of_int %s)' % v
            raise Unsupported('float to int conversion', node)
        return v

    def rv(self, n):
        k = n.get('kind')
        inner = n.get('inner', [])
        c = self.const(n) if k not in ('CompoundStmt',) else None
        if c is not None:
            if isinstance(c, bool): return 'true' if c else 'false'
            if k.endswith('CastExpr') and parse_ty(qt(n)).k == 'nt': return '(nt_of_int %s)' % mklit(c)
            return mklit(c)
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr'):
            if not inner:
                if k == 'CXXDefaultArgExpr': raise Unsupported('default argument', n)
            return self.rv(inner[-1])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr'):
            return self.cast(n)
        if k == 'DeclRefExpr' or k == 'MemberExpr' or k == 'ArraySubscriptExpr' or k == 'CXXThisExpr':
            return self.lv(n)
        if k == 'FloatingLiteral': return '(nt_lit %d)' % (abs(hash(n['value'])) % 1000) if False else 'nt_zero' if float(n['value']) == 0 else '(nt_of_int %d)' % int(float(n['value']))
        if k == 'CXXNullPtrLiteralExpr' or k == 'GNUNullExpr': return 'NULL'
        if k == 'StringLiteral': return 'STR'
        if k == 'CXXScalarValueInitExpr' or k == 'ImplicitValueInitExpr':
            ty = parse_ty(qt(n))
            return {'int': '0', 'bool': 'false', 'nt': 'nt_zero'}[ty.k]
        if k == 'UnaryOperator': return self.unary(n)
        if k == 'BinaryOperator': return self.binary(n)
        if k == 'CompoundAssignOperator': return self.load(self.compound(n), n)
        if k == 'ConditionalOperator': return self.conditional(n)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): return self.call(n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXStdInitializerListExpr'):
            return self.construct(n)
        if k == 'CXXNewExpr' and n.get('isArray'):
            ety = parse_ty(qt(n))
            cnt = self.freeze(self.val(self.rv(inner[0]), n), 'n')
            self.asrt('allocation size is not negative', '0 <= %s' % cnt, n)
            r = self.new_region_local('heap', ety.a, cnt); r.fresh = True
            ini = n.get('initStyle')
            if ini in ('call', 'list'):
                for p, l in self.leaves(ety.a):
                    self.emit('std_fill %s 0 %s %s' % (r.maps[p].term, cnt, {'int': '0', 'nt': 'nt_zero', 'bool': 'false'}[l.k]))
            return PV(r, '0')
        if k == 'CXXDeleteExpr':
            return self.free(self.val(self.rv(inner[0]), n), n)
        raise Unsupported('expression ' + str(k), n)

    def cast(self, n):
        ck = n.get('castKind')
        e = n['inner'][-1]
        if ck == 'ToVoid':
            if self.effects(e): self.rv(e)
            return '()'
        if ck in ('LValueToRValue',):
            return self.load(self.lv(e), n)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'LValueBitCast'):
            return self.rv(e)
        if ck in ('IntegralCast',):
            return self.conv(self.rv(e), parse_ty(qt(e)), parse_ty(qt(n)), n)
        if ck in ('IntegralToBoolean',):
            return self.conv(self.rv(e), parse_ty(qt(e)), Ty('bool'), n)
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            return self.conv(self.rv(e), parse_ty(qt(e)), parse_ty(qt(n)), n)
        if ck == 'PointerToBoolean':
            v = self.rv(e)
            return 'true'
        if ck == 'NullToPointer': return 'NULL'
        if ck == 'PointerToIntegral':
            v = self.rv(e)
            if not isinstance(v, PV): raise Unsupported('pointer to integer', n)
            return '(%s + %s * %d)' % (self.addr_base(v.reg), v.off, self.sizeof(v.reg.elem))
        if ck == 'BitCast':
            v = self.rv(e)
            to = parse_ty(qt(n))
            return self.bitcast(v, to, n)
        raise Unsupported('cast ' + str(ck), n)

    def addr_base(self, reg):
        if not hasattr(reg, 'addr'): raise Unsupported('address of ' + reg.name)
        return reg.addr
    def bitcast(self, v, to, n):
        if to.k != 'ptr': raise Unsupported('bitcast', n)
        if to.a.k == 'void' or isinstance(v, AddrOf) or v == 'NULL': return v
        if isinstance(v, tuple) and v[0] == 'malloc':
            sz = self.sizeof(to.a)
            nb = v[1]
            m = re.fullmatch(r'\((\d+) \* (.*)\)', nb)
            if m and int(m.group(1)) == sz: ln = m.group(2)
            else:
                m2 = re.fullmatch(r'\((.*) \* (\d+)\)', nb)
                if m2 and int(m2.group(2)) == sz: ln = m2.group(1)
                else: ln = '(div %s %d)' % (nb, sz) if sz != 1 else nb
            ln = self.freeze(ln, 'n')
            self.asrt('allocation size is not negative', '0 <= %s' % ln, n)
            r = self.new_region_local('heap', to.a, ln); r.fresh = True
            return PV(r, '0')
        if isinstance(v, PV):
            if v.reg.elem.k == to.a.k and v.reg.elem.a == to.a.a: return v
            if to.a.k == 'byte' and v.reg.elem.k == 'byte': return v
            if to.a.k == 'byte':
                return ('bytes', v)
            if v.reg.elem.k == 'byte': return self.typed_view(v, to.a, n)
        raise Unsupported('reinterpret cast', n)
    def typed_view(self, v, elem, n):
        sz = self.sizeof(elem)
        off = self.freeze(v.off, 'voff')
        clean = v.reg.maps['']
        r = self.new_region_local('view', elem, 'div (%s - %s) %d' % (v.reg.len.read(), off, sz))
        r.view = (v.reg, off, sz)
        if hasattr(v.reg, 'addr'):
            r.addr = '(%s + %s)' % (v.reg.addr, off)
            self.asrt('typed view is aligned', 'mod %s %d = 0' % (r.addr, max(self.sizeof(l) for p, l in self.leaves(elem))), n)
        self.asrt('typed view starts inside the buffer', '0 <= %s <= %s' % (off, v.reg.len.read()), n)
        facts = []
        for p, l in self.leaves(elem):
            o = self.ones(l)
            if o is not None: facts.append('%s[i] = %s' % (r.maps[p].read(), o))
        self.emit('assume { [@expl:typed view of 0xFF bytes] forall i. 0 <= i -> (forall b. %s + i * %d <= b < %s + i * %d + %d -> %s[b]) -> %s }' %
                  (off, sz, off, sz, sz, clean.read(), ' /\\ '.join(facts) if facts else 'true'))
        return PV(r, '0')

    def unary(self, n):
        op = n['opcode']; e = n['inner'][0]
        if op in ('++', '--'):
            p = self.lv(e)
            old = self.load(p, n)
            d = '+' if op == '++' else '-'
            if isinstance(old, PV):
                o = self.freeze(old.off, 'old')
                self.store(p, PV(old.reg, '(%s %s 1)' % (o, d)), n)
                return PV(old.reg, o) if n.get('isPostfix') else self.lvret(p)
            o = self.freeze(old, 'old')
            self.store(p, '(%s %s 1)' % (o, d), n)
            return o if n.get('isPostfix') else self.lvret(p)
        if op == '-':
            v = self.rv(e)
            return '(- %s)' % v
        if op == '+': return self.rv(e)
        if op == '!':
            v = self.rv(e)
            return '(not %s)' % v
        if op == '&':
            p = self.lv(e)
            if isinstance(p, Elem):
                if p.path == '': return PV(p.reg, p.idx)
                return AddrOf(p)
            if isinstance(p, Obj): return AddrOf(p)
            return AddrOf(p)
        if op == '*': return self.lv(n)
        if op in ('__extension__',): return self.rv(e)
        if op == '~':
            raise Unsupported('operator ~', n)
        raise Unsupported('unary ' + op, n)
    def lvret(self, p):
        return p if not isinstance(p, Sc) else p

    def val(self, x, node=None):
        """rvalue from something that may be a place"""
        if isinstance(x, (Sc, Ptr)): return self.load(x, node)
        if isinstance(x, Elem) and (x.path in x.reg.maps): return self.load(x, node)
        return x

    def binary(self, n):
        op = n['opcode']; a, b = n['inner']
        if op == '=':
            if qt(a).startswith('std::') : pass
            v = self.val(self.rv(b), n)
            if isinstance(v, str) and self.effects(a): v = self.freeze(v, 'rhs')
            p = self.lv(a)
            if isinstance(v, (PV, Elem, Obj)) or isinstance(p, (Ptr,)): self.store(p, v, n)
            elif isinstance(v, tuple): raise Unsupported('assign raw malloc', n)
            else: self.store(p, v, n)
            return p
        if op in ('&&', '||'):
            va = self.val(self.rv(a), n)
            blk, vb = self.capture(lambda: self.val(self.rv(b), n))
            if not blk:
                return '(%s %s %s)' % (va, op, vb)
            t = self.fresh('_b')
            if op == '&&': self.let(t, 'if %s then %s else false' % (va, self.compose(blk, vb)))
            else: self.let(t, 'if %s then true else %s' % (va, self.compose(blk, vb)))
            return t
        if op == ',':
            self.rv(a)
            return self.rv(b)
        va = self.val(self.rv(a), n)
        if self.effects(b):
            if isinstance(va, str): va = self.freeze(va, 'l')
            elif isinstance(va, PV): va = PV(va.reg, self.freeze(va.off, 'l'))
        vb = self.val(self.rv(b), n)
        return self.arith(op, va, vb, parse_ty(qt(n)), n, parse_ty(qt(a)))
    def arith(self, op, va, vb, ty, n, tya=None):
        if op in ('==', '!=') and isinstance(va, (Obj, AddrOf)) and isinstance(vb, (Obj, AddrOf)):
            a, b = (x.place if isinstance(x, AddrOf) else x for x in (va, vb))
            return 'true' if (a is b) == (op == '==') else 'false'
        if isinstance(va, PV) or isinstance(vb, PV):
            if op == '+': return PV(va.reg, '(%s + %s)' % (va.off, vb)) if isinstance(va, PV) else PV(vb.reg, '(%s + %s)' % (va, vb.off))
            if op == '-' and not isinstance(vb, PV): return PV(va.reg, '(%s - %s)' % (va.off, vb))
            if vb == 'NULL' or va == 'NULL':
                pv = va if isinstance(va, PV) else vb
                if pv.reg.live is not None: return '(%s %s 0)' % (pv.reg.live.read(), '=' if op == '==' else '<>')
                return 'false' if op == '==' else 'true'
            if not (isinstance(va, PV) and isinstance(vb, PV)): raise Unsupported('pointer arithmetic', n)
            if va.reg is not vb.reg:
                # views of one byte buffer
                ra, rb = getattr(va.reg, 'view', None), getattr(vb.reg, 'view', None)
                def flat(pv):
                    v = getattr(pv.reg, 'view', None)
                    if v: return v[0], '(%s + %s * %d)' % (v[1], pv.off, v[2])
                    return pv.reg, pv.off
                (r1, o1), (r2, o2) = flat(va), flat(vb)
                if r1 is not r2: raise Unsupported('comparison of pointers to different arrays: %s and %s' % (r1.name, r2.name), n)
                va, vb = PV(r1, o1), PV(r2, o2)
            if op == '-': return '(%s - %s)' % (va.off, vb.off)
            va, vb = va.off, vb.off
            w = {'==': '=', '!=': '<>'}.get(op, op)
            if w in ('=', '<>', '<', '>', '<=', '>='): return '(%s %s %s)' % (va, w, vb)
            raise Unsupported('pointer op ' + op, n)
        if not isinstance(va, str) or not isinstance(vb, str): raise Unsupported('operands of %s: %r %r' % (op, va, vb), n)
        if tya is not None and tya.k == 'bool' and op in ('==', '!='):
            return '(%s %s %s)' % (va, {'==': '=', '!=': '<>'}[op], vb) if True else ''
        if op in ('<', '>', '<=', '>='):
            if tya is not None and tya.k == 'nt': raise Unsupported('comparison of values', n)
            return '(%s %s %s)' % (va, op, vb)
        if op in ('==', '!='):
            if tya is not None and tya.k == 'nt': raise Unsupported('comparison of values', n)
            return '(%s %s %s)' % (va, {'==': '=', '!=': '<>'}[op], vb)
        if ty.k == 'nt':
            f = {'+': 'nt_plus', '*': 'nt_times', '-': 'nt_minus'}.get(op)
            if not f: raise Unsupported('value operator ' + op, n)
            return '(%s %s %s)' % (f, va, vb)
        if op in ('+', '-', '*'): return '(%s %s %s)' % (va, op, vb)
        if op in ('/', '%'):
            if not (lit(vb) and litval(vb) > 0): 
                vb = self.freeze(vb, 'd')
                self.asrt('division by a positive number', '%s > 0' % vb, n)
            va = self.freeze(va, 'd')
            if ty.b: self.asrt('dividend not negative', '%s >= 0' % va, n)
            return '(%s %s %s)' % ('div' if op == '/' else 'mod', va, vb)
        if op == '&':
            if lit(va): va, vb = vb, va
            m = litval(vb) if lit(vb) else None
            if m is not None and m >= 0 and m & (m + 1) == 0:       # low bits
                va = self.freeze(va, 'm')
                if ty.b: self.asrt('masked number not negative', '%s >= 0' % va, n)
                return '(mod %s %d)' % (va, m + 1)
            if m is not None and ty.k == 'int' and not ty.b and (2 ** ty.a - m) & (2 ** ty.a - m - 1) == 0 and 0 < m < 2 ** ty.a:   # all but the low bits
                va = self.freeze(va, 'm')
                return '(%s - mod %s %d)' % (va, va, 2 ** ty.a - m)
            return '(band %s %s)' % (va, vb)
        if op == '|': return '(bor %s %s)' % (va, vb)
        if op == '<<' and lit(vb) and 0 <= litval(vb) < 64: return '(%d * %s)' % (2 ** litval(vb), va)
        if op == '<<': return '(shl %s %s)' % (va, vb)
        if op == '>>': return '(shr %s %s)' % (va, vb)
        raise Unsupported('operator ' + op, n)

    def compound(self, n):
        op = n['opcode'][:-1]; a, b = n['inner']
        vb = self.val(self.rv(b), n)
        if isinstance(vb, str) and self.effects(a): vb = self.freeze(vb, 'rhs')
        p = self.lv(a)
        va = self.load(p, n)
        ty = parse_ty(qt(a))
        if isinstance(va, PV):
            self.store(p, self.arith(op, va, vb, ty, n), n); return p
        ct = n.get('computeResultType', {})
        r = self.arith(op, va, vb, ty if ty.k != 'bool' else Ty('int', 32, 1), n, ty)
        cty = parse_ty(ct.get('desugaredQualType', ct.get('qualType', qt(a)))) if ct else ty
        if ty.k == 'bool':
            if op in ('&', '|'):
                vbb = self.conv(vb, Ty('int', 32, 1), Ty('bool'), n) if not re.match(r'^\(if (.*) then 1 else 0\)$', vb) else re.match(r'^\(if (.*) then 1 else 0\)$', vb).group(1)
                r = '(%s %s %s)' % (va, '&&' if op == '&' else '||', vbb)
        elif cty.k == 'int' and ty.k == 'int': r = self.conv(r, cty, ty, n)
        self.store(p, r, n)
        return p

    def conditional(self, n):
        c, a, b = n['inner']
        cc = self.const(c)
        if cc is not None: return self.rv(a if cc else b)
        if self.is_assert_fail(b):
            v = self.val(self.rv(c), n)
            self.asrt('C++ assert', v, n)
            return '()'
        v = self.val(self.rv(c), n)
        v = self.freeze(v, 'c')
        ba, ra = self.capture(lambda: self.val(self.rv(a), n))
        bb, rb = self.capture(lambda: self.val(self.rv(b), n))
        if isinstance(ra, PV) and isinstance(rb, PV) and ra.reg is rb.reg:
            t = self.fresh('_p')
            self.let(t, 'if %s then %s else %s' % (v, self.compose(ba, ra.off), self.compose(bb, rb.off)))
            return PV(ra.reg, t)
        if not isinstance(ra, str) or not isinstance(rb, str): raise Unsupported('conditional on non-scalars', n)
        t = self.fresh('_q')
        self.let(t, 'if %s then %s else %s' % (v, self.compose(ba, ra), self.compose(bb, rb)))
        return t
    def is_assert_fail(self, b):
        while b.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): b = b['inner'][0]
        return b.get('kind') == 'CallExpr' and self.callee_name(b) == '__assert_fail'

    # ---------- lvalues ----------
    def lv(self, n):
        k = n.get('kind')
        inner = n.get('inner', [])
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'): return self.lv(inner[-1])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr') and n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'): return self.lv(inner[-1])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            p = self.env.get(d['id'])
            if p is not None: return p
            c = self.const(n)
            if c is not None: return Sc('true' if c is True else 'false' if c is False else mklit(c), parse_ty(qt(n)), mut=False)
            raise Unsupported('reference to %s' % d.get('name'), n)
        if k == 'CXXThisExpr': return self.this
        if k == 'MemberExpr':
            c = self.const(n)
            if c is not None: return Sc('true' if c is True else 'false' if c is False else mklit(c), parse_ty(qt(n)), mut=False)
            b = self.lv(inner[0]) if inner[0].get('kind') != 'ImplicitCastExpr' or inner[0].get('castKind') != 'LValueToRValue' else self.rv(inner[0])
            if isinstance(b, AddrOf): b = b.place
            if isinstance(b, PV): b = Elem(b.reg, self.freeze(b.off, 'i'))
            if isinstance(b, Ptr): b = Elem(b.reg, self.freeze(b.off.read(), 'i'))
            nm = n['name']
            if isinstance(b, Obj):
                if nm not in b.fields: raise Unsupported('field ' + nm, n)
                return b.fields[nm]
            if isinstance(b, Elem):
                return Elem(b.reg, b.idx, (b.path + '.' + nm).strip('.'))
            raise Unsupported('member %s of %r' % (nm, b), n)
        if k == 'ArraySubscriptExpr':
            b = self.val(self.rv(inner[0]), n)
            if isinstance(b, PV) and self.effects(inner[1]): b = PV(b.reg, self.freeze(b.off, 'b'))
            i = self.val(self.rv(inner[1]), n)
            if isinstance(i, PV): b, i = i, b
            if not isinstance(b, PV): raise Unsupported('subscript of %r' % (b,), n)
            idx = i if b.off == '0' else '(%s + %s)' % (b.off, i)
            return Elem(b.reg, self.freeze(idx, 'i'))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            v = self.val(self.rv(inner[0]), n)
            if isinstance(v, AddrOf): return v.place
            if isinstance(v, Obj): return v
            if isinstance(v, tuple) and v[0] == 'bytes': raise Unsupported('deref of byte view', n)
            if not isinstance(v, PV): raise Unsupported('deref', n)
            return Elem(v.reg, self.freeze(v.off, 'i'))
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            r = self.unary(n)
            return r
        if k == 'BinaryOperator' and n['opcode'] == '=': return self.binary(n)
        if k == 'CompoundAssignOperator': return self.compound(n)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = self.call(n, want_lv=True)
            return r
        # temporaries bound to references
        v = self.rv(n)
        if isinstance(v, str):
            return Sc(self.freeze(v, 'tmp'), parse_ty(qt(n)), mut=False)
        return v

    # ---------- calls ----------
    def call(self, n, want_lv=False):
        k = n['kind']
        inner = n['inner']
        d = self.callee_decl(n)
        name = d.get('name')
        args = inner[1:]
        thisobj = None
        if k == 'CXXOperatorCallExpr':
            if name == 'operator()':
                cls = self.ast.enclosing_class(self.ast.byid[d['id']]) if d['id'] in self.ast.byid else None
                cn = cls.get('name') if cls else None
                if cn in ('Mul', 'Add'):
                    va = self.val(self.rv(args[1]), n)
                    if self.effects(args[2]): va = self.freeze(va, 'o')
                    vb = self.val(self.rv(args[2]), n)
                    return '(%s %s %s)' % ('mulf' if cn == 'Mul' else 'addf', va, vb)
                mc = re.match(r'(?:const )?(?:std::)?(less|greater)<', qt(args[0]))
                if mc and parse_ty(qt(args[1])).k == 'int':
                    cn = mc.group(1)
                    va = self.val(self.rv(args[1]), n)
                    if self.effects(args[2]): va = self.freeze(va, 'o')
                    vb = self.val(self.rv(args[2]), n)
                    return '(%s %s %s)' % (va, '<' if cn == 'less' else '>', vb)
            r = self.iter_op(n, name, args)
            if r is not None: return r
            if name == 'operator<<' and re.search(r'ostream|__ostream_type', qt(n)):       # progress output: the operands are evaluated, the text is not modelled
                for a in args[:1]:
                    if a.get('kind') in ('CXXOperatorCallExpr', 'CXXMemberCallExpr'): self.rv(a)
                for a in args[1:]:
                    if self.effects(a): self.rv(a)
                return '()'
            full = self.ast.byid.get(d['id'])
            t0 = parse_ty(qt(args[0])) if args else None
            if name == 'operator=' and full is None and t0 is not None and (t0.k == 'rec' and re.match(r'^(std::)?pair<', t0.a) or getattr(t0, 'atomic', False)):
                v = self.rv(args[1])
                if isinstance(v, (Sc,)): v = self.load(v)
                if isinstance(v, str): v = self.freeze(v, 'rhs')
                p = self.lv(args[0])
                if getattr(t0, 'atomic', False) and self.omp is not None: raise Unsupported('store to an atomic in a parallel construct', n)
                self.store(p, v, n); return p
            if full is not None and full.get('kind') == 'CXXMethodDecl':
                thisobj = self.lv(args[0]); args = args[1:]
                if name == 'operator=' and self.ast.definition(d['id']) is None or name == 'operator=' and full.get('isImplicit'):
                    v = self.rv(args[0])
                    self.store(thisobj, v if not isinstance(v, Sc) else self.load(v), n)
                    return thisobj
        if k == 'CXXMemberCallExpr':
            me = inner[0]
            while me.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): me = me['inner'][0]
            if me.get('kind') != 'MemberExpr': raise Unsupported('member call', n)
            base = me['inner'][0]
            bt = parse_ty(qt(base))
            bb = base
            thisobj = None
            o = self.lv(base) if not (base.get('kind') == 'ImplicitCastExpr' and base.get('castKind') == 'LValueToRValue') else self.rv(base)
            if isinstance(o, AddrOf): o = o.place
            thisobj = o
            if isinstance(o, Vec): return self.vec_call(o, me['name'], args, n)
            if isinstance(o, Elem) and getattr(o.reg.elem, 'atomic', False) and me['name'].startswith('operator ') and not args: return self.load(o, n)
            name = me['name']
        b = self.builtin(name, d, args, n, thisobj)
        if b is not None:
            self.info['builtins'].add(name)
            return b
        fn = self.ast.definition(d['id'])
        if fn is None: raise Unsupported('call of external function %s' % name, n)
        u = self.unit_for(fn)
        if u is not None: return self.call_contract(u, fn, thisobj, args, n)
        return self.inline(fn, thisobj, args, n)

    def unit_for(self, fn):
        for u in self.units.values():
            if u.get('fn_id') == fn['id'] and u is not self.unit and u['name'] not in self.unit.get('inline', ()):
                if u.get('callable', True): return u
        return None

    def iter_op(self, n, name, args):
        """vector iterators behave as pointers"""
        t0 = qt(args[0]) if args else ''
        if '__normal_iterator' not in t0 and not (len(args) > 1 and '__normal_iterator' in qt(args[1])): 
            if name == 'operator[]' and re.search(r'\bvector<', t0):
                o = self.lv(args[0]); i = self.val(self.rv(args[1]), n)
                if isinstance(o, Vec): return Elem(o.reg, self.freeze(i, 'i'))
            if name in ('operator!=', 'operator==') : pass
            return None
        if name in ('operator++', 'operator--'):
            p = self.lv(args[0]); v = self.load(p, n)
            o = self.freeze(v.off, 'old')
            self.store(p, PV(v.reg, '(%s %s 1)' % (o, name[-1])), n)
            return PV(v.reg, o) if len(args) > 1 else p
        if name == 'operator->':
            v = self.val(self.rv(args[0]), n)
            return PV(v.reg, self.freeze(v.off, 'i'))
        if name == 'operator=':
            v = self.val(self.rv(args[1]), n); p = self.lv(args[0])
            self.store(p, v, n); return p
        if name == 'operator*':
            v = self.val(self.rv(args[0]), n)
            return Elem(v.reg, self.freeze(v.off, 'i'))
        if name in ('operator!=', 'operator==', 'operator-', 'operator<', 'operator+'):
            a = self.val(self.rv(args[0]), n); b = self.val(self.rv(args[1]), n)
            return self.arith(name[8:], a, b, Ty('int', 64, 1), n)
        return None

    def vec_call(self, v, name, args, n):
        r = v.reg
        if name in ('push_back', 'clear', 'pop_back') and self.omp is not None:
            if id(r) in self.omp.get('outer_regs', ()): raise Unsupported('data race: a parallel construct changes the shared vector ' + r.name, n)
        if name == 'push_back':
            x = self.val(self.rv(args[0]), n)
            sc = r.maps.get('')
            if isinstance(x, Obj) and sc is None:
                r.len.written = True
                for kk, sc in r.maps.items():
                    f = x
                    for q in kk.split('.'): f = f.fields[q]
                    sc.written = True
                    self.emit('%s := %s[%s <- %s]' % (sc.term, sc.read(), r.len.read(), f.read()))
                self.emit('%s := %s + 1' % (r.len.term, r.len.read()))
                return '()'
            if sc is None: raise Unsupported('push_back of struct', n)
            sc.written = True; r.len.written = True
            self.emit('%s := %s[%s <- %s]' % (sc.term, sc.read(), r.len.read(), x))
            self.emit('%s := %s + 1' % (r.len.term, r.len.read()))
            return '()'
        if name == 'clear':
            r.len.written = True
            self.emit('%s := 0' % r.len.term); return '()'
        if name == 'size': return r.len.read()
        if name == 'empty': return '(%s = 0)' % r.len.read()
        if name in ('begin', 'data', 'cbegin'): return PV(r, '0')
        if name in ('end', 'cend'): return PV(r, r.len.read())
        if name in ('operator[]', 'at'): return Elem(r, self.freeze(self.val(self.rv(args[0]), n), 'i'))
        if name == 'back': return Elem(r, self.freeze('(%s - 1)' % r.len.read(), 'i'))
        if name == 'pop_back':
            self.asrt('pop_back on a non-empty vector', '%s > 0' % r.len.read(), n)
            r.len.written = True
            self.emit('%s := %s - 1' % (r.len.term, r.len.read())); return '()'
        if name == 'reserve': return '()'
        raise Unsupported('vector::' + name, n)

    def range2(self, args, n):
        a = self.val(self.rv(args[0]), n); 
        if isinstance(a, PV): a = PV(a.reg, self.freeze(a.off, 'a'))
        b = self.val(self.rv(args[1]), n)
        if not isinstance(a, PV) or not isinstance(b, PV) or a.reg is not b.reg: raise Unsupported('iterator range', n)
        b = PV(b.reg, self.freeze(b.off, 'z'))
        return a, b
    def range_ok(self, reg, lo, hi, n, write=False):
        if reg.moved: raise Unsupported('moved-from buffer', n)
        self.asrt('range of ' + reg.name, '%s <= %s -> (0 <= %s /\\ %s <= %s)' % (lo, hi, lo, hi, reg.len.read()) if False else '%s = %s \\/ (0 <= %s /\\ %s <= %s /\\ %s <= %s)' % (lo, hi, lo, lo, hi, hi, reg.len.read()), n)
        if self.omp is not None:
            own = self.omp['own'].get(id(reg))
            if own is None and write: self.outer_write(reg, n)
            if own == 'ro' and write: raise Unsupported('write to read-only shared region', n)
            if own is not None and own[0] == 'pred': raise Unsupported('range with a predicate footprint', n)
            if own is not None and own != 'ro':
                self.asrt('thread footprint of ' + reg.name, '%s = %s \\/ (%s <= %s /\\ %s <= %s)' % (lo, hi, own[0], lo, hi, own[1]), n)

    def builtin(self, name, d, args, n, thisobj):
        inrepo = self.ast.definition(d.get('id')) is not None if d.get('id') else False
        if name == 'omp_get_thread_num':
            if self.omp is None or 'tid' not in self.omp:
                if self.unit.get('tid'): return self.resolve(self.unit['tid'])
                raise Unsupported('omp_get_thread_num outside a parallel region', n)
            return self.omp['tid']
        if name in ('omp_get_num_threads', 'omp_get_max_threads'):
            if name == 'omp_get_num_threads' and self.omp is not None and 'nt' in self.omp: return self.omp['nt']
            t = self.fresh('_nt')
            self.let(t, '(some_team_size ())')
            return t
        if name == 'mallocAligned' and not self.unit['name'].startswith('mallocAligned'):
            # by contract (proved in unit mallocAligned): nelem fresh elements, aligned as asked
            nn = self.freeze(self.val(self.rv(args[0]), n), 'n')
            al = [a for a in args[1:] if a.get('kind') != 'CXXDefaultArgExpr']
            if al: self.asrt('alignment is positive', '1 <= %s' % self.val(self.rv(al[0]), n), n)
            self.asrt('allocation size is not negative', '0 <= %s' % nn, n)
            r = self.new_region_local('aligned', parse_ty(qt(n)).a, nn); r.fresh = True; r.aligned = True
            return PV(r, '0')
        if name == 'freeAligned' and not self.unit['name'].startswith('freeAligned'):
            v = self.val(self.rv(args[0]), n)
            if not isinstance(v, PV) or not getattr(v.reg, 'aligned', False): raise Unsupported('freeAligned of memory that mallocAligned did not return', n)
            return self.free(v, n)
        if inrepo: return None
        if name in ('min', 'max') and len(args) == 2:
            a = self.val(self.rv(args[0]), n); b = self.val(self.rv(args[1]), n)
            ty = parse_ty(qt(n))
            if ty.k == 'nt': raise Unsupported('min of values', n)
            return '(%s %s %s)' % (name, a, b)
        if name == 'lcm':
            a = self.val(self.rv(args[0]), n); b = self.val(self.rv(args[1]), n)
            return '(lcm %s %s)' % (a, b)
        if name in ('move', 'forward') and len(args) == 1: return self.rv(args[0])
        if name == 'malloc':
            return ('malloc', self.val(self.rv(args[0]), n))
        if name == 'free': return self.free(self.val(self.rv(args[0]), n), n)
        if name == 'memcpy': return self.memcpy_word(args, n)
        if name == 'memset':
            return self.memset(args, n)
        if name == 'copy' and len(args) == 3:
            a, b = self.range2(args, n)
            dst = self.val(self.rv(args[2]), n)
            if not isinstance(dst, PV): raise Unsupported('copy', n)
            do = self.freeze(dst.off, 'dst')
            self.range_ok(a.reg, a.off, b.off, n)
            self.range_ok(dst.reg, do, '(%s + (%s - %s))' % (do, b.off, a.off), n, True)
            for k, sc in dst.reg.maps.items():
                sc.written = True
                self.emit('std_copy %s %s %s %s %s' % (sc.term, do, a.reg.maps[k].read(), a.off, b.off))
            return PV(dst.reg, '(%s + (%s - %s))' % (do, b.off, a.off))
        if name == 'fill' and len(args) == 3:
            a, b = self.range2(args, n)
            v = self.val(self.rv(args[2]), n)
            self.range_ok(a.reg, a.off, b.off, n, True)
            sc = a.reg.maps['']; sc.written = True
            self.emit('std_fill %s %s %s %s' % (sc.term, a.off, b.off, self.freeze(v, 'fv')))
            return '()'
        if name == 'accumulate' and len(args) == 3:
            a, b = self.range2(args, n)
            v = self.val(self.rv(args[2]), n)
            self.range_ok(a.reg, a.off, b.off, n)
            return '(%s + sum %s %s %s)' % (v, a.reg.maps[''].read(), a.off, b.off)
        if name == 'lower_bound' and len(args) == 3:
            a, b = self.range2(args, n)
            v = self.freeze(self.val(self.rv(args[2]), n), 'key')
            self.range_ok(a.reg, a.off, b.off, n)
            t = self.fresh('_lb')
            self.let(t, 'std_lower_bound %s %s %s %s' % (a.reg.maps[''].read(), a.off, b.off, v))
            return PV(a.reg, t)
        if name == 'sort' and len(args) == 2:
            a, b = self.range2(args, n)
            if list(a.reg.maps) == ['first', 'second']:
                self.range_ok(a.reg, a.off, b.off, n, True)
                f, g = a.reg.maps['first'], a.reg.maps['second']
                f.written = g.written = True
                self.emit('std_sort_pairs %s %s %s %s' % (f.term, g.term, a.off, b.off))
                return '()'
            if list(a.reg.maps) != ['']: raise Unsupported('sort of structs', n)
            self.range_ok(a.reg, a.off, b.off, n, True)
            sc = a.reg.maps['']; sc.written = True
            self.emit('std_sort%s %s %s %s' % ('_perm' if self.unit.get('sortperm') else '', sc.term, a.off, b.off))
            return '()'
        if name == 'get' and len(args) == 1:
            m = re.search(r'tuple_element(?:_t)?<(\d+)U?L?,', self.callee_decl(n).get('type', {}).get('qualType', '') or '')
            o = self.lv(args[0])
            if m and isinstance(o, Elem): return Elem(o.reg, o.idx, (o.path + '.' if o.path else '') + (('first', 'second')[int(m.group(1))] if 'first' in o.reg.maps else m.group(1)))
            if m and isinstance(o, Tup): return Sc(o.vals[int(m.group(1))], Ty('int', 64, 1), mut=False)
            if isinstance(o, Elem) and o.reg.elem.k == 'rec' and m is None:
                m = re.search(r'tuple_element<(\d+)', json.dumps(self.callee_decl(n)))
            raise Unsupported('std::get', n)
        if name == 'make_pair' and len(args) == 2:
            fs = {}
            for f, a in zip(('first', 'second'), args):
                t = parse_ty(qt(a))
                fs[f] = Sc(self.freeze(self.val(self.rv(a), n), f), t, mut=False)
            return Obj(None, fs)
        if name in ('atomic_fetch_add', 'atomic_fetch_sub') and len(args) == 2:
            v = self.rv(args[0])
            p = v.place if isinstance(v, AddrOf) else Elem(v.reg, self.freeze(v.off, 'i')) if isinstance(v, PV) else None
            if not isinstance(p, Elem): raise Unsupported(name, n)
            d = self.val(self.rv(args[1]), n)
            self.bounds(p, True, n)
            sc = p.reg.maps['']; sc.written = True
            o = self.freeze('%s[%s]' % (sc.read(), p.idx), 'old')
            self.emit('%s := %s[%s <- %s %s %s]' % (sc.term, sc.read(), p.idx, o, '+' if name.endswith('add') else '-', d))
            return o
        if name == 'exit' or name == 'abort' or name == '__assert_fail':
            self.asrt('unreachable ' + name, 'false', n)
            self.emit('absurd' if False else 'assume { false }')
            return '()'
        if name in ('make_heap', 'push_heap', 'pop_heap') and len(args) == 2:
            a, b = self.range2(args, n)
            self.range_ok(a.reg, a.off, b.off, n, True)
            hs = self.unit.get('heap')
            if hs is None: raise Unsupported(name, n)
            return hs(self, name, a.reg, a.off, b.off, n)
        if name == 'swap' and len(args) == 2:
            p, q = self.lv(args[0]), self.lv(args[1])
            if isinstance(p, Elem) and isinstance(q, Elem) or isinstance(p, Sc) and isinstance(q, Sc):
                if isinstance(p, Elem):
                    self.bounds(p, True, n); self.bounds(q, True, n)
                    for k in p.reg.maps:
                        a = self.freeze('%s[%s]' % (p.reg.maps[k].read(), p.idx), 's'); b = self.freeze('%s[%s]' % (q.reg.maps[k].read(), q.idx), 's')
                        for (pl, vv) in ((p, b), (q, a)):
                            sc = pl.reg.maps[k]; sc.written = True
                            self.emit('%s := %s[%s <- %s]' % (sc.term, sc.read(), pl.idx, vv))
                else:
                    a, b = self.freeze(p.read(), 's'), self.freeze(q.read(), 's')
                    self.store(p, b, n); self.store(q, a, n)
                return '()'
            raise Unsupported('swap', n)
        return None

    def free(self, v, n):
        if isinstance(v, PV):
            if getattr(v.reg, 'handed', False): self.asrt('freed storage was not handed over to another object: ' + v.reg.name, 'false', n)
            if v.off != '0' and not hasattr(v.reg, 'raw'): self.asrt('free of the start of an allocation', '%s = 0' % v.off, n)
            if v.reg.live is not None:
                self.asrt('freed storage is allocated and not freed before: ' + v.reg.name, '%s = 1 \\/ %s = 0' % (v.reg.live.read(), v.reg.live.read()), n)
                v.reg.live.written = True
                if v.reg.live.mut: self.emit('%s := (if %s = 0 then 0 else 2)' % (v.reg.live.term, v.reg.live.read()))
            v.reg.len.written = True
            if v.reg.len.mut: self.emit('%s := 0' % v.reg.len.term)
            else: raise Unsupported('free of a const buffer', n)
        return '()'
    def memset(self, args, n):
        dst = self.val(self.rv(args[0]), n)
        c = self.const(args[1])
        nb = self.val(self.rv(args[2]), n)
        if c not in (255, -1, 0): raise Unsupported('memset value', n)
        if isinstance(dst, tuple) and dst[0] == 'bytes': dst = dst[1]
        if isinstance(dst, AddrOf) and isinstance(dst.place, Elem):
            p = dst.place
            l = dict(self.leaves(p.reg.elem)).get(p.path)
            if l is None or not lit(nb) or litval(nb) != self.sizeof(l): raise Unsupported('memset of part of an object', n)
            v = self.ones(l) if c != 0 else {'int': '0', 'nt': 'nt_zero', 'bool': 'false'}[l.k]
            if v is None: raise Unsupported('memset of bool', n)
            self.store(p, v, n)
            return '()'
        if isinstance(dst, PV):
            nbf = self.freeze(nb, 'nb'); o = self.freeze(dst.off, 'o')
            if dst.reg.elem.k == 'byte':
                if c == 0: raise Unsupported('memset 0 of raw bytes', n)
                self.range_ok(dst.reg, o, '(%s + %s)' % (o, nbf), n, True)
                self.asrt('memset length not negative', '0 <= %s' % nbf, n)
                sc = dst.reg.maps['']; sc.written = True
                self.emit('std_fill %s %s (%s + %s) true' % (sc.term, o, o, nbf))
                self.hdr_clobber(dst.reg, o, '(%s + %s)' % (o, nbf))
                return '()'
            sz = self.sizeof(dst.reg.elem)
            m = re.fullmatch(r'\((.*) \* %d\)' % sz, nb)
            cntt = self.freeze(m.group(1), 'cnt') if m else None
            if cntt is None:
                cntt = self.freeze('(div %s %d)' % (nbf, sz), 'cnt')
                self.asrt('memset of whole objects', '%s = %s * %d' % (nbf, cntt, sz), n)
            self.asrt('memset length not negative', '0 <= %s' % cntt, n)
            self.range_ok(dst.reg, o, '(%s + %s)' % (o, cntt), n, True)
            for p, l in self.leaves(dst.reg.elem):
                v = self.ones(l) if c != 0 else {'int': '0', 'nt': 'nt_zero', 'bool': 'false'}[l.k]
                sc = dst.reg.maps[p]; sc.written = True
                if v is None: self.emit('std_havoc %s %s (%s + %s)' % (sc.term, o, o, cntt))
                else: self.emit('std_fill %s %s (%s + %s) %s' % (sc.term, o, o, cntt, v))
            return '()'
        raise Unsupported('memset', n)

    def hdr_clobber(self, reg, lo, hi):
        h = reg.maps.get('hdr')
        if h is not None: h.written = True; self.emit('std_havoc %s (%s - 7) %s' % (h.term, lo, hi))
    def memcpy_word(self, args, n):
        """a size_t copied to or from raw bytes"""
        d, s_ = self.val(self.rv(args[0]), n), self.val(self.rv(args[1]), n)
        if self.const(args[2]) != 8: raise Unsupported('memcpy of this size', n)
        if isinstance(d, PV) and d.reg.elem.k == 'byte' and isinstance(s_, AddrOf) and isinstance(s_.place, Sc):
            h = d.reg.maps.get('hdr')
            if h is None: raise Unsupported('memcpy to raw bytes', n)
            o = self.freeze(d.off, 'o')
            self.range_ok(d.reg, o, '(%s + 8)' % o, n, True)
            d.reg.maps[''].written = True
            self.emit('std_havoc %s %s (%s + 8)' % (d.reg.maps[''].term, o, o))
            self.hdr_clobber(d.reg, o, '(%s + 8)' % o)
            self.emit('%s := %s[%s <- %s]' % (h.term, h.read(), o, s_.place.read()))
            return '()'
        if isinstance(s_, PV) and s_.reg.elem.k == 'byte' and isinstance(d, AddrOf) and isinstance(d.place, Sc):
            h = s_.reg.maps.get('hdr')
            if h is None: raise Unsupported('memcpy from raw bytes', n)
            o = self.freeze(s_.off, 'o')
            self.range_ok(s_.reg, o, '(%s + 8)' % o, n, False)
            self.store(d.place, '%s[%s]' % (h.read(), o), n)
            return '()'
        raise Unsupported('memcpy', n)

    def construct(self, n):
        ty = parse_ty(qt(n))
        inner = n.get('inner', [])
        if ty.k == 'tuple':
            if len(inner) == 1 and len(ty.a) != 1: return self.rv(inner[0])
            return Tup([self.freeze(self.val(self.rv(a), n), 'tv') for a in inner])
        if ty.k in ('int', 'bool', 'nt', 'ptr'):
            if len(inner) == 1: return self.rv(inner[0])
            return {'int': '0', 'bool': 'false', 'nt': 'nt_zero'}[ty.k]
        if re.match(r'(std::)?(less|greater)<', qt(n)) and not inner: return Functor('less')
        if ty.k == 'rec' and len(inner) == 1 and n['kind'] == 'CXXConstructExpr':
            t1 = parse_ty(qt(inner[0]))
            if t1.k == 'rec' and self.norm(t1.a.split('<')[0]) == self.norm(ty.a.split('<')[0]):
                return self.rv(inner[0])        # copy/move construction
        raise Unsupported('construction of ' + qt(n), n)

    # ---------- inlining ----------
    def bind_param(self, p, a, n):
        """bind ParmVarDecl p to argument expression a (evaluated in the caller's scope)"""
        t = p['type'].get('desugaredQualType', p['type']['qualType']).strip()
        ty = parse_ty(t)
        nm = p.get('name', '_')
        if t.endswith('&'):
            e = a
            pl = self.lv(e)
            if isinstance(pl, str): pl = Sc(self.freeze(pl, nm), ty, mut=False)
            if isinstance(pl, (PV,)):
                off = self.freeze(pl.off, nm); pl = Ptr(pl.reg, Sc(off, Ty('int', 64, 1), mut=False))
            return pl
        if ty.k == 'rec':
            d = self.find_class(ty.a)
            if d is not None and d.get('name') in ('Mul', 'Add'): return Functor(d['name'])
            v = self.rv(a)
            return v
        v = self.val(self.rv(a), n)
        return v
    def bind_value(self, p, v):
        """by-value parameter: a fresh local"""
        t = p['type'].get('desugaredQualType', p['type']['qualType']).strip()
        ty = parse_ty(t)
        nm = p.get('name', '_')
        if t.endswith('&') or isinstance(v, (Functor, Obj, Elem, AddrOf)): return v
        if isinstance(v, PV):
            o = self.fresh('_' + nm)
            self.let(o, 'ref (%s)' % v.off)
            return Ptr(v.reg, Sc(o, Ty('int', 64, 1)))
        if isinstance(v, str):
            if v == 'NULL': return Ptr(None, Sc('0', Ty('int', 64, 1), mut=False))
            if lit(v) or v in ('true', 'false'):
                if not self.param_written(p): return Sc(v, ty, mut=False)
            o = self.fresh('_' + nm)
            self.let(o, 'ref (%s)' % v)
            return Sc(o, ty)
        if isinstance(v, tuple): return v
        raise Unsupported('parameter %s' % nm)
    def param_written(self, p):
        fn = self.ast.parent.get(p['id'])
        pid = p['id']
        def w(n):
            if not isinstance(n, dict): return False
            k = n.get('kind')
            if (k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&')) or k == 'CompoundAssignOperator' or (k == 'BinaryOperator' and n['opcode'] == '='):
                t = n['inner'][0]
                while t.get('kind') == 'ParenExpr': t = t['inner'][0]
                if t.get('kind') == 'DeclRefExpr' and t['referencedDecl']['id'] == pid: return True
            if k in ('CallExpr', 'CXXMemberCallExpr'):
                for a in n['inner'][1:]:
                    if a.get('kind') == 'DeclRefExpr' and a['referencedDecl']['id'] == pid: return True
            return any(w(c) for c in n.get('inner', []))
        return w(fn) if fn else True

    def inline(self, fn, thisobj, args, n):
        if self.inl_depth > 25: raise Unsupported('recursion in %s' % fn.get('name'), n)
        self.info['inlined'].add(fn.get('name'))
        ps = self.ast.params(fn)
        vals = []
        for i, p in enumerate(ps):
            if i < len(args) and args[i].get('kind') != 'CXXDefaultArgExpr': vals.append(self.bind_param(p, args[i], n))
            else:
                di = [c for c in p.get('inner', []) if c.get('kind') not in (None,)]
                if not di:
                    # default argument kept on the template pattern
                    vals.append(self.default_arg(fn, i, n))
                else: vals.append(self.bind_param(p, di[-1], n))
        # freeze string values that read refs (arguments are evaluated once)
        vals = [self.freeze(v, 'arg') if isinstance(v, str) and v != 'NULL' else (PV(v.reg, self.freeze(v.off, 'arg')) if isinstance(v, PV) else v) for v in vals]
        rty = self.ret_type(fn)
        def run():
            saved_this, self.this = self.this, (thisobj if thisobj is not None else self.this)
            ALIAS.append(self.class_alias(self.ast.enclosing_class(fn)) if fn['kind'] != 'FunctionDecl' else {})
            saved_env = {p['id']: self.env.get(p['id']) for p in ps}
            scope = {}
            self.scopes.append(scope)
            for p, v in zip(ps, vals):
                pl = self.bind_value(p, v)
                self.env[p['id']] = pl
                if p.get('name'): scope[p['name']] = pl
            self.inl_depth += 1
            self.rets.append({'fn': fn, 'exc': None, 'places': [], 'rty': rty})
            saved_loopstack, self.loopstack = self.loopstack, []
            try:
                body = self.ast.body(fn)
                stmts = self.flat(body.get('inner', []))
                tail = None
                for i, s in enumerate(stmts):
                    if s.get('kind') == 'ReturnStmt' and i == len(stmts) - 1:
                        tail = self.ret_value(s, rty)
                        break
                    if s.get('kind') == 'IfStmt' and self.const_if_returns(s):
                        # static if whose taken branch returns: the rest is dead
                        cc = self.const(self.if_cond(s))
                    self.stmt(s)
                return tail
            finally:
                self.loopstack = saved_loopstack
                self.inl_depth -= 1
                self.this = saved_this
                ALIAS.pop()
                self.scopes.pop()
        has_early = self.early_returns(fn)
        if not has_early:
            # splice directly; locals live in the enclosing block (fresh names)
            tail = run()
            self.rets.pop()
            if isinstance(tail, str): return self.freeze(tail, 'r') if tail != '()' else tail
            if isinstance(tail, PV): return PV(tail.reg, self.freeze(tail.off, 'r'))
            if isinstance(tail, Sc) and not rty['ref']: return self.freeze(tail.read(), 'r')
            return tail if tail is not None else '()'
        # early returns: exception with the scalar result
        exc = 'Ret%d' % self.cnt.setdefault('#exc', 0); self.cnt['#exc'] += 1
        def run2():
            self_rets_exc[0] = exc
            t = run()
            return t
        self_rets_exc = [None]
        self.pending_exc = exc
        blk, tail = self.capture(lambda: self.run_with_exc(run, exc))
        r = self.rets.pop()
        ty = rty['ty']
        if ty.k == 'void':
            final = self.compose(blk, '()')
            self.emit('(exception %s in try %s with %s -> () end)' % (exc, final, exc))
            return '()'
        if ty.k in ('int', 'bool', 'nt') and not rty['ref']:
            if tail is None: tailv = 'absurd'
            else:
                b2, tv = self.capture(lambda: self.val(tail))
                tailv = tv if not b2 else self.compose(b2, tv)
            t = self.fresh('_ret')
            self.let(t, '(exception %s %s in try %s with %s r -> r end)' % (exc, WT[ty.k], self.compose(blk, tailv), exc))
            return t
        if ty.k == 'ptr':
            regs = [p for p in r['places']] + ([tail] if tail is not None else [])
            regs = [p for p in regs if isinstance(p, PV)]
            if not regs or any(p.reg is not regs[0].reg for p in regs): raise Unsupported('pointer results from different arrays', n)
            t = self.fresh('_ret')
            self.let(t, '(exception %s int in try %s with %s r -> r end)' % (exc, self.compose(blk, tail.off if tail is not None else 'absurd'), exc))
            return PV(regs[0].reg, t)
        raise Unsupported('early return of %r' % ty, n)
    def run_with_exc(self, run, exc):
        self.next_exc = exc
        return run()
    def default_arg(self, fn, i, n):
        for d in self.ast.functions(fn['name']):
            ps = self.ast.params(d)
            if len(ps) == len(self.ast.params(fn)):
                di = ps[i].get('inner', [])
                if di:
                    c = self.const(di[-1])
                    if c is not None: return 'true' if c is True else 'false' if c is False else mklit(c)
        raise Unsupported('default argument of %s' % fn.get('name'), n)
    def const_if_returns(self, s): return False
    def if_cond(self, s):
        return [c for c in s['inner'] if c][0]
    def ret_type(self, fn):
        t = fn['type']['qualType']
        m = re.match(r'^(.*?)\s*\((.*)\)[^()]*$', t)
        # return type: text before the parameter list
        d = 0
        i = len(t) - 1
        # find the last top-level '(' group
        j = t.rfind(')')
        depth = 0
        for x in range(j, -1, -1):
            if t[x] == ')': depth += 1
            if t[x] == '(':
                depth -= 1
                if depth == 0: i = x; break
        rt = t[:i].strip()
        if rt in ('auto',):
            rt = 'void'
        return {'ty': parse_ty(rt), 'ref': rt.endswith('&'), 'text': rt}
    def flat(self, stmts):
        """a final `if constexpr` is its taken branch"""
        while stmts and stmts[-1].get('kind') == 'IfStmt' and stmts[-1].get('isConstexpr'):
            parts = [c for c in stmts[-1]['inner']]
            cc = self.const(parts[0]) if parts and parts[0] else None
            if cc is not True and cc is not False: break
            br = parts[1] if cc else (parts[2] if len(parts) > 2 else None)
            stmts = stmts[:-1] + ((br.get('inner', []) if br.get('kind') == 'CompoundStmt' else [br]) if br and br.get('kind') != 'NullStmt' else [])
        return stmts
    def early_returns(self, fn):
        """does the body contain a return that is not the last top-level statement (ignoring statically dead code)?"""
        body = self.ast.body(fn)
        stmts = self.flat(body.get('inner', []))
        def has(s):
            if not isinstance(s, dict) or not s: return False
            if s.get('kind') == 'ReturnStmt': return True
            if s.get('kind') == 'LambdaExpr': return False
            if s.get('kind') == 'IfStmt':
                parts = [c for c in s['inner']]
                cc = self.const(parts[0]) if parts and parts[0] else None
                if cc is True: return has(parts[1])
                if cc is False: return len(parts) > 2 and has(parts[2])
            return any(has(c) for c in s.get('inner', []))
        for i, s in enumerate(stmts):
            if s.get('kind') == 'ReturnStmt' and i == len(stmts) - 1: return False
            if s.get('kind') == 'IfStmt':
                parts = s['inner']
                cc = self.const(parts[0]) if parts and parts[0] else None
                if cc is True and parts[1].get('kind') == 'CompoundStmt' and parts[1].get('inner') and parts[1]['inner'][-1].get('kind') == 'ReturnStmt':
                    return True
            if has(s): return True
        return False
    def ret_value(self, s, rty):
        if not s.get('inner'): return '()'
        e = s['inner'][0]
        if rty.get('self'):
            if self.lv(e) is not self.top_this: raise Unsupported('returned reference is not *this', s)
            return '()'
        if rty['ref']: return self.lv(e)
        if rty['ty'].k == 'bool' and False: pass
        v = self.rv(e)
        v = self.val(v)
        if isinstance(v, PV): return PV(v.reg, self.freeze(v.off, 'rv'))
        if isinstance(v, str) and v != '()': return self.freeze(v, 'rv')
        return v

    # ---------- contract calls ----------
    def call_contract(self, u, fn, thisobj, args, n):
        self.info['called'].add(u['name'])
        out = []
        post = []
        vals = []
        ps = self.ast.params(fn)
        for i, p in enumerate(ps):
            if i < len(args) and args[i].get('kind') != 'CXXDefaultArgExpr': vals.append(self.bind_param(p, args[i], n))
            elif [c for c in p.get('inner', []) if c.get('kind')]: vals.append(self.bind_param(p, p['inner'][-1], n))
            else: vals.append(self.default_arg(fn, i, n))
        vals = [self.freeze(v, 'arg') if isinstance(v, str) and v != 'NULL' else (PV(v.reg, self.freeze(v.off, 'arg')) if isinstance(v, PV) else v) for v in vals]
        places = {p['id']: v for p, v in zip(ps, vals)}
        if thisobj is not None: places['this'] = thisobj
        # the same object passed twice: the contract proved for that aliasing applies
        same = {}
        named = ([('this', thisobj, False)] if thisobj is not None else []) + [(p.get('name'), v, p['type']['qualType'].startswith('const ') or not p['type']['qualType'].endswith('&')) for p, v in zip(ps, vals)]
        for j, (nj, vj, cj) in enumerate(named):
            for ni, vi, ci in named[:j]:
                if isinstance(vi, Obj) and vi is vj and nj not in same and any(v is vi and not c for _, v, c in named): same[nj] = ni
        if same != u.get('alias', {}):
            w = [x for x in self.units.values() if x.get('fn_id') == fn['id'] and x is not self.unit and x.get('alias', {}) == same and 'sig' in x]
            if not w: raise Unsupported('no contract of %s covers a call where %s' % (u['name'], ', '.join('%s is %s' % x for x in same.items()) or 'the objects differ'), n)
            self.info['called'].discard(u['name']); u = w[0]; self.info['called'].add(u['name'])
        sig = u['sig']
        tmpback = []
        for who, path, kind, wty, pname in sig:
            if who == '#ghost':
                out.append('(%s)' % self.spec(self.unit.get('ghost_args', {}).get(u['name'], {}).get(path, '`%s`' % path)))
                continue
            src = places.get(self.sig_key(u, fn, who))
            if who == 'this': src = thisobj
            t = self.sig_get(src, path, n)
            if kind == 'val':
                out.append(self.par(t.read() if isinstance(t, Sc) else t))
            else:
                if isinstance(t, Sc) and t.mut:
                    if kind in u['written']: pass
                    out.append(t.term)
                    if pname in u['written']: t.written = True
                else:
                    tt = t.read() if isinstance(t, Sc) else t
                    nm = self.fresh('_tmp')
                    self.let(nm, 'ref (%s)' % tt)
                    out.append(nm)
                    if isinstance(t, Elem): pass
        wr, rd = [], []
        for who, path, kind, wty, pname in sig:
            if who == '#ghost': continue
            t = self.sig_get(places.get(self.sig_key(u, fn, who)) if who != 'this' else thisobj, path, n)
            if isinstance(t, Sc) and t.mut: (wr if pname in u['written'] else rd).append(t)
        for i, t in enumerate(wr):
            if any(t is x for x in wr[:i] + rd): raise Unsupported('%s is called with overlapping arguments (%s)' % (u['name'], t.term), n)
        # shared regions: the callee may change them only inside this thread's footprint
        frames = []
        if self.omp is not None:
            for who, path, kind, wty, pname in sig:
                if who == '#ghost' or pname not in u['written']: continue
                src = places.get(self.sig_key(u, fn, who)) if who != 'this' else thisobj
                t = self.sig_get(src, path, n)
                if not isinstance(t, Sc): continue
                if path and path[-1].startswith('#map:'):
                    r = self.sig_get(src, path[:-1], n)
                    r = r.reg if isinstance(r, (PV, Ptr, Vec)) else r
                    own = self.omp['own'].get(id(r))
                    if own == 'ro': raise Unsupported('%s writes a region that is read-only in this parallel phase' % u['name'], n)
                    if own is None: self.outer_write(r, n); continue
                    b = self.fresh('_before'); self.let(b, t.read())
                    frames.append((t, b, own, r.name))
                elif self.omp.get('outer') is not None and id(t) in self.omp['outer'] and id(t) not in self.omp['red']:
                    raise Unsupported('data race: %s writes the shared scalar %s' % (u['name'], t.term), n)
        call = '%s %s' % (u['why'], ' '.join(out) if out else '()')
        rt = u['rty']
        def after():
            for t, b, own, nm in frames:
                self.asrt('thread footprint of %s across the call of %s' % (nm, u['name']), 'forall i. not (%s <= i < %s) -> %s[i] = %s[i]' % (own[0], own[1], t.read(), b), n)
        if rt['ty'].k == 'void':
            self.emit(call); after(); return '()'
        if frames: raise Unsupported('result of a call that writes shared arrays', n)
        if rt['ty'].k == 'tuple':
            ns = [self.fresh('_tr') for _ in rt['ty'].a]
            self.raw('let (%s) = %s in' % (', '.join(ns), call))
            return Tup(ns)
        if rt['ty'].k == 'ptr':
            t = self.fresh('_cr'); self.let(t, call)
            reg = self.sig_get(places.get(self.sig_key(u, fn, u['ret_region'][0])) if u['ret_region'][0] != 'this' else thisobj, u['ret_region'][1], n)
            return PV(reg, t)
        t = self.fresh('_cr')
        self.let(t, call)
        return t
    def par(self, t): return t if re.fullmatch(r'[A-Za-z_0-9]+|\(.*\)', t) and (not t.startswith('(') or self.balanced(t)) else '(%s)' % t
    @staticmethod
    def balanced(t):
        d = 0
        for i, c in enumerate(t):
            if c == '(': d += 1
            if c == ')':
                d -= 1
                if d == 0 and i != len(t) - 1: return False
        return True
    def sig_key(self, u, fn, who):
        if who == 'this': return 'this'
        return self.ast.params(fn)[who]['id']
    def sig_get(self, src, path, n):
        p = src
        for q in path:
            if isinstance(p, Obj):
                p = p.fields[q] if not q.startswith('#') else p
            if q == '#off':
                if isinstance(p, PV): return p.off
                if isinstance(p, Ptr): return p.off
                raise Unsupported('argument %r' % (p,), n)
            if q.startswith('#map:'):
                r = p.reg if isinstance(p, (PV, Ptr, Vec)) else p
                return r.maps[q[5:]]
            if q == '#len':
                r = p.reg if isinstance(p, (PV, Ptr, Vec)) else p
                return r.len
            if q == '#live':
                r = p.reg if isinstance(p, (PV, Ptr, Vec)) else p
                return r.live
        if isinstance(p, Elem): return self.load(p, n) if p.path in p.reg.maps else p
        return p

    # ---------- statements ----------
    def stmt(self, s):
        if not s: return
        k = s.get('kind')
        if k is None: return
        if self.omp is not None and 'sp' in self.omp and not self.omp.get('in_master') and self.omp['sp'].get('master', {}).get(self.omp['phase']) and k not in ('OMPMasterDirective', 'OMPBarrierDirective', 'NullStmt'):
            raise Unsupported('code beside the master block between two barriers', s)
        m = getattr(self, 'st_' + k, None)
        if m is not None: return m(s)
        if k.endswith('Expr') or k.endswith('Operator') or k == 'ExprWithCleanups' or k.endswith('Literal'):
            v = self.rv(s)
            return
        raise Unsupported('statement ' + k, s)
    def block(self, s):
        """statement -> composed WhyML block"""
        def go():
            self.scopes.append({})
            try: self.stmt(s)
            finally: self.scopes.pop()
        blk, _ = self.capture(go)
        return blk
    def st_CompoundStmt(self, s):
        self.scopes.append({})
        try:
            for c in s.get('inner', []): self.stmt(c)
        finally: self.scopes.pop()
    def st_NullStmt(self, s): pass
    def st_AttributedStmt(self, s):
        for c in s.get('inner', []):
            if c.get('kind', '').endswith('Stmt') or c.get('kind', '').endswith('Expr'): self.stmt(c)
    def st_GCCAsmStmt(self, s):
        self.info['drops'].add('asm statement')
        if any(self.effects(c) for c in s.get('inner', [])): raise Unsupported('asm with effects', s)
        if any(True for c in s.get('inner', [])): raise Unsupported('asm with operands', s)
    def st_DeclStmt(self, s):
        for d in s.get('inner', []):
            k = d.get('kind')
            if k == 'VarDecl': self.vardecl(d)
            elif k == 'DecompositionDecl': self.decomp(d)
            elif k in ('TypeAliasDecl', 'TypedefDecl'): ALIAS[-1] = dict(ALIAS[-1]); ALIAS[-1][d['name']] = qt(d)
            elif k in ('StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EmptyDecl'): pass
            else: raise Unsupported('declaration ' + str(k), d)
    def decl(self, d, place):
        self.env[d['id']] = place
        if d.get('name'): self.scopes[-1][d['name']] = place
    def decomp(self, d):
        init = None
        binds = []
        for c in d.get('inner', []):
            if c.get('kind') == 'BindingDecl': binds.append(c)
            elif init is None: init = c
        v = self.rv(init)
        if isinstance(v, Obj): v = Tup([self.load(f) for f in v.fields.values()])
        if not isinstance(v, Tup) or len(v.vals) != len(binds): raise Unsupported('structured binding', d)
        for b, x in zip(binds, v.vals):
            ty = Ty('int', 64, 1)
            o = self.fresh('_' + b['name'])
            self.let(o, x)
            pl = Sc(o, ty, mut=False)
            self.decl(b, pl)
            for c in b.get('inner', []):
                if c.get('kind') == 'VarDecl': self.env[c['id']] = pl
    def vardecl(self, d):
        t = d['type'].get('desugaredQualType', d['type']['qualType']).strip()
        qt0 = d['type']['qualType'].strip()
        ty = parse_ty(t)
        nm = d.get('name', '_')
        inner = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
        init = inner[-1] if inner and 'init' in d else (inner[-1] if inner else None)
        if (t.endswith('&') or qt0.endswith('&')) and init is not None:
            e = init
            pl = self.lv(e)
            if isinstance(pl, str): pl = Sc(self.freeze(pl, nm), ty, mut=False)
            if isinstance(pl, PV): pl = Ptr(pl.reg, Sc(self.freeze(pl.off, nm), Ty('int', 64, 1), mut=False))
            self.decl(d, pl); return
        if ty.k == 'ptr':
            if init is not None and init.get('kind') == 'CXXConstructExpr' and not init.get('inner'): init = None
            if init is None:
                o = self.fresh('_' + nm)
                self.let(o, 'ref (any int)')
                self.decl(d, Ptr(None, Sc(o, Ty('int', 64, 1)), ty=ty)); return
            v = self.val(self.rv(init), d)
            if v == 'NULL' :
                o = self.fresh('_' + nm); self.let(o, 'ref 0')
                self.decl(d, Ptr(None, Sc(o, Ty('int', 64, 1)), ty=ty)); return
            if isinstance(v, AddrOf): self.decl(d, v); return
            if isinstance(v, tuple): v = self.bitcast(v, ty, d)
            if not isinstance(v, PV): raise Unsupported('pointer initialiser', d)
            o = self.fresh('_' + nm)
            if getattr(v.reg, 'anon', True) and v.reg.name == 'heap': v.reg.name = nm
            cst = d['type']['qualType'].rstrip().endswith('const')
            if cst:
                self.let(o, v.off); pl = Ptr(v.reg, Sc(o, Ty('int', 64, 1), mut=False))
            else:
                self.let(o, 'ref (%s)' % v.off); pl = Ptr(v.reg, Sc(o, Ty('int', 64, 1)))
            self.decl(d, pl); return
        if ty.k in ('int', 'bool', 'nt'):
            o = self.fresh('_' + nm)
            if init is None:
                self.let(o, 'ref (any %s)' % WT[ty.k])
                self.decl(d, Sc(o, ty)); return
            c = self.const(init)
            if c is not None and ty.const:
                self.decl(d, Sc(('true' if c else 'false') if ty.k == 'bool' else mklit(int(c)), ty, mut=False)); return
            v = self.val(self.rv(init), d)
            if not isinstance(v, str): raise Unsupported('initialiser of %s: %r' % (nm, v), d)
            if ty.const:
                self.let(o, v); self.decl(d, Sc(o, ty, mut=False)); return
            self.let(o, 'ref (%s)' % v)
            self.decl(d, Sc(o, ty)); return
        if ty.k == 'vec':
            r = self.new_region_local(nm, ty.a, '0')
            ce = init
            while ce is not None and ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): ce = ce['inner'][-1]
            ar = [x for x in (ce or {}).get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']
            if len(ar) == 1 and parse_ty(qt(ar[0])).k == 'int':      # n value-initialised elements
                nn = self.freeze(self.val(self.rv(ar[0]), d), 'n')
                self.asrt('vector size is not negative', '%s >= 0' % nn, d)
                r.len.written = True; self.emit('%s := %s' % (r.len.term, nn))
                for kk, sc in r.maps.items():
                    sc.written = True
                    self.emit('std_fill %s 0 %s %s' % (sc.term, nn, {'int': '0', 'bool': 'false', 'nt': 'nt_zero'}[sc.ty.k] if getattr(sc, 'ty', None) is not None and sc.ty.k in ('int', 'bool', 'nt') else '0'))
            elif ar: raise Unsupported('vector constructor with arguments', d)
            self.decl(d, Vec(r)); return
        if ty.k == 'rec':
            c = self.find_class(ty.a)
            if c is not None and c.get('name') in ('Mul', 'Add'): self.decl(d, Functor(c['name'])); return
            if init is not None and init.get('kind') in ('CXXConstructExpr', 'ExprWithCleanups', 'InitListExpr'):
                ce = init
                while ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): ce = ce['inner'][-1]
                if ce.get('kind') == 'CXXConstructExpr':
                    o = self.new_obj_local(nm, ty.a)
                    self.decl(d, o)
                    self.ctor(o, c, ce, d); self.local_dtor(o, c, d); return
                if ce.get('kind') == 'InitListExpr':
                    o = self.new_obj_local(nm, ty.a)
                    for f, e in zip(list(o.fields), ce.get('inner', [])): self.store(o.fields[f], self.val(self.rv(e)), d)
                    self.decl(d, o); return
            if init is None:
                o = self.new_obj_local(nm, ty.a); self.decl(d, o); return
            v = self.rv(init)
            o = self.new_obj_local(nm, ty.a)
            self.store(o, v, d)
            self.decl(d, o); return
        if ty.k == 'tuple':
            v = self.rv(init); self.decl(d, v); return
        raise Unsupported('local of type ' + t, d)
    def local_dtor(self, o, c, d):
        """o is a local object: its destructor, when the class declares one, runs when the function ends"""
        dt = [x for x in c.get('inner', []) if x.get('kind') == 'CXXDestructorDecl' and not x.get('isImplicit')] if c is not None else []
        if not dt: return
        for f in o.fields.values():
            if isinstance(f, Ptr) and f.owner: f.reg.localobj = True
        if self.inl_depth or self.loopstack or self.omp is not None or len(self.scopes) != 2: raise Unsupported('local object with a destructor in an inner scope', d)
        self.dtors.append((o, dt[0]))
    def ctor(self, o, c, ce, node):
        """run the constructor selected by CXXConstructExpr ce on object o"""
        args = ce.get('inner', [])
        if c is None: raise Unsupported('constructor of external class', node)
        want = ce.get('ctorType', {}).get('qualType')
        cands = []
        def allctors(c):
            for d in c.get('inner', []):
                if d.get('kind') == 'CXXConstructorDecl': yield d
                if d.get('kind') == 'FunctionTemplateDecl':
                    for e in d.get('inner', []):
                        if e.get('kind') == 'CXXConstructorDecl': yield e
        for d in allctors(c):
            if want and d['type']['qualType'] == want: cands.append(d)
        if not cands:
            cands = [d for d in allctors(c) if len(self.ast.params(d)) == len(args) and not d.get('isImplicit')]
        if not cands: 
            if not args: return
            raise Unsupported('constructor', node)
        d = cands[0]
        self.run_ctor(o, c, d, args, node)
    def run_ctor(self, o, c, d, args, node):
        fn = self.ast.definition(d['id'])
        if fn is None:
            if not args: return   # implicit default constructor
            # implicit copy
            if len(args) == 1: self.store(o, self.rv(args[0]), node); return
            raise Unsupported('constructor without a body', node)
        ps = self.ast.params(fn)
        vals = []
        for i, p in enumerate(ps):
            if i < len(args) and args[i].get('kind') != 'CXXDefaultArgExpr': vals.append(self.bind_param(p, args[i], node))
            else: vals.append(self.default_arg(fn, i, node))
        vals = [self.freeze(v, 'arg') if isinstance(v, str) and v != 'NULL' else (PV(v.reg, self.freeze(v.off, 'arg')) if isinstance(v, PV) else v) for v in vals]
        saved, self.this = self.this, o
        scope = {}
        self.scopes.append(scope)
        for p, v in zip(ps, vals):
            pl = self.bind_value(p, v); self.env[p['id']] = pl
            if p.get('name'): scope[p['name']] = pl
        self.inl_depth += 1
        ALIAS.append(self.class_alias(c))
        self.info['inlined'].add(fn.get('name') + ' (constructor)')
        try:
            for ini in fn.get('inner', []):
                if ini.get('kind') != 'CXXCtorInitializer': continue
                e = ini['inner'][0] if ini.get('inner') else None
                if 'anyInit' in ini:
                    fnm = ini['anyInit']['name']
                    f = o.fields.get(fnm)
                    if isinstance(f, Obj):
                        ce = e
                        while ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): ce = ce['inner'][-1]
                        ft = [t for n_, t, _ in self.class_fields(c) if n_ == fnm][0]
                        self.ctor(f, self.find_class(ft.a), ce, node)
                    elif isinstance(f, Vec):
                        self.store(f.reg.len, '0')
                    elif isinstance(f, Ptr):
                        if e.get('kind') == 'InitListExpr': e = e['inner'][0]
                        self.store(f, self.val(self.rv(e)), node)
                    elif f is None: pass
                    else:
                        if e.get('kind') == 'InitListExpr': e = e['inner'][0]
                        self.store(f, self.val(self.rv(e)), node)
                elif 'baseInit' in ini:
                    bt = ini['baseInit'].get('desugaredQualType', ini['baseInit']['qualType'])
                    bc = self.find_class(bt)
                    ce = e
                    while ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): ce = ce['inner'][-1]
                    self.ctor(o, bc, ce, node)
            if self.early_returns(fn): raise Unsupported('return in constructor', node)
            for s in self.ast.body(fn).get('inner', []): self.stmt(s)
        finally:
            self.inl_depth -= 1
            ALIAS.pop()
            self.scopes.pop(); self.this = saved

    def st_IfStmt(self, s):
        inner = list(s['inner'])
        if s.get('hasInit') or s.get('hasVar'):
            self.stmt(inner[0]); inner = inner[1:]
        cc = self.const(inner[0])
        if cc is not None:
            if cc: self.stmt(inner[1])
            elif len(inner) > 2: self.stmt(inner[2])
            return
        c = self.val(self.rv(inner[0]), s)
        if c.strip('()') == 'true': self.stmt(inner[1]); return
        if c.strip('()') == 'false':
            if len(inner) > 2: self.stmt(inner[2])
            return
        b1 = self.block(inner[1])
        b2 = self.block(inner[2]) if len(inner) > 2 else []
        if not b1 and not b2: return
        self.emit('if %s then %s else %s' % (c, self.compose(b1), self.compose(b2)))
    def find_cont(self, s, kinds=('ContinueStmt',)):
        if not isinstance(s, dict) or not s: return False
        if s.get('kind') in kinds: return True
        if s.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr'): return False
        if s.get('kind') == 'IfStmt':
            cc = self.const(s['inner'][0]) if s['inner'][0] else None
            if cc is True: return self.find_cont(s['inner'][1], kinds)
            if cc is False: return len(s['inner']) > 2 and self.find_cont(s['inner'][2], kinds)
        return any(self.find_cont(c, kinds) for c in s.get('inner', []))
    def loop_spec(self, s, auto=None):
        fnm = self.rets[-1]['fn'].get('name') if self.rets else self.unit['name']
        dflt = DEFAULT_LOOPS.get(fnm)
        if dflt is not None and fnm == 'my_malloc' and self.unit.get('zeroed'):
            z = 'nt_zero' if qt(self.rets[-1]['fn']).startswith('double') else '0'
            dflt = dict(dflt, inv=dflt['inv'] + ['forall q. 0 <= q < `i` -> `a`[q] = ' + z])
        if dflt is not None: return dflt, 'D%d' % self.cnt.setdefault('#dl', 0)
        i = self.loopno
        self.loopno += 1
        if i >= len(self.loops): raise Unsupported('loop %d of %s has no invariant' % (i, self.unit['name']), s)
        return self.loops[i], 'L%d' % i
    def loop(self, s, cond, inc, body, extra_inv=(), extra_var=None, pre_body=None, cond_first=True):
        sp, lab = self.loop_spec(s)
        self.info['loops'] += 1
        for g in sp.get('pre', ()): self.gh(g)
        if lab[0] == 'L': self.raw('label %s in' % lab)
        need_exc = inc is not None and self.find_cont(body)
        excn = None
        if need_exc:
            excn = 'Cont%d' % self.cnt.setdefault('#c', 0); self.cnt['#c'] += 1
        self.loopstack.append(excn)
        def go():
            if cond is not None and cond_first:
                c = cond()
                if c != 'true': self.emit('if not (%s) then break' % c)
            if pre_body: pre_body()
            def b():
                self.scopes.append({})
                for g in sp.get('begin', ()): self.gh(g)
                self.stmt(body)
                for g in sp.get('end', ()): self.gh(g)
                self.scopes.pop()
            blk, _ = self.capture(b)
            t = self.compose(blk)
            if need_exc: self.emit('(exception %s in try %s with %s -> () end)' % (excn, t, excn))
            else: self.emit(t)
            if inc is not None: inc()
            if cond is not None and not cond_first:
                c = cond()
                self.emit('if not (%s) then break' % c)
        invs = [self.spec(x) for x in sp.get('inv', [])]
        var = sp.get('var')
        blk, _ = self.capture(go)
        self.loopstack.pop()
        hdr = 'while true do\n'
        btxt = self.compose(blk)
        # container sizes changed by the loop stay non-negative
        auto = ['0 <= !%s' % v for v in sorted(set(re.findall(r'\b(\w+_len) :=', btxt))) if 'let %s = ref' % v not in btxt]
        for i, x in enumerate(auto): hdr += '  invariant { [@expl:loop invariant %s.size%d] %s }\n' % (lab, i, x)
        for i, x in enumerate(list(extra_inv) + invs): hdr += '  invariant { [@expl:loop invariant %s.%d] %s }\n' % (lab, i, x)
        v = self.spec(var) if var else extra_var
        if v is None: raise Unsupported('loop %s has no variant' % lab, s)
        hdr += '  variant { %s }\n' % v
        self.emit(hdr + btxt + ' done')
        for g in sp.get('after', ()): self.gh(g)
    def st_ForStmt(self, s):
        init, cv, cond, inc, body = (s['inner'] + [{}] * 5)[:5]
        self.scopes.append({})
        try:
            if init: self.stmt(init)
            self.loop(s, (lambda: self.val(self.rv(cond), s)) if cond else (lambda: 'true'),
                      (lambda: self.stmt(inc)) if inc else None, body)
        finally: self.scopes.pop()
    def st_WhileStmt(self, s):
        inner = s['inner']
        cond, body = inner[-2], inner[-1]
        self.loop(s, lambda: self.val(self.rv(cond), s), None, body)
    def st_DoStmt(self, s):
        body, cond = s['inner'][0], s['inner'][1]
        c = self.const(cond)
        if c is not None and not c and not self.find_cont(body, ('ContinueStmt', 'BreakStmt')):
            self.stmt(body); return
        if self.find_cont(body): raise Unsupported('continue in do-while', s)
        self.loop(s, lambda: self.val(self.rv(cond), s), None, body, cond_first=False)
    def st_CXXForRangeStmt(self, s):
        # inner: [init, range decl, begin, end, cond, inc, loopvar decl, body]
        inner = s['inner']
        body = inner[-1]; lvd = inner[-2]; rng = inner[1]
        rd = rng['inner'][0]
        v = self.lv([c for c in rd['inner'] if c.get('kind')][-1])
        if not isinstance(v, Vec): raise Unsupported('range-for over %r' % (v,), s)
        var = lvd['inner'][0]
        idx = self.fresh('_' + var['name'] + '_i')
        self.let(idx, 'ref 0')
        isc = Sc(idx, Ty('int', 64, 0))
        self.scopes.append({var['name'] + '_i': isc, 'ridx': isc})
        def pre():
            t = var['type']['qualType']
            el = Elem(v.reg, self.freeze('!' + idx, 'i'))
            if t.rstrip().endswith('&'): self.decl(var, el)
            else:
                x = self.load(el, s)
                o = self.fresh('_' + var['name'])
                self.let(o, x); self.decl(var, Sc(o, v.reg.elem, mut=False))
        def inc(): self.emit('%s := !%s + 1' % (idx, idx))
        self.loop(s, lambda: '!%s <> %s' % (idx, v.reg.len.read()), inc, body,
                  extra_inv=['0 <= !%s <= %s' % (idx, v.reg.len.read())], extra_var='%s - !%s' % (v.reg.len.read(), idx), pre_body=pre)
        self.scopes.pop()
    def st_BreakStmt(self, s): self.emit('break')
    def st_ContinueStmt(self, s):
        e = self.loopstack[-1]
        self.emit('raise %s' % e if e else 'continue')
    def st_ReturnStmt(self, s):
        r = self.rets[-1]
        v = self.ret_value(s, r['rty'])
        if r['top']if 'top' in r else False:
            self.emit('return %s' % self.pack(v, r['rty'])); return
        if r['exc'] is None: r['exc'] = self.next_exc
        if isinstance(v, PV): r['places'].append(v); self.emit('raise (%s %s)' % (r['exc'], self.par(v.off)))
        elif v == '()': self.emit('raise %s' % r['exc'])
        elif isinstance(v, str): self.emit('raise (%s %s)' % (r['exc'], self.par(v)))
        elif isinstance(v, Sc): self.emit('raise (%s %s)' % (r['exc'], self.par(v.read())))
        else: raise Unsupported('return of %r' % (v,), s)
    def pack(self, v, rty):
        v = self.val(v)
        if isinstance(v, Tup): return '(' + ', '.join(v.vals) + ')'
        if isinstance(v, PV): return self.par(v.off)
        if v is None: return '()'
        return v if v == '()' else self.par(v)
    def st_SwitchStmt(self, s):
        inner = [c for c in s['inner'] if c]
        cond, body = inner[0], inner[-1]
        c = self.const(cond)
        if c is None: raise Unsupported('switch on a run-time value', s)
        # flatten the case labels
        items = []   # (labels, stmt)
        labels = []
        def flat(x, labels):
            if x.get('kind') == 'CaseStmt':
                v = self.const(x['inner'][0])
                return flat(x['inner'][-1], labels + [v])
            if x.get('kind') == 'DefaultStmt': return flat(x['inner'][-1], labels + ['default'])
            return labels, x
        for x in body.get('inner', []): items.append(flat(x, []))
        start = None
        for i, (ls, _) in enumerate(items):
            if c in [l for l in ls if l != 'default']: start = i; break
        if start is None:
            for i, (ls, _) in enumerate(items):
                if 'default' in ls: start = i; break
        if start is None: return
        for ls, x in items[start:]:
            if x.get('kind') == 'BreakStmt': return
            if x.get('kind') == 'CompoundStmt' and x.get('inner') and x['inner'][-1].get('kind') == 'BreakStmt':
                if any(self.find_cont(y, ('BreakStmt',)) for y in x['inner'][:-1]): raise Unsupported('break inside switch case', s)
                self.scopes.append({})
                for y in x['inner'][:-1]: self.stmt(y)
                self.scopes.pop()
                return
            if self.find_cont(x, ('BreakStmt',)): raise Unsupported('break inside switch case', s)
            self.stmt(x)

    # ---------- OpenMP ----------
    def omp_body(self, s):
        for c in s['inner']:
            if c.get('kind') == 'CapturedStmt':
                for d in c['inner']:
                    if d.get('kind') == 'CapturedDecl':
                        for e in d['inner']:
                            if e.get('kind') in ('CompoundStmt', 'ForStmt') or e.get('kind', '').endswith('Stmt') or e.get('kind', '').startswith('OMP') or e.get('kind', '').endswith(('Operator', 'Expr')): return e
        raise Unsupported('OpenMP construct without body', s)
    def clauses(self, s):
        return [c for c in s['inner'] if c.get('kind') not in ('CapturedStmt',)]
    def pragma_text(self, s):
        try:
            b = s['range']['begin']; e = s['range']['end']
            b = b.get('expansionLoc', b)
            f = s['_file']
            txt = self.ast.src.setdefault(f, open(f).read())
            # from offset to end of line with continuations
            off = b['offset']
            j = txt.find('\n', off)
            while j > 0 and txt[j - 1] == '\\': j = txt.find('\n', j + 1)
            return txt[off:j]
        except Exception: return ''
    def st_OMPParallelForDirective(self, s):
        txt = self.pragma_text(s)
        body = self.omp_body(s)
        red = set()
        m = re.search(r'reduction\s*\(\s*\+\s*:\s*([A-Za-z_0-9, ]+)\)', txt)
        names = [x.strip() for x in m.group(1).split(',')] if m else []
        for c in self.clauses(s):
            for e in c.get('inner', []):
                if e.get('kind') == 'DeclRefExpr' and e['referencedDecl'].get('name') in names: red.add(id(self.lv(e)))
            if 'inner' in c:
                for e in c['inner']:
                    if e.get('kind') != 'DeclRefExpr' and e.get('kind'): pass
        saved = self.omp
        outer = set()
        for p in self.all_places():
            if isinstance(p, Sc) and p.mut: outer.add(id(p))
        # written shared regions: only through the loop index
        if body.get('kind') != 'ForStmt': raise Unsupported('parallel for', s)
        wr = self.regions_written(body)
        init = body['inner'][0]
        lv = init['inner'][0]
        self.omp = {'own': {}, 'outer': outer, 'red': red, 'pfor': True, 'outer_regs': self.region_ids()}
        if saved:
            self.omp['tid'] = saved.get('tid')
            self.omp['outer_regs'] |= saved.get('outer_regs', set())
        try:
            ini, cv, cond, inc, bd = (body['inner'] + [{}] * 5)[:5]
            self.scopes.append({})
            self.stmt(ini)
            lp = self.env[lv['id']]
            self.omp['outer'].discard(id(lp))
            for r in wr:
                self.omp['own'][id(r)] = (lp.read(), '%s + 1' % lp.read())
            sp = self.loops[self.loopno] if self.loopno < len(self.loops) and not (self.rets and self.rets[-1]['fn'].get('name') in DEFAULT_LOOPS) else {}
            pre = None
            if sp.get('foot'):
                # declared footprints: those of different iterations must not overlap
                dom = sp['foot_dom']
                rng = lambda v: '%s <= %s < %s' % (self.spec(dom[0]), v, self.spec(dom[1]))
                sub = lambda t, i, x='0': self.spec(t.replace('@I', i).replace('@X', x))
                for path, ft in sp['foot'].items():
                    r = self.lookup_region(path)
                    if isinstance(ft, tuple):
                        self.asrt('footprints of different iterations are disjoint: %s' % path, 'forall i1 i2. %s -> %s -> i1 < i2 -> %s <= %s \\/ %s <= %s' % (rng('i1'), rng('i2'), sub(ft[1], 'i1'), sub(ft[0], 'i2'), sub(ft[1], 'i2'), sub(ft[0], 'i1')), s)
                        self.omp['own'][id(r)] = ('(%s)' % sub(ft[0], lp.read()), '(%s)' % sub(ft[1], lp.read()))
                    else:
                        self.asrt('footprints of different iterations are disjoint: %s' % path, 'forall i1 i2 x. %s -> %s -> i1 <> i2 -> not (%s /\\ %s)' % (rng('i1'), rng('i2'), sub(ft, 'i1', 'x'), sub(ft, 'i2', 'x')), s)
                        self.omp['own'][id(r)] = ('pred', lambda idx, ft=ft: sub(ft, lp.read(), idx))
                pre = lambda: self.asrt('iteration in the domain of the footprints', rng(lp.read()), s)
            if saved:
                for kk, vv in saved['own'].items(): self.omp['own'].setdefault(kk, vv)
            self.loop(body, lambda: self.val(self.rv(cond), s), lambda: self.stmt(inc), bd, pre_body=pre)
        finally:
            self.scopes.pop()
            self.omp = saved
    def all_places(self):
        seen = set()
        def go(p):
            if id(p) in seen: return
            seen.add(id(p))
            yield p
            if isinstance(p, Obj):
                for f in p.fields.values(): yield from go(f)
            if isinstance(p, Ptr):
                yield from go(p.off)
        for p in list(self.env.values()): yield from go(p)
        if self.this is not None: yield from go(self.this)
    def regions_written(self, n):
        """regions syntactically assigned through a subscript of a named pointer in n"""
        out = []
        def base(e):
            while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): e = e['inner'][0]
            if e.get('kind') == 'DeclRefExpr':
                p = self.env.get(e['referencedDecl']['id'])
                if isinstance(p, Ptr) and p.reg is not None: return p.reg
                if isinstance(p, Vec): return p.reg
            if e.get('kind') == 'MemberExpr':
                try: p = self.lv(e)
                except Unsupported: return None
                if isinstance(p, Ptr): return p.reg
            return None
        def go(x):
            if not isinstance(x, dict): return
            k = x.get('kind')
            tgt = None
            if k == 'BinaryOperator' and x['opcode'] == '=' or k == 'CompoundAssignOperator': tgt = x['inner'][0]
            if k == 'UnaryOperator' and x['opcode'] in ('++', '--'): tgt = x['inner'][0]
            if tgt is not None:
                while tgt.get('kind') in ('ParenExpr',): tgt = tgt['inner'][0]
                while tgt.get('kind') == 'MemberExpr' and tgt['inner'][0].get('kind') == 'ArraySubscriptExpr': tgt = tgt['inner'][0]
                if tgt.get('kind') == 'ArraySubscriptExpr':
                    r = base(tgt['inner'][0])
                    if r is not None and r not in out: out.append(r)
            for c in x.get('inner', []): go(c)
        go(n)
        return out
    def st_OMPParallelDirective(self, s):
        body = self.omp_body(s)
        sp = self.unit.get('parallel')
        if isinstance(sp, list):
            i = self.cnt.setdefault('#par', 0); self.cnt['#par'] += 1
            if i >= len(sp): raise Unsupported('parallel region without a contract', s)
            sp = sp[i]
        if sp is None: raise Unsupported('parallel region without a contract', s)
        if sp.get('team'):      # { x = omp_get_num_threads(); } : every thread stores the size of the team
            st = body.get('inner', []) if body.get('kind') == 'CompoundStmt' else [body]
            e = st[0] if len(st) == 1 else {}
            if e.get('kind') == 'OMPSingleDirective':
                e = [c for c in e['inner'] if c.get('kind')]
                e = self.omp_body({'inner': e, 'kind': 'OMPSingleDirective'}) if e and e[-1].get('kind') == 'CapturedStmt' else (e[-1] if e else {})
                if e.get('kind') == 'CompoundStmt' and len(e.get('inner', [])) == 1: e = e['inner'][0]
            if e.get('kind') != 'BinaryOperator' or e['opcode'] != '=': raise Unsupported('parallel region that does more than read the team size', s)
            r = e['inner'][1]
            while r.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): r = r['inner'][0]
            if r.get('kind') != 'CallExpr' or self.callee_name(r) != 'omp_get_num_threads': raise Unsupported('parallel region that does more than read the team size', s)
            self.store(self.lv(e['inner'][0]), '(some_team_size ())', s)
            self.info.setdefault('assumed', set()).add('a parallel region without num_threads is entered by the team size that omp_get_num_threads reported, at most 65536')
            return
        nt = self.spec(sp['nthreads'])
        # the clause really asks for that many threads
        got = None
        for c in self.clauses(s):
            for e in c.get('inner', []):
                if e.get('kind') and e.get('kind') != 'DeclRefExpr' and parse_ty(qt(e)).k == 'int': got = self.val(self.rv(e), s)
        ntv = self.fresh('_nthreads')
        self.let(ntv, nt)
        if got is None and sp.get('default_team'): got = ntv
        if got is None: raise Unsupported('parallel region without num_threads', s)
        self.asrt('the region is entered by the intended number of threads', '%s = %s /\\ 1 <= %s' % (got, ntv, ntv), s)
        self.raw('label Par in')
        saved = self.omp
        outer = set(id(p) for p in self.all_places() if isinstance(p, Sc) and p.mut)
        tid = self.fresh('_tid')
        shared = {k: self.lookup_region(k) for k in sp['shared']}
        self.omp = {'tid': tid, 'own': {}, 'outer': outer, 'outer_regs': self.region_ids(), 'red': set(), 'phase': 0, 'sp': sp, 'shared': shared, 'nt': ntv, 'env0': set(self.env)}
        def go():
            self.let(tid, '(some_thread %s)' % ntv)
            self.scopes.append({'tid': Sc(tid, Ty('int', 32, 1), mut=False), 'nthreads': Sc(ntv, Ty('int', 32, 1), mut=False)})
            try:
                self.omp['scopes'] = list(self.scopes)
                for g in sp.get('begin', ()): self.gh(g)
                self.omp_enter_phase()
                self.stmt(body)
                self.omp_end_phase(s)
            finally: self.scopes.pop()
        blk, _ = self.capture(go)
        # after the region: shared state is havocked, every thread's final guarantee holds
        self.omp = saved
        allt = self.compose(blk, '()')
        self.emit('(if any bool then begin\n%s;\nassume { [@expl:end of the thread-local check] false } end)' % allt if False else
                  'begin\n%s\nend' % ('if (any bool) then begin ' + allt + '; absurd_thread_end () end'))
        for sc in self.master_places(sp)[0]:
            if sc.mut: sc.written = True; self.emit('%s := any %s' % (sc.term, 'int' if sc.ty is None else ('map int %s' % WT[sc.ty.k] if self.is_map(sc) else WT[sc.ty.k])))
        self.havoc_shared(shared, self.merge_own(sp, s), ntv)
        for g in sp['post']:
            self.every_thread(g, ntv)
        for g in sp.get('after', []): self.gh(g)
        for g in sp.get('post_master', []):
            self.emit('assume { %s }' % self.spec(g))
    def is_map(self, sc):
        for p in self.all_places():
            if isinstance(p, (Ptr, Vec)) and p.reg is not None and any(m is sc for m in p.reg.maps.values()): return True
        return False
    def merge_own(self, sp, s):
        # after the region: what any phase may have written
        out = {}
        for own in sp['own']:
            for k, v in own.items():
                if v == 'ro': continue
                if k in out and out[k] != v: raise Unsupported('footprint of %s differs between phases' % k, s)
                out[k] = v
        return out
    def lookup_region(self, path):
        parts = path.split('.')
        p = self.lookup(parts[0])
        for q in parts[1:]:
            if isinstance(p, Obj): p = p.fields[q]
        if isinstance(p, (Ptr, Vec)): return p.reg
        raise Unsupported('shared region ' + path)
    def spec_tid(self, g, tid):
        self.scopes.append({'tid': Sc(tid, Ty('int', 32, 1), mut=False)})
        try: return self.spec(g)
        finally: self.scopes.pop()
    def havoc_shared(self, shared, own, nt, mine=None):
        """the other threads' writes: only to regions owned in the phase that ends, and only inside their footprints"""
        for k, r in shared.items():
            v = own.get(k, 'ro')
            if v == 'ro': continue
            for sc in r.maps.values():
                sc.written = True
                o = self.fresh('_before'); self.let(o, sc.read())
                nm = self.fresh('_after')
                self.let(nm, 'any (map int %s)' % WT[sc.ty.k])
                self.emit('%s := %s' % (sc.term, nm))
                self.emit('assume { [@expl:frame of the parallel phase] forall i [%s[i]]. (forall t. 0 <= t < %s -> not (%s <= i < %s)) -> %s[i] = %s[i] }' %
                          (nm, nt, self.spec_tid(v[0], 't'), self.spec_tid(v[1], 't'), nm, o))
                if mine is not None:
                    lo, hi = mine[id(r)]
                    self.emit('assume { [@expl:frame of the parallel phase] forall i. %s <= i < %s -> %s[i] = %s[i] }' % (lo, hi, sc.read(), o))
    def omp_enter_phase(self):
        o = self.omp; sp = o['sp']; ph = o['phase']
        o['own'] = {}
        own = sp['own'][ph]
        for k, r in o['shared'].items():
            v = own.get(k, 'ro')
            if v == 'ro': o['own'][id(r)] = 'ro'
            else: o['own'][id(r)] = ('(%s)' % self.spec_lazy(v[0]), '(%s)' % self.spec_lazy(v[1]))
        # footprints of different threads do not overlap
        for k, v in own.items():
            if v == 'ro': continue
            self.asrt('footprints of different threads are disjoint: %s' % k,
                      'forall t u. 0 <= t < u < %s -> (%s <= %s)' % (o['nt'], self.spec_tid(v[1], 't'), self.spec_tid(v[0], 'u')))
    def spec_lazy(self, v):
        # footprints are stated over what is in scope where the region starts
        saved, self.scopes = self.scopes, self.omp['scopes']
        try: return self.spec(v)
        finally: self.scopes = saved
    def every_thread(self, g, nt):
        # there is at least one thread: a guarantee that does not mention the thread holds as it is
        if '`tid`' in g: self.emit('assume { [@expl:guarantee of every thread] forall tid. 0 <= tid < %s -> %s }' % (nt, self.spec_tid(g, 'tid')))
        else: self.emit('assume { [@expl:guarantee of every thread] %s }' % self.spec(g))
    def omp_end_phase(self, s):
        o = self.omp; sp = o['sp']; ph = o['phase']
        self.havoc_shared(o['shared'], sp['own'][ph], o['nt'], o['own'])
        for g in sp['guar'][ph] if 'guar' in sp and ph < len(sp['guar']) - 1 else sp['post']:
            self.asrt('guarantee of this thread at the end of phase %d' % ph, self.spec(g), s)
    def st_OMPBarrierDirective(self, s):
        o = self.omp
        if o is None or 'sp' not in o: raise Unsupported('barrier outside a verified region', s)
        sp = o['sp']; ph = o['phase']
        if sp.get('master_between') == ph: pass
        self.havoc_shared(o['shared'], sp['own'][ph], o['nt'], o['own'])
        for g in sp['guar'][ph]:
            self.asrt('guarantee of this thread at barrier %d' % ph, self.spec(g), s)
        for g in sp['guar'][ph]:
            self.every_thread(g, o['nt'])
        for g in sp.get('hint', {}).get(ph, []): self.gh(g)
        o['phase'] += 1
        self.omp_enter_phase()
    def st_OMPMasterDirective(self, s):
        o = self.omp
        if o is None or 'sp' not in o: raise Unsupported('master outside a verified region', s)
        sp = o['sp']; ph = o['phase']
        if not sp.get('master', {}).get(ph): raise Unsupported('master block not between barriers', s)
        # executed by one thread while the others wait at the next barrier: sequential.
        # It may read what all threads share, and write only the objects the contract names.
        def locals_in(x):
            if not isinstance(x, dict): return
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('kind') in ('VarDecl', 'BindingDecl', 'ParmVarDecl') and x['referencedDecl']['id'] not in o['env0'] and x['referencedDecl']['id'] not in own_decls:
                raise Unsupported('the master block depends on a variable of its thread (%s)' % x['referencedDecl'].get('name'), s)
            for c in x.get('inner', []): locals_in(c)
        own_decls = set()
        def decls(x):
            if not isinstance(x, dict): return
            if x.get('kind') in ('VarDecl', 'BindingDecl'): own_decls.add(x['id'])
            for c in x.get('inner', []): decls(c)
        decls(s); locals_in(s)
        saved_own, saved_outer, saved_regs, saved_tid = o['own'], o['outer'], o['outer_regs'], o['tid']
        ok, okr = self.master_places(sp)
        o['own'], o['outer'], o['outer_regs'], o['tid'] = {}, set(o['outer']) - set(id(x) for x in ok), set(o['outer_regs']) - set(id(x) for x in okr), '0'
        o['in_master'] = True
        for c in s['inner']:
            if c.get('kind') == 'CapturedStmt': self.stmt(self.omp_body(s))
            elif c.get('kind') == 'CompoundStmt' or c.get('kind', '').endswith('Stmt'): self.stmt(c)
        o['in_master'] = False
        o['own'], o['outer'], o['outer_regs'], o['tid'] = saved_own, saved_outer, saved_regs, saved_tid
    def master_places(self, sp):
        scs, regs = [], []
        def go(p):
            if isinstance(p, Sc): scs.append(p)
            elif isinstance(p, Obj):
                for f in p.fields.values(): go(f)
            elif isinstance(p, (Ptr, Vec)):
                if isinstance(p, Ptr) and not p.owner: scs.append(p.off)
                regs.append(p.reg); scs.extend(p.reg.maps.values()); scs.append(p.reg.len)
                if p.reg.live is not None: scs.append(p.reg.live)
        for nm in sp.get('master_writes', ()): go(self.lookup(nm))
        return scs, regs

DEFAULT_LOOPS = {
    'my_malloc': {'inv': ['0 <= `i` <= `array_size`', '`a:len` = `array_size`'], 'var': '`array_size` - `i`'},
}

# ---------------------------------------------------------------- units
def find_fn(ast, u):
    """locate the function of a unit in the AST: name, class template args, function template args"""
    tx = Tx(ast, {'name': '?'}, {})
    c = None
    cands = []
    if u.get('cls'):
        cl = tx.find_class(u['cls'])
        if cl is None: raise Unsupported('class %s not found' % u['cls'])
        classes = [cl]
        i = 0
        while i < len(classes):
            for b in classes[i].get('bases', []):
                bc = tx.find_class(b['type'].get('desugaredQualType', b['type']['qualType']))
                if bc is not None: classes.append(bc)
            i += 1
        for c0 in classes:
            for d in c0.get('inner', []):
                if d.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and d.get('name') == u['fn']: cands.append(d)
                if d.get('kind') == 'FunctionTemplateDecl' and d.get('name') == u['fn']:
                    for e in d.get('inner', []):
                        if e.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl') and any(x.get('kind') == 'TemplateArgument' for x in e.get('inner', [])): cands.append(e)
            if cands: break
        u['_cls'] = cl
    else:
        for d in ast.functions(u['fn']):
            if ast.parent[d['id']].get('kind') == 'FunctionTemplateDecl' and not any(x.get('kind') == 'TemplateArgument' for x in d.get('inner', [])): continue
            if d['kind'] == 'FunctionDecl': cands.append(d)
    out = []
    for d in cands:
        f = ast.definition(d['id'])
        if f is None: continue
        if u.get('targs'):
            t = [tx.norm(x) for x in ast.targs(d)]
            w = [tx.norm(x) for x in u['targs']]
            if any(a != b and a != '?' and b != '*' for a, b in zip(t, w)) or len(t) < len(w): continue
        if u.get('nparams') is not None and len(ast.params(f)) != u['nparams']: continue
        if u.get('sigmatch') and not re.search(u['sigmatch'], d['type']['qualType']): continue
        if u.get('bodymatch'):
            def has(x):
                if not isinstance(x, dict): return False
                if x.get('kind') == 'VarDecl' and any(u['bodymatch'] in str(v) for v in x.get('type', {}).values()): return True
                return any(has(c) for c in x.get('inner', []))
            if not has(f): continue
        if f not in out: out.append(f)
    if len(out) != 1: raise Unsupported('%s: %d candidates for %s' % (u['name'], len(out), u['fn']))
    return out[0]

def translate(ast, u, units):
    """returns WhyML text of the module for unit u; fills u['sig'] etc."""
    fn = u['fn_node']
    tx = Tx(ast, u, units)
    del ALIAS[:]
    del KEEP[:]
    ALIAS.append({})
    if u.get('_cls') is not None or fn['kind'] != 'FunctionDecl': ALIAS.append(tx.class_alias(u.get('_cls') or ast.enclosing_class(fn)))
    params, sig = [], []
    spec_scope = {}
    body_init = []
    pre_facts = []
    def add(who, base_path, ps_reg, prefix): pass
    thisobj = None
    def reg_params(who, path, reg, const):
        for k, sc in reg.maps.items():
            wt = 'map int %s' % WT[sc.ty.k]
            params.append((sc.term, wt if const else 'ref (%s)' % wt)); sig.append((who, path + ['#map:' + k], 'val' if const else 'ref', wt, sc.term))
        params.append((reg.len.term, 'int' if const else 'ref int')); sig.append((who, path + ['#len'], 'val' if const else 'ref', 'int', reg.len.term))
        pre_facts.append('%s >= 0' % reg.len.read())
        if hasattr(reg, 'addrsc'):
            params.append((reg.addr, 'int')); sig.append((who, path + ['#addr'], 'val', 'int', reg.addr)); pre_facts.append('%s > 0' % reg.addr)
        if reg.live is not None:
            params.append((reg.live.term, 'int' if const else 'ref int')); sig.append((who, path + ['#live'], 'val' if const else 'ref', 'int', reg.live.term))
        if reg.maps and reg.elem.k == 'int' and not reg.elem.b: pass
    def obj_params(who, path, o, const):
        for f, pl in o.fields.items():
            if isinstance(pl, Sc):
                params.append((pl.term, WT[pl.ty.k] if not pl.mut else 'ref ' + WT[pl.ty.k]))
                sig.append((who, path + [f], 'ref' if pl.mut else 'val', WT[pl.ty.k], pl.term))
                if pl.ty.k == 'int' and not pl.ty.b: pre_facts.append('%s >= 0' % pl.read())
            elif isinstance(pl, Ptr) and not pl.owner:
                params.append((pl.off.term, 'int' if const else 'ref int')); sig.append((who, path + [f, '#off'], 'val' if const else 'ref', 'int', pl.off.term))
            elif isinstance(pl, Ptr): reg_params(who, path + [f], pl.reg, const)
            elif isinstance(pl, Vec): reg_params(who, path + [f], pl.reg, const)
            elif isinstance(pl, Obj): obj_params(who, path + [f], pl, const)
    tx.scopes.append(spec_scope)
    cls = u.get('_cls') or (ast.enclosing_class(fn) if fn['kind'] != 'FunctionDecl' else None)
    isctor = fn['kind'] == 'CXXConstructorDecl'
    if fn['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and fn.get('storageClass') != 'static':
        mconst = fn['type']['qualType'].rstrip().endswith('const') and not u.get('mutable_this')
        cname = u['cls'] if u.get('cls') else None
        o, ps = tx.mk_obj('this', cname, mconst)
        if isctor:
            for n_, t_, sc in ps: sc.mut = True
        thisobj = o
        tx.this = tx.top_this = o
        obj_params('this', [], o, mconst)
    alias = u.get('alias', {})     # parameter name -> other parameter it aliases
    byname = {'this': thisobj}
    locals_ = []
    for i, p in enumerate(ast.params(fn)):
        t = p['type'].get('desugaredQualType', p['type']['qualType']).strip()
        ty = parse_ty(t)
        nm = p.get('name') or '_p%d' % i
        if nm in alias:
            pl = byname[alias[nm]]
            tx.env[p['id']] = pl; spec_scope[nm] = pl; byname[nm] = pl
            continue
        ref = t.endswith('&')
        cref = ref and (t.startswith('const ') or t.rstrip('& ').endswith('const'))
        if ty.k == 'rec':
            c = tx.find_class(ty.a)
            if c is not None and c.get('name') in ('Mul', 'Add'):
                tx.env[p['id']] = Functor(c['name']); continue
            const = (cref or not ref) and nm not in u.get('mutable', ())
            o, ps = tx.mk_obj(nm, ty.a, const)
            obj_params(i, [], o, const)
            tx.env[p['id']] = o; spec_scope[nm] = o; byname[nm] = o
        elif ty.k == 'ptr':
            el = ty.b or ''
            const = el.strip().startswith('const ') or nm in u.get('constptr', ())
            r, ps = tx.mk_region(nm, ty.a, 'param', const)
            reg_params(i, [], r, const)
            off = tx.fresh('_' + nm + '_off')
            if nm in u.get('base0', ()) :
                pl = Ptr(r, Sc('0', Ty('int', 64, 1), mut=False))
                tx.env[p['id']] = pl; spec_scope[nm] = pl; byname[nm] = pl
                sig.append((i, ['#off'], 'val', 'int', off)); params.append((off, 'int')); pre_facts.append('%s = 0' % off)
                continue
            if ref and not cref:
                params.append((off, 'ref int')); sig.append((i, ['#off'], 'ref', 'int', off))
                pl = Ptr(r, Sc(off, Ty('int', 64, 1)))
                tx.env[p['id']] = pl; spec_scope[nm] = pl
            else:
                params.append((off, 'int')); sig.append((i, ['#off'], 'val', 'int', off))
                spec_scope[nm] = Ptr(r, Sc(off, Ty('int', 64, 1), mut=False))
                lo = tx.fresh('_' + nm + '_p')
                tx.env[p['id']] = Ptr(r, Sc(lo, Ty('int', 64, 1)))
                locals_.append((lo, off, nm, p['id']))
            byname[nm] = tx.env[p['id']]
        elif ty.k in ('int', 'bool', 'nt'):
            n = tx.fresh('_' + nm)
            if ref and not cref:
                params.append((n, 'ref ' + WT[ty.k])); sig.append((i, [], 'ref', WT[ty.k], n))
                pl = Sc(n, ty)
                tx.env[p['id']] = pl; spec_scope[nm] = pl
            else:
                params.append((n, WT[ty.k])); sig.append((i, [], 'val', WT[ty.k], n))
                spec_scope[nm] = Sc(n, ty, mut=False)
                if tx.param_written(p):
                    lo = tx.fresh('_' + nm + '_v')
                    tx.env[p['id']] = Sc(lo, ty)
                    locals_.append((lo, n, nm, p['id']))
                else: tx.env[p['id']] = spec_scope[nm]
            if ty.k == 'int':
                if not ty.b: pre_facts.append('%s >= 0' % spec_scope[nm].read())
        elif ty.k == 'vec':
            const = cref
            r, ps = tx.mk_region(nm, ty.a, 'param', const)
            reg_params(i, [], r, const)
            tx.env[p['id']] = Vec(r); spec_scope[nm] = Vec(r)
        else: raise Unsupported('parameter %s : %s' % (nm, t))
    for g, gt in u.get('ghost', []):
        params.append((g, gt)); sig.append(('#ghost', g, 'val', gt, g))
        spec_scope[g] = Sc(g, Ty('int', 64, 1), mut=False)
    if isctor: pre_facts = [f for f in pre_facts if 'this' not in f] + ['%s = 0' % pl.reg.len.read() for pl in thisobj.fields.values() if isinstance(pl, Ptr)]
    if isctor and u.get('live'): pre_facts += ['%s = 2' % pl.reg.live.read() for pl in thisobj.fields.values() if isinstance(pl, Ptr)]
    rty = tx.ret_type(fn)
    if rty['ref'] and rty['ty'].k == 'rec': rty = {'ty': Ty('void'), 'ref': False, 'self': True}
    reqs = pre_facts + [tx.spec(x) for x in u.get('requires', [])]
    enss = [tx.spec(x) for x in u.get('ensures', [])]
    # body
    tx.raw('label Entry in')
    body_scope = {}
    tx.scopes.append(body_scope)
    for lo, src, nm, pid in locals_:
        tx.let(lo, 'ref %s' % src)
        body_scope[nm] = tx.env[pid]
    tx.rets.append({'fn': fn, 'exc': None, 'places': [], 'rty': rty, 'top': True})
    for g in u.get('pre', []): tx.gh(g)
    if isctor:
        # member initialisers then the body
        for ini in fn.get('inner', []):
            if ini.get('kind') != 'CXXCtorInitializer': continue
            e = ini['inner'][0] if ini.get('inner') else None
            if 'anyInit' in ini:
                f = thisobj.fields.get(ini['anyInit']['name'])
                if isinstance(f, Sc): tx.store(f, tx.val(tx.rv(e)), ini)
                elif isinstance(f, Ptr): tx.store(f, tx.val(tx.rv(e)), ini)
                elif isinstance(f, Vec): tx.store(f.reg.len, '0', ini)
                elif isinstance(f, Obj):
                    ce = e
                    while ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): ce = ce['inner'][-1]
                    ft = [t for n_, t, _ in tx.class_fields(cls) if n_ == ini['anyInit']['name']][0]
                    tx.ctor(f, tx.find_class(ft.a), ce, ini)
            elif 'baseInit' in ini:
                bt = ini['baseInit'].get('desugaredQualType', ini['baseInit']['qualType'])
                ce = e
                while ce.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): ce = ce['inner'][-1]
                tx.ctor(thisobj, tx.find_class(bt), ce, ini)
    stmts = ast.body(fn).get('inner', []) if not u.get('stub') else []
    final = None
    for i, s in enumerate(stmts):
        if s.get('kind') == 'ReturnStmt' and i == len(stmts) - 1 and not rty['ref']:
            final = tx.pack(tx.ret_value(s, rty), rty)
        else: tx.stmt(s)
    if tx.dtors and tx.early_returns(fn): raise Unsupported('return while a local object with a destructor is alive')
    for o, dt in reversed(tx.dtors): tx.inline(dt, o, [], dt)
    for g in u.get('post', []): tx.gh(g)
    if final is None: final = '()' if rty['ty'].k == 'void' or isctor else 'absurd'
    if tx.loopno < len(tx.loops): raise Unsupported('%d loops of %s have a contract but only %d were found' % (len(tx.loops), u['name'], tx.loopno))
    u['sig'], u['rty'] = sig, rty if not isctor else {'ty': Ty('void'), 'ref': False}
    u['written'] = set()
    for pl in tx.all_places():
        pass
    u['written'] = written_names(tx) if not u.get('stub') else {x[4] for x in sig if x[2] == 'ref' and x[1] and x[1][-1].startswith('#map:')}
    why = u['why']
    txt = 'let ghost %s %s' % (why, ' '.join('(%s: %s)' % (n, t) for n, t in params) if params else '()')
    rt = rty['ty']
    def wty(t): return {'int': 'int', 'bool': 'bool', 'nt': 'nt', 'ptr': 'int', 'void': 'unit'}[t.k]
    rtxt = 'unit' if isctor else ('(' + ', '.join(wty(x) for x in rt.a) + ')' if rt.k == 'tuple' else wty(rt))
    txt += ' : %s\n' % rtxt
    for x in reqs: txt += '  requires { %s }\n' % x
    for i, x in enumerate(enss): txt += '  ensures { [@expl:postcondition %d of %s] %s }\n' % (i, u['name'], x)
    txt += '=\n' + tx.compose(tx.out, final) + '\n'
    u['info'] = tx.info
    return txt

def written_names(tx):
    out = set()
    def go(p, seen):
        if id(p) in seen: return
        seen.add(id(p))
        if isinstance(p, Sc):
            if p.written: out.add(p.term)
        elif isinstance(p, Obj):
            for f in p.fields.values(): go(f, seen)
        elif isinstance(p, Ptr):
            go(p.off, seen)
            if p.reg is not None: go(p.reg, seen)
        elif isinstance(p, Vec): go(p.reg, seen)
        elif isinstance(p, Reg):
            for sc in p.maps.values(): go(sc, seen)
            go(p.len, seen)
            if p.live is not None: go(p.live, seen)
    seen = set()
    for p in tx.env.values(): go(p, seen)
    if tx.top_this is not None: go(tx.top_this, seen)
    return out
