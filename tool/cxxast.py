"""Loads clang's JSON AST of the driver TU (the real headers of /repo, wrapped in
namespace vfy, with the templates instantiated) and indexes it."""
import json, os, re, subprocess, sys, gc

class Ast:
    def __init__(self, root):
        self.root = root
        self.byid = {}
        self.parent = {}
        self.primary = {}
        gc.disable()
        self._index(root, None)
        gc.enable()
        self.src = {}

    def _index(self, n, par):
        stack = [(n, par)]
        cur = [None, None]
        def bare(l):
            if 'offset' in l:
                if 'file' in l: cur[0] = l['file']
                if 'line' in l: cur[1] = l['line']
                return (cur[0], cur[1], l['offset'])
            return None
        def visit(l):
            if not isinstance(l, dict): return None
            if 'spellingLoc' in l or 'expansionLoc' in l:
                r = None
                for k, v in l.items():
                    if k in ('spellingLoc', 'expansionLoc'):
                        x = bare(v)
                        if k == 'expansionLoc': r = x
                return r
            return bare(l)
        while stack:
            n, par = stack.pop()
            if not isinstance(n, dict): continue
            pos = None
            for k in n:
                if k == 'loc': pos = visit(n['loc']) or pos
                elif k == 'range':
                    b = visit(n['range'].get('begin')); visit(n['range'].get('end'))
                    pos = b or pos
            if pos: n['_file'], n['_line'], n['_off'] = pos
            i = n.get('id')
            if i is not None and 'kind' in n:
                old = self.byid.get(i)
                # a decl may be printed in brief first; keep the one with more content
                if old is None or (len(n.get('inner', [])) > len(old.get('inner', []))):
                    self.byid[i] = n
                    self.parent[i] = par
            for c in reversed(n.get('inner', []) or []):
                stack.append((c, n))

    def body(self, fn):
        for c in fn.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): return c
        return None

    def definition(self, fid):
        """the declaration with a body for this function id (follows redeclarations)"""
        n = self.byid.get(fid)
        if n is None: return None
        if self.body(n) is not None: return n
        # look for out-of-line definitions: previousDecl link
        if not hasattr(self, '_prev'):
            self._prev = {}
            for i, d in self.byid.items():
                p = d.get('previousDecl')
                if p: self._prev.setdefault(p, []).append(d)
        seen, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            d = self.byid.get(x)
            if d is not None and self.body(d) is not None: return d
            for y in self._prev.get(x, []): todo.append(y['id'])
            if d is not None and d.get('previousDecl'): todo.append(d['previousDecl'])
        return None

    def params(self, fn):
        return [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def targs(self, n):
        out = []
        for c in n.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                if 'type' in c: out.append(qt(c))
                elif 'value' in c: out.append(str(c['value']))
                else:
                    out.append(c.get('decl', {}).get('name', '?') if 'decl' in c else '?')
        return out

    def functions(self, name):
        for n in self.byid.values():
            if n.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and n.get('name') == name and self.body(n) is not None:
                yield n

    def classes(self, name):
        for n in self.byid.values():
            if n.get('kind') in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl') and n.get('name') == name and n.get('completeDefinition'):
                yield n

    def enclosing_class(self, fn):
        p = self.parent.get(fn['id'])
        while p is not None and p.get('kind') not in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl', 'NamespaceDecl', 'TranslationUnitDecl', 'ClassTemplatePartialSpecializationDecl'):
            p = self.parent.get(p['id'])
        return p

    # ---- names: contracts speak of the names recorded in contracts/names.json; a renamed parameter, local or
    # ---- field is matched by its position, so that renaming alone does not invalidate a contract
    def name_lists(self):
        out = {}
        for n in list(self.byid.values()):
            k = n.get('kind')
            if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and self.body(n) is not None:
                c = self.enclosing_class(n)
                key = '%s<%s>::%s<%s> %s' % (c.get('name', '') if c else '', ','.join(self.targs(c)) if c else '', n.get('name'), ','.join(self.targs(n)), n['type']['qualType'])
                while key in out: key += "'"
                ds, st = [], [n]
                while st:
                    x = st.pop()
                    if x.get('kind') in ('ParmVarDecl', 'VarDecl', 'BindingDecl') and x.get('name') and not x.get('isImplicit') and not x['name'].startswith(('__', '.')): ds.append(x)
                    st.extend(y for y in reversed(x.get('inner', []) or []) if isinstance(y, dict))
                seen, l = set(), []
                for d in ds:
                    if d['id'] not in seen: seen.add(d['id']); l.append(d)
                if l: out[key] = l
            elif k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl') and n.get('completeDefinition') and n.get('name'):
                l = [d for d in n.get('inner', []) if d.get('kind') == 'FieldDecl' and d.get('name')]
                if l: out.setdefault('class %s %s' % (n['name'], ','.join(self.targs(n))), l)
        return out
    def canonicalise(self, base):
        import difflib
        ren = {}
        for key, l in self.name_lists().items():
            b = base.get(key)
            now = [d['name'] for d in l]
            if b is None or b == now: continue
            for op, a0, a1, b0, b1 in difflib.SequenceMatcher(None, b, now, autojunk=False).get_opcodes():
                if op == 'replace' and a1 - a0 == b1 - b0:
                    for x, d in zip(b[a0:a1], l[b0:b1]):
                        if x not in now: ren[d['id']] = x
        if not ren: return ren
        for n in self.byid.values():
            if n.get('id') in ren: n['name'] = ren[n['id']]
            if n.get('referencedMemberDecl') in ren: n['name'] = ren[n['referencedMemberDecl']]
            if n.get('kind') == 'CXXConstructorDecl':
                for c in n.get('inner', []):
                    if isinstance(c.get('anyInit'), dict) and c['anyInit'].get('id') in ren: c['anyInit']['name'] = ren[c['anyInit']['id']]
        return ren

def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))

def clang_dump(driver, repo, workdir):
    here = os.path.dirname(os.path.abspath(__file__))
    hd = {'GRAPH': 'GTgraph/R-MAT/graph.h', 'CSR': 'CSR.h', 'CSC': 'CSC.h', 'MS': 'spgemm-blocks/masked-spgemm.h', 'MSI': 'spgemm-blocks/masked-spgemm-inner.h',
          'TRANS': 'util/transpose.h', 'TUTIL': 'util/triple-util.h', 'SPLIT': 'SplitTuples.h', 'BITMAP': 'BitMap.h', 'UTIL': 'utility.h', 'MSP': 'spgemm-blocks/masked-spgemm-poly.h', 'INNER': 'spgemm-blocks/inner/MaskedInnerSpGEMM.h'}
    cmd = ['clang++', '-std=c++17', '-fopenmp', '-include', 'cstdint', '-DCPP'] + ['-DVREPO_%s="%s"' % (k, os.path.join(repo, v)) for k, v in hd.items()] + [
           '-I' + os.path.join(repo, 'GraphBLAS/Include'), '-I' + os.path.join(repo, 'GTgraph/sprng2.0-lite/include'), '-I' + os.path.join(here, 'stub'),
           '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=vfy', driver]
    out = os.path.join(workdir, 'ast.json')
    with open(out, 'w') as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True, cwd=workdir)
    return r.returncode, r.stderr, out, cmd

def load(path):
    s = open(path).read()
    dec = json.JSONDecoder()
    gc.disable()
    docs = []
    i = s.find('{')
    while i >= 0:
        d, e = dec.raw_decode(s, i)
        docs.append(d)
        i = s.find('{', e)
    gc.enable()
    return Ast({'kind': 'Root', 'id': 'root', 'inner': docs})
