"""extract -> WhyML -> VCs -> solver portfolio"""
import os, re, subprocess, sys, time, hashlib, glob, shutil, threading, queue, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import cxxast, tx as TX
Unsupported = TX.Unsupported

DRV = '/usr/share/why3/drivers/'
# name, command, why3 driver used to print the goal
SOLVERS = {
    'z3': (['z3', '-T:%d', 'memory_max_size=6000', 'tactic.default_tactic=smt'], 'z3_487.drv'),
    'z3d': (['z3', '-T:%d', 'memory_max_size=6000'], 'z3_487.drv'),
    'z3n': (['z3', '-T:%d', 'memory_max_size=6000', 'tactic.default_tactic=smt', 'smt.mbqi=false', 'smt.random_seed=3'], 'z3_487.drv'),
    'z3e': (['z3', '-T:%d', 'memory_max_size=6000', 'tactic.default_tactic=smt', 'smt.mbqi=false', 'smt.qi.eager_threshold=3'], 'z3_487.drv'),
    'z3r': (['z3', '-T:%d', 'memory_max_size=6000', 'tactic.default_tactic=smt', 'smt.relevancy=1'], 'z3_487.drv'),
    'z3new': (['z3-new', '-T:%d', 'memory_max_size=6000', 'tactic.default_tactic=smt'], 'z3_487.drv'),
    'cvc5': (['cvc5', '--tlimit=%d000', '--lang=smt2', '--force-logic=ALL'], 'z3_487.drv'),
}

class Session:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        os.makedirs(work, exist_ok=True)
        self.units = {}
        self.ast = None
        self.err = None
    def extract(self):
        t = time.time()
        rc, err, out, cmd = cxxast.clang_dump(os.path.join(HERE, 'driver.cpp'), self.repo, self.work)
        self.clang_cmd = ' '.join(cmd)
        if rc != 0:
            self.err = err
            raise Unsupported('clang does not accept the headers: ' + err[:400])
        self.ast = cxxast.load(out)
        os.unlink(out)
        nj = os.path.join(HERE, '..', 'contracts', 'names.json')
        if os.environ.get('VRECORD'):
            json.dump({k: [d['name'] for d in l] for k, l in sorted(self.ast.name_lists().items())}, open(nj, 'w'), indent=0)
        elif os.path.exists(nj): self.renamed = self.ast.canonicalise(json.load(open(nj)))
        self.extract_time = time.time() - t
    def add_units(self, units):
        for u in units:
            u = dict(u)
            u.setdefault('why', 'f_' + re.sub(r'[^A-Za-z0-9_]', '_', u['name']))
            self.units[u['name']] = u
    def locate(self):
        for u in self.units.values():
            if u.get('fn_id') or u.get('lemma') or u.get('loc_err'): continue
            try:
                f = TX.find_fn(self.ast, u)
                u['fn_node'], u['fn_id'] = f, f['id']
            except Unsupported as e:
                u['loc_err'] = str(e)
    def translate(self, u):
        """memoised; fills u['text'] or u['error']"""
        if 'text' in u or 'error' in u: return
        if u.get('loc_err'): u['error'] = u['loc_err']; return
        if u.get('busy'): u['error'] = 'recursive contract use'; return
        u['busy'] = True
        try:
            u['text'] = TX.translate(self.ast, u, self.units_view(u))
            u['decl'] = decl_of(u)
        except Unsupported as e:
            u['error'] = str(e)
        except RecursionError:
            u['error'] = 'recursion too deep'
        except Exception as e:
            if os.environ.get('VDEBUG'): raise
            u['error'] = 'translator: %s: %s' % (type(e).__name__, e)
        u['busy'] = False
    def units_view(self, u):
        # callee contracts are needed before the caller is translated
        for n in u.get('uses', []):
            c = self.units[n]
            self.translate(c)
            if 'error' in c and 'sig' not in c: raise Unsupported('callee %s: %s' % (n, c['error']))
        return {n: self.units[n] for n in u.get('uses', [])}
    def closure(self, names):
        out, todo = [], list(names)
        while todo:
            n = todo.pop(0)
            if n in out or self.units[n].get('stub'): continue # a recursive call: the contract of the caller itself
            out.append(n)
            todo += self.units[n].get('uses', [])
        return out
    def module(self, u):
        """full WhyML file of one unit"""
        txt = 'module M\n  use base.Base\n'
        for l in u.get('theories', []): txt += '  use %s\n' % l
        for n in u.get('uses', []):
            c = self.units[n]
            if n in u['info']['called']: txt += c['decl'] + '\n'
        txt += u.get('local', '')
        txt += u['text'] + '\nend\n'
        return txt


class Goal:
    __slots__ = ('unit', 'expl', 'path', 'status', 'solver', 'time', 'log', 'h', 'key')
    def __init__(s, unit, expl, path): s.unit, s.expl, s.path = unit, expl, path; s.status = None; s.solver = None; s.time = 0.0; s.log = []; s.h = None

CONF = """[main]
magic = 14
memlimit = 2000
running_provers_max = 1
timelimit = 5.0

[prover]
name = "Saver"
version = "1"
alternative = ""
command = "/bin/sh %s %%f"
driver = "%s%s"
in_place = false
interactive = false
shortcut = "saver"
"""

def gen_vcs(mlw, outdir, splits=('split_vc',), theory=None, driver='z3_487.drv'):
    """why3 generates and splits the VCs; every goal is saved with its explanation.  -> (goals, error)"""
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    save = os.path.join(outdir, 'save.sh')
    open(save, 'w').write('cp "$1" "%s/g$(date +%%s%%N).smt2"; echo unknown\n' % outdir)
    conf = os.path.join(outdir, 'why3.conf')
    open(conf, 'w').write(CONF % (save, DRV, driver))
    cmd = ['why3', '-C', conf, '-L', HERE, '-L', os.path.join(HERE, '..', 'contracts'), 'prove', '-P', 'saver']
    for s in splits: cmd += ['-a', s]
    cmd.append(mlw)
    if theory: cmd += ['-T', theory]
    r = subprocess.run(['/bin/sh', '-c', 'ulimit -v 8000000; exec "$@"', 'sh'] + cmd, capture_output=True, text=True)
    out = r.stdout + '\n' + r.stderr
    files = sorted(glob.glob(os.path.join(outdir, 'g*.smt2')))
    names = []
    txt = re.sub(r'\n', ' ', r.stdout)
    for m in re.finditer(r'(?:Sub-goal (.*?) of goal (\S+)\.|Goal (\S+)\.)\s+Prover result is', txt):
        names.append((m.group(1) or 'goal', m.group(2) or m.group(3)))
    if r.returncode not in (0, 2) and not files:
        err = '\n'.join(l for l in out.split('\n') if 'unused variable' not in l)
        return [], err[-3000:] or 'why3 failed'
    if 'error' in r.stderr.lower().replace('unused', '') and not files:
        return [], r.stderr[-3000:]
    if len(files) != len(names): return [], 'goal list mismatch: %d files, %d names' % (len(files), len(names))
    return [(n, g, f) for (n, g), f in zip(names, files)], None

STAGES = [[('z3e', 4)], [('z3', 5), ('z3r', 6)], [('z3d', 10), ('z3e', 12), ('z3new', 15), ('z3n', 10), ('cvc5', 20)], [('z3', 60), ('z3e', 60), ('z3r', 60), ('z3d', 60), ('z3new', 60), ('cvc5', 60)]]

def run_solver(sname, path, tl):
    cmd, drv = SOLVERS[sname]
    c = [x % tl if '%d' in x else x for x in cmd] + [path]
    t = time.time()
    try:
        r = subprocess.run(c, capture_output=True, text=True, timeout=tl + 10)
        full = (r.stdout + r.stderr).strip()
        o = full.split('\n')[0] if full else ''
    except subprocess.TimeoutExpired:
        o, full = 'timeout', ''
    return o, time.time() - t, full

def goal_hash(path):
    txt = re.sub(r'^;;.*$', '', open(path).read(), flags=re.M)
    return hashlib.sha256(txt.encode()).hexdigest()

def solve(goals, workers=8, stages=None, cache=None, deadline=None, progress=None):
    """portfolio; fills goal.status in valid/unproved"""
    stages = stages or STAGES
    cdb = {}
    if cache and os.path.exists(cache): cdb = json.load(open(cache))
    import concurrent.futures as cf
    def attempt(g, s, tl):
        if g.status == 'valid': return
        if deadline and time.time() > deadline: g.log.append((s, 'not run: out of time', 0)); return
        if cache is not None and g.h is None: g.h = goal_hash(g.path)
        if cache is not None and g.h in cdb:
            g.status, g.solver, g.time = 'valid', cdb[g.h][0], cdb[g.h][1]; return
        o, dt, full = run_solver(s, g.path, tl)
        g.log.append((s, o[:60], round(dt, 2)))
        if o == 'unsat' and g.status != 'valid': g.status, g.solver, g.time = 'valid', s, dt
    for st in stages:
        todo = [g for g in goals if g.status != 'valid']
        if not todo: break
        with cf.ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(attempt, g, s, tl) for g in todo for s, tl in st]
            for f in fs: f.result()
    for g in goals:
        if g.status is None: g.status = 'unproved'
        elif g.h: cdb[g.h] = (g.solver, g.time)
    if cache: json.dump(cdb, open(cache, 'w'))

def solve_hinted(goals, hints, workers=8, deadline=None):
    import concurrent.futures as cf
    def one(g):
        if deadline and time.time() > deadline: return
        sn = hints[g.key]
        if sn not in SOLVERS: return
        o, dt, _ = run_solver(sn, g.path, 25)
        g.log.append((sn, o[:60], round(dt, 2)))
        if o == 'unsat': g.status, g.solver, g.time = 'valid', sn, dt
    with cf.ThreadPoolExecutor(workers) as ex: list(ex.map(one, goals))

def decl_of(u):
    """the contract of a unit as an abstract WhyML function, for its callers"""
    txt = u['text']
    head = txt[:txt.index('\n=\n')]
    head = head.replace('let ghost', 'val ghost', 1)
    w = [pname for who, path, kind, wty, pname in u['sig'] if kind == 'ref' and pname in u['written']]
    head = re.sub(r'\[@expl:[^\]]*\]', '', head)
    if w: head += '\n  writes { %s }' % ', '.join(w)
    return head

def smoke(goals, workers=8):
    """goals that must NOT be provable: one short attempt each"""
    import concurrent.futures as cf
    def one(g):
        o, dt, _ = run_solver('z3', g.path, 2)
        g.status = 'valid' if o == 'unsat' else 'open'
    with cf.ThreadPoolExecutor(workers) as ex: list(ex.map(one, goals))
