"""check.py PROPERTY : decides one property on /repo's current tree.

1. dump the clang AST of the real headers, translate every function of the
   property (and every callee it relies on by contract) to WhyML, generate the
   obligations with why3 and discharge them with z3/cvc5;
2. run the real code, compiled from the same tree, against the same statement
   on generated inputs (bounded; validates the assumptions, and supplies the
   failing input when an obligation fails).
exit 0: everything discharged;  exit 1 with a VIOLATION line otherwise.
"""
import sys, os, re, json, time, hashlib, shutil, subprocess, tempfile, threading
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'contracts'))
sys.setrecursionlimit(20000)
import prove, contracts, props
REPO = os.environ.get('VREPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = os.cpu_count() or 4

def log(*a): print(*a, file=sys.stderr, flush=True)

def proved_db():
    p = os.path.join(ROOT, 'contracts', 'proved.json')
    return json.load(open(p)) if os.path.exists(p) else {}
def unit_hash(text):
    return hashlib.sha256(re.sub(r'\S+\.h:\d+|\S+\.cpp:\d+', '', text).encode()).hexdigest()[:24]

# ---------------------------------------------------------------- runtime part
class Harness:
    def __init__(self, spec, work, i):
        self.src, self.flags = spec['src'], spec.get('flags', [])
        self.bin = os.path.join(work, 'h%d' % i)
        self.err = None
        self.cmd = ['bash', os.path.join(ROOT, 'harness', 'build.sh'), os.path.join(ROOT, 'harness', self.src), self.bin] + self.flags
    def build(self):
        e = dict(os.environ, VREPO=REPO)
        try: r = subprocess.run(self.cmd, capture_output=True, text=True, env=e, timeout=240)
        except subprocess.TimeoutExpired: self.err = 'the harness build timed out'; return
        if r.returncode: self.err = (r.stderr or r.stdout)[-3000:]
    def run(self, seed, secs):
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=0', OMP_WAIT_POLICY='passive', OMP_NUM_THREADS='4')
        try:
            r = subprocess.run([self.bin, str(seed), str(secs)], capture_output=True, text=True, errors='replace', env=e, timeout=secs + 90)
        except subprocess.TimeoutExpired: return {'n': 0, 'nt': 0, 'fail': None, 'note': 'harness timed out', 'last': ''}
        m = re.search(r'^CASES (\d+) NONTRIVIAL (\d+)', r.stdout, re.M)
        out = {'n': int(m.group(1)) if m else 0, 'nt': int(m.group(2)) if m else 0, 'fail': None, 'last': ''}
        i = r.stdout.find('\nFAILURE ')
        if i >= 0:
            out['fail'] = r.stdout[i + 9:]
            j = r.stderr.find('ERROR:'); j = j if j >= 0 else r.stderr.find('runtime error:')
            out['stderr'] = r.stderr[max(0, j - 300):][:4000]
        k = r.stdout.find('\nLAST ')
        if k >= 0: out['last'] = r.stdout[k + 6:][:1500]
        return out

def search(hs, secs, base, par):
    """run all harnesses; returns (cases, nontrivial, samples, failure or None)"""
    jobs = []
    per = max(1, par // max(1, len(hs)))
    stop = threading.Event()
    res = []
    def one(h, s):
        if stop.is_set(): return None
        r = h.run(s, secs)
        if r['fail']: stop.set()
        return h, s, r
    with cf.ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(one, h, base * 1000 + 7 * k + 1) for k in range(per) for h in hs]
        for f in fs:
            x = f.result()
            if x: res.append(x)
    n = sum(r['n'] for _, _, r in res); nt = sum(r['nt'] for _, _, r in res)
    samples = [r['last'] for _, _, r in res if r['last']][:2]
    bad = [(h, s, r) for h, s, r in res if r['fail']]
    return n, nt, samples, (bad[0] if bad else None), [r.get('note') for _, _, r in res if r.get('note')]

# ---------------------------------------------------------------- proof part
def prove_units(P, work, t0, budget):
    """-> dict with goals, errors, smoke results"""
    out = {'goals': [], 'errors': [], 'units': {}, 'smoke_bad': [], 'texts': {}, 'assumed': set()}
    S = prove.Session(REPO, os.path.join(work, 's'))
    try: S.extract()
    except Exception as e:
        out['errors'].append(('*', 'extraction', str(e))); return out, None
    S.add_units(contracts.all_units()); S.locate()
    names = S.closure(P['units'] + (P.get('thorough_units', []) if TIER == 'thorough' else []))
    libs = list(P.get('libs', []))
    for n in names:
        for th in S.units[n].get('theories', []):
            if th not in libs: libs.append(th)
    libs = lib_closure(libs)
    jobs = []
    for n in names:
        u = S.units[n]
        S.translate(u)
        if 'error' in u: out['errors'].append((n, 'extraction', u['error'])); continue
        if u.get('abstract'): out['assumed'].add(u['abstract']); continue
        txt = S.module(u)
        out['texts'][n] = unit_hash(txt)
        # reachability check: "false" must not follow at the end of the function
        i = txt.rindex('\n=\n')
        txt = txt[:i] + '\n  ensures { [@expl:SMOKE] false }' + txt[i:]
        p = os.path.join(work, 's', u['why'] + '.mlw')
        open(p, 'w').write(txt)
        jobs.append((n, p, None))
    for l in libs:
        f, th = l.split('.')
        jobs.append(('lib ' + l, os.path.join(ROOT, 'contracts', f + '.mlw'), th))
    def gen(j):
        n, p, th = j
        return j, prove.gen_vcs(p, os.path.join(work, 's', re.sub(r'\W', '_', n) + '.d'), theory=th)
    goals, smoke = [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (n, p, th), (g, err) in ex.map(gen, jobs):
            if err: out['errors'].append((n, 'obligation generation', err)); continue
            if not g and not th: out['errors'].append((n, 'obligation generation', 'no obligation was generated')); continue
            k = 0
            for e, gname, f in g:
                G = prove.Goal(n, e, f)
                if 'SMOKE' in e: smoke.append(G)
                else: goals.append(G); k += 1
            if n in S.units:
                i = S.units[n]['info']
                out['units'][n] = {'obligations': k, 'inlined': sorted(x for x in i['inlined'] if x), 'by_contract': sorted(i['called']), 'builtins': sorted(x for x in i['builtins'] if x), 'dropped': sorted(i['drops']), 'loops': i['loops']}
                out['assumed'] |= set(i.get('assumed', ()))
            else: out['units'][n] = {'obligations': k}
    deadline = t0 + budget
    # the back end that decided an obligation when it was recorded is asked first (a hint: it decides nothing)
    seen, hdb = {}, hints_db()
    for g in goals:
        k = '%s|%s' % (g.unit, g.expl); seen[k] = seen.get(k, 0) + 1
        g.key = '%s|%d' % (k, seen[k])
    hinted = [g for g in goals if g.key in hdb]
    prove.solve_hinted(hinted, hdb, workers=NCPU, deadline=deadline)
    log('   %d obligations, %d reachability goals generated (%.0f s)' % (len(goals), len(smoke), time.time() - t0))
    prove.solve(goals, workers=NCPU, deadline=deadline, stages=prove.STAGES[:3])
    log('   solvers finished (%.0f s)' % (time.time() - t0))
    prove.smoke(smoke, workers=NCPU)
    by = {}
    for g in smoke: by.setdefault(g.unit, []).append(g)
    for n, gs in by.items():
        if all(g.status == 'valid' for g in gs): out['smoke_bad'].append(n)
    out['smoke'] = len(smoke); out['goals'] = goals
    return out, S

def lib_closure(libs):
    out, todo = [], list(libs)
    while todo:
        l = todo.pop(0)
        if l in out: continue
        out.append(l)
        f, th = l.split('.')
        txt = open(os.path.join(ROOT, 'contracts', f + '.mlw')).read()
        m = re.search(r'module %s\b(.*?)\nend' % th, txt, re.S)
        for x in re.findall(r'^\s*use (?:export )?([a-z]\w*)\.(\w+)', m.group(1) if m else '', re.M):
            if x[0] not in ('base', 'int', 'ref', 'map', 'option') and os.path.exists(os.path.join(ROOT, 'contracts', x[0] + '.mlw')): todo.append('%s.%s' % x)
        for x in re.findall(r'^\s*use (?:export )?([A-Z]\w*)\s*$', m.group(1) if m else '', re.M): todo.append('%s.%s' % (f, x))
    return out

def hints_db():
    p = os.path.join(ROOT, 'contracts', 'hints.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def tail(s, n=3000): return s if len(s) <= n else s[-n:]

def main():
    pid = sys.argv[1]
    P = props.PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    rc = 1
    try: rc = run(pid, P, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, P, work, t0):
    thorough = TIER == 'thorough'
    hs = [Harness(h, work, i) for i, h in enumerate(P.get('harness', []))]
    bt = threading.Thread(target=lambda: list(cf.ThreadPoolExecutor(4).map(lambda h: h.build(), hs)))
    bt.start()
    budget = int(os.environ.get('VBUDGET', 0)) or (P.get('budget', 420) if not thorough else 3000)
    out, S = prove_units(P, work, t0, budget)
    bt.join()
    goals = out['goals']
    bad = [g for g in goals if g.status != 'valid']
    db = proved_db()
    excused = []
    if bad:      # obligations of a text that was proved before and is unchanged: a solver limit, not a violation
        keep = []
        for g in bad:
            h = out['texts'].get(g.unit)
            same = (h is not None and db.get(g.unit) == h) or (g.unit.startswith('lib '))
            (excused if same else keep).append(g)
        bad = keep
    herr = [h for h in hs if h.err]
    live = [h for h in hs if not h.err]
    suspicious = bool(bad or out['errors'] or out['smoke_bad'])
    log('%s: %d obligations, %d not discharged, %d units not extracted (%.0f s)' % (pid, len(goals), len(bad), len(out['errors']), time.time() - t0))
    for g in bad[:12]: log('   not discharged:', g.unit, '|', g.expl, g.log[-2:])
    for e in out['errors'][:12]: log('   ', e[0], e[1], e[2][:300])
    n = nt = 0; samples = []; fail = None; notes = []
    secs = P.get('seconds', 10) if not thorough else 240
    if live:
        n, nt, samples, fail, notes = search(live, secs, SEED, NCPU if thorough or suspicious else max(len(live), 6))
    if bad and not fail:      # no failing input at once: give the solvers more time
        prove.solve(bad, workers=NCPU, deadline=t0 + budget, stages=prove.STAGES[3:])
        bad = [g for g in bad if g.status != 'valid']
        suspicious = bool(bad or out['errors'] or out['smoke_bad'])
    if live:
        if suspicious and not fail:
            left = max(30, min(150, 780 - (time.time() - t0)))
            n2, nt2, s2, fail, no2 = search(live, left, SEED + 77, NCPU)
            n += n2; nt += nt2; notes += no2
    viol = []
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    rp = os.path.join(ROOT, 'replay', '%s.txt' % pid)
    if os.path.exists(rp): os.unlink(rp)
    def proof_report(f):
        for e in out['errors']: f.write('not verified: %s (%s)\n%s\n\n' % e)
        for m in out['smoke_bad']: f.write('the contract of %s is contradictory: false is provable at its end\n' % m)
        for g in bad:
            f.write('obligation not discharged: unit %s: %s\n' % (g.unit, g.expl))
            for l in g.log: f.write('    solver %s answered %s after %.2f s\n' % (l[0], l[1], l[2]))
            if os.path.exists(g.path): f.write('    goal (SMT-LIB, tail):\n' + ''.join('      ' + x + '\n' for x in tail(open(g.path).read(), 1500).split('\n')))
    if fail:
        h, s, r = fail
        with open(rp, 'w') as f:
            f.write('property %s: the real code fails on this input\n\n%s\n%s\n\n' % (pid, r['fail'], r.get('stderr', '')))
            f.write('reproduce:\n  VREPO=%s bash harness/build.sh harness/%s /tmp/h %s\n  ASAN_OPTIONS=detect_leaks=0 /tmp/h %d %d\n(the case number printed above is fully determined by its seed)\n\n' % (REPO, h.src, ' '.join(h.flags), s, secs))
            proof_report(f)
        print('VIOLATION property=%s replay=%s' % (pid, rp)); viol.append('runtime')
        log(r['fail'][:1500])
    elif suspicious or herr:
        with open(rp, 'w') as f:
            f.write('property %s: the proof of the current source fails; %d generated inputs on the real code did not show a failing one\n\n' % (pid, n))
            proof_report(f)
            for h in herr: f.write('the harness %s does not compile against the current tree:\n%s\n' % (h.src, h.err))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); viol.append('proof')
    kf = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m and m.group(1) == pid: print('KNOWN-FINDING: property=%s %s' % (pid, m.group(2)))
    disch = [g for g in goals if g.status == 'valid']
    by = {}
    for g in disch: by[g.solver] = by.get(g.solver, 0) + 1
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof',
          'coverage': {
            'obligations': len(goals), 'discharged': len(disch), 'checker_cmd': 'why3 split VCs of the WhyML extracted from %s -> z3 4.8.12 / z3-new / cvc5 (tool/prove.py)' % REPO,
            'trusted_base': props.TRUSTED + P.get('trusted', []),
            'discharged_by_back_end': by, 'solver_seconds': round(sum(g.time for g in goals), 1),
            'functions_under_contract': out['units'], 'functions_not_extracted': [list(e) for e in out['errors']],
            'reachability_checks': out.get('smoke', 0),
            'undischarged': ['%s: %s' % (g.unit, g.expl) for g in bad + excused],
            'bounded_validation': {'note': 'bounded; real code compiled with ASan+UBSan, random inputs; not counted as proof', 'evaluations': n, 'distinct_nontrivial': nt, 'rule': P.get('rule', 'generated case; non-trivial when the result has at least one entry'), 'samples': samples, 'notes': notes},
          },
          'assumptions': props.ASSUMPTIONS + P.get('assumptions', []) + sorted(out['assumed']), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    if P.get('level') == 'other': ev['level'] = 'other'; ev['coverage']['explanation'] = P['explanation']
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s: %d/%d obligations discharged, %d runs of the real code, %.0f s' % (pid, len(disch), len(goals), n, time.time() - t0))
    if os.environ.get('VRECORD') and not viol and not excused:
        db = proved_db(); db.update(out['texts'])
        json.dump(db, open(os.path.join(ROOT, 'contracts', 'proved.json'), 'w'), indent=0, sort_keys=True)
        hd, units = hints_db(), {g.unit for g in goals}
        hd = {k: v for k, v in hd.items() if k.split('|')[0] not in units}
        hd.update({g.key: g.solver for g in goals if g.solver and g.solver != 'z3e'})
        json.dump(hd, open(os.path.join(ROOT, 'contracts', 'hints.json'), 'w'), indent=0, sort_keys=True)
    return 1 if viol else 0

if __name__ == '__main__': main()
