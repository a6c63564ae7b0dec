"""developer driver: dev.py MODULE UNIT... (prove units, print what is not discharged)"""
import sys, os, importlib, time
sys.path.insert(0, '/verif/tool'); sys.path.insert(0, '/verif/contracts')
import prove
if '-d' in sys.argv: os.environ['VDEBUG'] = '1'; sys.argv.remove('-d')
S = prove.Session(os.environ.get('VREPO', '/repo'), '/tmp/w/s'); S.extract()
import contracts
S.add_units(contracts.all_units()); S.locate()
names = []
for a in sys.argv[1:]:
    names += [n for n in S.units if n == a or (a.endswith('*') and n.startswith(a[:-1]))]
goals = []
for n in names:
    u = S.units[n]; S.translate(u)
    if 'error' in u: print('ERR', n, u['error']); continue
    p = '/tmp/w/s/%s.mlw' % u['why']; open(p, 'w').write(S.module(u))
    g, err = prove.gen_vcs(p, '/tmp/w/s/%s.d' % u['why'])
    if err: print('WHY3', n, err); continue
    goals += [prove.Goal(n, e, f) for e, _, f in g]
t = time.time()
prove.solve(goals, cache='/tmp/w/cache.json', stages=[[('z3e', 4)], [('z3', 4), ('z3r', 4)], [('z3d', 6), ('z3n', 6), ('z3new', 8), ('cvc5', 8)]] if not os.environ.get('FULL') else prove.STAGES[:3]) if not os.environ.get('Q') else prove.solve(goals, cache='/tmp/w/cache.json', stages=[[('z3e', 4), ('z3', 4)]])
for n in names:
    gs = [g for g in goals if g.unit == n]
    if gs:
        for g in sorted(gs, key=lambda g: -g.time)[:int(os.environ.get('TOP','0'))]: print('   slow', round(g.time,1), g.solver, g.expl, g.path, g.log)
        print('%-40s %d/%d  max %.1fs' % (n, sum(g.status == 'valid' for g in gs), len(gs), max(g.time for g in gs)))
for g in goals:
    if g.status != 'valid': print('  UNPROVED', g.unit, '|', g.expl, '|', g.path, g.log)
print('%.1fs' % (time.time() - t))
