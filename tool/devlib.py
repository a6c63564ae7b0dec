import sys; sys.path.insert(0,'/verif/tool')
import prove
lib, th = sys.argv[1], sys.argv[2]
g, err = prove.gen_vcs('/verif/contracts/%s.mlw' % lib, '/tmp/w/s/lib_%s.d' % th, theory=th)
if err: print(err); sys.exit()
gs = [prove.Goal(n, e, f) for e, n, f in g]
prove.solve(gs, cache='/tmp/w/cache.json')
print(sum(x.status == 'valid' for x in gs), len(gs), max([x.time for x in gs] or [0]))
for x in gs:
    if x.status != 'valid': print(x.unit, x.expl, x.path, x.log)
