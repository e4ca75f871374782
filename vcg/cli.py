import sys, importlib, time
sys.path.insert(0, '/verif/vcg'); sys.path.insert(0, '/verif/specs')
import vcg, prove
mod = importlib.import_module(sys.argv[1])
only = sys.argv[2] if len(sys.argv) > 2 else None
budget = int(sys.argv[3]) if len(sys.argv) > 3 else 10000
if hasattr(mod, 'lemmas') and only in (None, 'lemmas'):
    for v, x in zip(mod.lemmas(), prove.prove_all([vcg.VC('lemma', a, 0, b, c, 'lemma') for a, b, c in mod.lemmas()], budget)):
        print('lemma', v[0], x[:3])
for f, C, fn in mod.units():
    if only and only != fn: continue
    t = time.time()
    ex = vcg.Exec(vcg.TU.get(vcg.REPO + '/' + f), C, fn)
    vcs = ex.verify()
    r = prove.prove_all(vcs, budget)
    bad = [(v, x) for v, x in zip(vcs, r) if x[0] != 'proved']
    print(f, fn, 'VCs', len(vcs), 'not proved', len(bad), '%.1fs' % (time.time() - t), 'probes', prove.probe_all([p[1] for p in ex.probes]), ex.assumptions)
    for v, x in bad:
        print('   ', x[0], v.line, v.name, x[1], '%.1f' % x[2], x[3][:1200] if only else x[3][:100])
