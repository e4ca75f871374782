"""end-to-end runs of the real library under mpirun against the MPI library's own collectives (bounded stand-in)"""
import os, re, glob, time, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
import runner

ENV = {'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_btl_vader_single_copy_mechanism': 'none',
       'OMPI_MCA_plm': 'isolated', 'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_mpi_yield_when_idle': '1', 'HOME': '/root'}
STALL = 60      # seconds without a new line in the log count as a hang (confirmed by a second run)
# (ranks, seed, configurations, quick seconds, thorough seconds)
RUNS = [(8, 1, 3000, 60, 120), (6, 1, 3000, 14, 60), (7, 1, 3000, 8, 60), (4, 1, 3000, 14, 60), (5, 1, 3000, 6, 30), (3, 1, 3000, 6, 30), (2, 1, 3000, 6, 30)]
MORE = [(8, 2, 3000, 0, 120), (7, 2, 3000, 0, 60), (6, 2, 3000, 0, 60), (4, 2, 3000, 0, 60), (8, 3, 3000, 0, 120), (8, 4, 3000, 0, 120), (7, 3, 3000, 0, 60), (5, 2, 3000, 0, 30)]
B = 'sockets=1 reqs=1 copyin=0 '
PROBES = [
    ('displacements', 4, B + 'coll=5 n=4 tasks=1 gaps=1 kind=0 mincomp=0 cand=0 notrec=1'),
    ('gatherv-single-node', 4, B + 'coll=7 n=4 tasks=4 kind=0 mincomp=0 cand=0 notrec=1'),
    ('scatterv-several-nodes', 4, B + 'coll=8 n=4 tasks=1 kind=0 mincomp=0 cand=0 notrec=1'),
    ('bcast-recursive', 8, B + 'coll=2 n=8 tasks=1 count=4900 root=3 mincomp=0 cand=1 notrec=-1'),
    ('unequal-recursive', 8, B + 'coll=3 n=8 tasks=1 count=20 kind=1 mincomp=0 cand=1 notrec=-1'),
    ('minimum-computation', 4, 'reqs=1 copyin=0 coll=6 n=4 tasks=2 sockets=1 mincomp=1 cand=1 notrec=-1'),
    ('rooted-seven-nodes', 7, B + 'coll=1 n=7 tasks=1 count=50 mincomp=1 cand=0 notrec=1'),
    ('copyin-almost-half-short', 6, 'reqs=1 coll=0 n=6 tasks=6 sockets=1 count=3 mincomp=0 cand=0 copyin=1 notrec=1'),
    ('no-elements', 4, B + 'coll=0 n=4 tasks=4 count=0 mincomp=0 cand=0 notrec=1'),
    ('gather-surplus-schedule', 8, B + 'coll=5 n=8 tasks=2 count=20 kind=1 gaps=0 mincomp=0 cand=1 notrec=1'),
    ('sockets-several-nodes', 8, 'reqs=1 copyin=0 coll=0 n=8 tasks=2 count=20 mincomp=0 cand=0 sockets=2 notrec=1'),
]


def build(ctx):
    R, T = runner.REPO, ctx.tmp + '/e2e'
    os.makedirs(T)
    open(T + '/latency_bandwidth.tmp', 'w').write(subprocess.run(['bash', R + '/minclude.sh', R + '/latency_bandwidth/ext_mpi_bm.txt'], stdout=subprocess.PIPE, text=True, cwd=T).stdout)
    src = [f for f in sorted(glob.glob(R + '/src/core/*.c') + glob.glob(R + '/src/mpi/*.c')) if 'ext_mpi_interface' not in f and 'hash_table' not in f] + [R + '/src/noopt/read_bench.c', runner.ROOT + '/harness/e2e.c']

    def one(f):
        return subprocess.run(['mpicc', '-I' + T, '-g', '-O2', '-w', '-DDEBUG', '-DM_MAP', '-I' + R + '/include/core', '-I' + R + '/include/mpi', '-c', f, '-o', '%s/%s.o' % (T, os.path.basename(f))],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(8) as ex:
        for f, r in zip(src, ex.map(one, src)):
            if r.returncode:
                return None, '%s: %s' % (f, r.stdout[-800:])
    r = subprocess.run(['mpicc'] + glob.glob(T + '/*.o') + ['-Wl,--wrap=ext_mpi_min_cost_total', '-o', T + '/e2e', '-lm', '-lrt'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (T + '/e2e', '') if not r.returncode else (None, r.stdout[-800:])


def session(ctx, exe, n, seed, first, last, secs, opts=(), stall=STALL):
    """-> (status, index, text); status ok / diff / crash / hang / start"""
    d = '%s/s%d' % (ctx.tmp, time.time_ns())
    os.makedirs(d)
    logf = d + '/log'
    open(logf, 'w').close()
    out = open(d + '/out', 'w')
    p = subprocess.Popen(['mpirun', '--oversubscribe', '--bind-to', 'none', '-n', str(n), exe, str(seed), str(first), str(last), str(secs), logf] + list(opts),
                         stdout=out, stderr=subprocess.STDOUT, env=dict(os.environ, TMPDIR=d, **ENV), cwd=d, start_new_session=True)
    size, t, hang = -1, time.time(), False
    while p.poll() is None:
        time.sleep(0.05)
        s = os.path.getsize(logf)
        if s != size:
            size, t = s, time.time()
        elif time.time() - t > stall:
            hang = True
            break
    if hang:
        os.killpg(p.pid, 9)
        p.wait()
        subprocess.run(['pkill', '-9', '-f', exe])
    txt = open(logf, errors='replace').read()
    o = open(d + '/out', errors='replace').read()[-1500:]
    for f in glob.glob('/dev/shm/ext_mpi*') + (glob.glob('/dev/shm/vader_segment*') if hang or p.returncode else []):
        try:
            os.unlink(f)
        except OSError:
            pass
    shutil.rmtree(d, ignore_errors=True)
    idx = [int(x) for x in re.findall(r'^CFG (\d+)', txt, re.M)]
    i = max(idx) if idx else first
    cfg = '\n'.join(re.findall(r'^(?:CFG|DIFF|RUN|PORTS).*$', txt, re.M)[-8:])
    if hang:
        return 'hang', i, cfg
    if p.returncode == 0:
        m = re.search(r'^END (\d+)', txt, re.M)
        return ('ok', int(m.group(1)), cfg) if m else ('start', i, o)
    if 'DIFF' in txt:
        m = re.search(r'^DIFF (\d+)', txt, re.M)
        return 'diff', int(m.group(1)), cfg
    if not idx:
        return 'start', i, o
    return 'crash', i, cfg + '\n' + o


def run(ctx, u):
    exe, err = build(ctx)
    if not exe:
        return {'status': 'undecided', 'msg': 'does not build: ' + err}
    quick = ctx.tier == 'quick'
    total, samples, extra = 0, [], []
    for name, n, opts in PROBES:
        st, i, txt = session(ctx, exe, n, 1, 0, 40, 5, opts.split() + ['wide=1'], stall=10)
        if st in ('diff', 'crash', 'hang'):
            extra.append({'msg': 'probe %s: %s' % (name, st), 'input': ['%d' % n, '1', str(i)] + opts.split() + ['wide=1'], 'out': txt})
    for n, seed, last, q, t in RUNS if quick else RUNS + MORE:
        st, i, txt = session(ctx, exe, n, seed, 0, last, q if quick else t)
        if st == 'ok':
            total += i
            samples.append({'ranks': n, 'seed': seed, 'configurations': i})
            continue
        if st == 'start':
            return {'status': 'undecided', 'msg': 'mpirun did not start: ' + txt, 'runs': total, 'extra': extra}
        again = session(ctx, exe, n, seed, i, i + 1, 60)
        if again[0] in ('ok', 'start') and st != 'diff':
            # not repeatable on its own: repeat the run up to that configuration once
            again = session(ctx, exe, n, seed, max(0, i - 200), i + 1, 120)
            if again[0] in ('ok', 'start'):
                return {'status': 'undecided', 'msg': '%s at configuration %d of seed %d on %d ranks, not repeatable' % (st, i, seed, n), 'runs': total, 'extra': extra}
        m = re.search(r'^DIFF \d+ (.*)$', txt, re.M)
        return {'status': 'fail', 'msg': 'end to end: %s' % (m.group(1) if m else {'crash': 'crash', 'hang': 'does not complete'}.get(st, st)), 'input': [str(n), str(seed), str(i)],
                'out': txt + '\nsecond run: %s\n%s' % (again[0], again[2]), 'runs': total + i, 'samples': samples, 'extra': extra}
    return {'status': 'ok', 'runs': total, 'samples': samples, 'extra': extra}


def replay(ctx, inp):
    exe, err = build(ctx)
    n, seed, i = (int(x) for x in inp[:3])
    st, j, txt = session(ctx, exe, n, seed, i, i + 1, 60, inp[3:])
    return st, txt
