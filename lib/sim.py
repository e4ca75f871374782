"""all ranks of the real library as fibers of one process under adversarial scheduling (bounded stand-in)"""
import os, re, glob, subprocess
from concurrent.futures import ThreadPoolExecutor
import runner

WRAP = ['ext_mpi_min_cost_total', 'ext_mpi_exec_native', 'ext_mpi_read_bench', 'ext_mpi_delete_bench']
# (seed, fewest ranks, most ranks)
RUNS = [(1, 2, 8), (2, 2, 8), (3, 2, 12), (4, 2, 12), (5, 4, 16), (6, 4, 16), (7, 9, 24), (8, 9, 24)]
SECS = {'quick': 45, 'thorough': 300}


def build(ctx, cflags=()):
    R, T = runner.REPO, ctx.tmp + '/sim'
    os.makedirs(T, exist_ok=True)
    open(T + '/latency_bandwidth.tmp', 'w').write(subprocess.run(['bash', R + '/minclude.sh', R + '/latency_bandwidth/ext_mpi_bm.txt'], stdout=subprocess.PIPE, text=True, cwd=T).stdout)
    lib = [f for f in sorted(glob.glob(R + '/src/core/*.c') + glob.glob(R + '/src/mpi/*.c')) if not re.search('ext_mpi_interface|hash_table|blocking', f)] + [R + '/src/noopt/read_bench.c']

    def one(f):
        return subprocess.run(['mpicc', '-I' + T, '-g', '-O2', '-w', '-DDEBUG', '-DM_MAP', '-fno-pie', '-fno-common', '-I' + R + '/include/core', '-I' + R + '/include/mpi', *cflags, '-c', f, '-o', '%s/%s.o' % (T, os.path.basename(f))],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    src = lib + [runner.ROOT + '/harness/sim.c']
    with ThreadPoolExecutor(8) as ex:
        for f, r in zip(src, ex.map(one, src)):
            if r.returncode:
                return None, '%s: %s' % (f, r.stdout[-800:])
    objs = ['%s/%s.o' % (T, os.path.basename(f)) for f in lib]
    for cmd in (['ld', '-r'] + ['--wrap=' + w for w in WRAP] + ['-o', T + '/lib.o'] + objs,
                ['objcopy', '--set-section-flags', '.bss=alloc,load,contents', '--rename-section', '.bss=libbss', '--rename-section', '.data=libdata', T + '/lib.o'],
                ['mpicc', *cflags, '-no-pie', T + '/sim.c.o', T + '/lib.o', '-Wl,' + ','.join('--wrap=' + w for w in WRAP), '-o', T + '/sim', '-lm', '-lrt']):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, r.stdout[-800:]
    return T + '/sim', ''


def session(ctx, exe, seed, lo, hi, first, last, secs, opts=()):
    log = '%s/log_%d_%d_%d_%d' % (ctx.tmp, seed, lo, hi, first)
    open(log, 'w').close()
    try:
        p = subprocess.run([exe, str(seed), str(first), str(last), str(secs), log, str(lo), str(hi)] + list(opts), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 120, cwd=ctx.tmp)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = 'timeout'
    txt = open(log, errors='replace').read()
    os.unlink(log)
    m = re.search(r'^END (\d+)', txt, re.M)
    if rc == 0 and m:
        return 'ok', int(m.group(1)), ''
    idx = [int(x) for x in re.findall(r'^(?:CFG|DIFF) (\d+)', txt, re.M)]
    i = max(idx) if idx else first
    return ('diff' if 'DIFF' in txt else 'hang' if rc == 'timeout' else 'crash'), i, '\n'.join(re.findall(r'^(?:CFG|DIFF|RUN|PORTS).*$', txt, re.M)[-10:])


def run(ctx, u):
    exe, err = build(ctx)
    if not exe:
        return {'status': 'undecided', 'msg': 'does not build: ' + err}
    secs = SECS[ctx.tier]
    total, samples = 0, []
    with ThreadPoolExecutor(len(RUNS)) as ex:
        res = list(ex.map(lambda r: session(ctx, exe, r[0], r[1], r[2], 0, 1 << 30, secs), RUNS))
    for (seed, lo, hi), (st, i, txt) in zip(RUNS, res):
        total += i
        samples.append({'seed': seed, 'ranks': [lo, hi], 'configurations': i})
    for (seed, lo, hi), (st, i, txt) in zip(RUNS, res):
        if st == 'ok':
            continue
        again = session(ctx, exe, seed, lo, hi, i, i + 1, 60)
        if again[0] == 'ok':
            # a configuration does not depend on the ones before it
            return {'status': 'undecided', 'msg': '%s at configuration %d of seed %d, not repeatable' % (st, i, seed), 'runs': total}
        m = re.search(r'^DIFF \d+ (.*)$', again[2], re.M)
        return {'status': 'fail', 'msg': 'simulated ranks: %s' % (m.group(1) if m else st), 'input': [str(seed), str(lo), str(hi), str(i)], 'out': again[2], 'runs': total, 'samples': samples}
    return {'status': 'ok', 'runs': total, 'samples': samples}


def replay(ctx, inp):
    exe, err = build(ctx)
    seed, lo, hi, i = (int(x) for x in inp[:4])
    st, j, txt = session(ctx, exe, seed, lo, hi, i, i + 1, 60)
    return st, txt
