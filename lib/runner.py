"""runs the units of one property, decides, writes evidence and replay files

unit kinds
  Vcg     functions of a spec module; every obligation generated from the current source must be discharged
  Cbmc    one harness function; complete (level 'proof') when it has no input-length bound, else 'bounded'
  Native  the same contract executed on the compiled code over enumerated / random inputs: supplies the
          failing input when a proof breaks, and stands in (labelled bounded) where no proof is within reach
"""
import os, sys, re, json, time, subprocess, tempfile, shutil, importlib, traceback, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [ROOT + '/vcg', ROOT + '/specs']
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Unit:
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)


class Vcg(Unit):
    """spec: module in specs/ with units(); only: function names (None = all); budget: ms per obligation"""
    def __init__(self, name, spec, only=None, budget=20000, skip=()):
        super().__init__(name, spec=spec, only=only, budget=budget, skip=skip)


class Cbmc(Unit):
    def __init__(self, name, src, func, unwind=None, defs=(), kind='proof', bound=None, covers=None, flags=(), unwindset=(), timeout=400, link=(), thorough=None, functions=(), tier=None, mpi='fake'):
        super().__init__(name, mpi=mpi, src=src, func=func, unwind=unwind, defs=list(defs), kind=kind, bound=bound, flags=list(flags),
                         unwindset=list(unwindset), timeout=timeout, link=list(link), functions=list(functions), tier=tier)


class Native(Unit):
    """modes: list of (mode, quick seconds, thorough seconds)"""
    def __init__(self, name, src, modes=(('random', 5, 60),), defs=(), bound='', link=(), functions=(), san='address,undefined', cflags=(), opt='-O1', standin=False, maxruns=None):
        super().__init__(name, src=src, modes=modes, defs=list(defs), bound=bound, link=list(link), functions=list(functions), san=san,
                         cflags=list(cflags), opt=opt, standin=standin, maxruns=maxruns)


class Script(Unit):
    """python function(ctx) -> dict(status='ok'|'fail'|'undecided', runs=, msg=, input=, samples=); for native stand-ins that are not C harnesses"""
    def __init__(self, name, fn, bound='', functions=(), standin=True, replay=None):
        super().__init__(name, fn=fn, replay=replay, bound=bound, functions=list(functions), standin=standin)


MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
MPI_LIB = ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi']
INC = ['-I' + ROOT + '/harness', '-I' + REPO + '/include/core', '-I' + REPO + '/include/mpi', '-I' + REPO, '-DDEBUG', '-DM_MAP']


def log(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, prop, units, tier, extra=None):
        self.prop, self.units, self.tier, self.extra = prop, units, tier, extra or {}
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vrf_%s_' % prop)
        self.ob = self.dis = 0
        self.backend = {}
        self.solver_s = 0.0
        self.functions = []
        self.failed = []        # dict(unit, what, out)
        self.undecided = []
        self.violations = []    # dict(unit, msg, input)
        self.bounded = []
        self.assumptions = set()
        self.inlined = set()
        self.samples = []
        self.lock = threading.Lock()
        self.natbin = {}
        self.commands = set()

    # ---------------------------------------------------------------- native
    def build(self, u, extra=()):
        key = (u.src, tuple(u.defs), tuple(extra))
        with self.lock:
            if key in self.natbin:
                return self.natbin[key]
        exe = '%s/n_%s_%d' % (self.tmp, re.sub(r'\W', '_', u.name), len(self.natbin))
        san = getattr(u, 'san', 'address,undefined')
        cmd = ['gcc', '-g', getattr(u, 'opt', '-O1'), '-w', '-fno-strict-aliasing', '-fwrapv-pointer' if False else '-w'] + (['-fsanitize=' + san, '-fno-sanitize-recover=all', '-fno-sanitize=alignment'] if san else []) + \
            INC + MPI_INC + ['-D' + d for d in u.defs] + list(getattr(u, 'cflags', [])) + [ROOT + '/harness/' + u.src] + \
            [x if x.startswith('-') or x.startswith('/') else (REPO + '/' + x if x.startswith('src/') else ROOT + '/harness/' + x) for x in u.link] + ['-o', exe, '-lm'] + MPI_LIB
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            exe = None
            err = r.stderr[-1500:]
        else:
            err = ''
        with self.lock:
            self.natbin[key] = (exe, err)
        return exe, err

    def env(self):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=78'
        return e

    def native_exec(self, exe, args, timeout):
        try:
            r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=self.env(), cwd=self.tmp, errors='replace')
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            return None, '', 'timeout'

    def run_native(self, u):
        exe, err = self.build(u)
        if exe is None:
            self.undecided.append({'unit': u.name, 'why': 'harness does not build against the current source: ' + err[-600:]})
            return
        for m in u.modes:
            secs = m[1] if self.tier == 'quick' else m[2]
            if not secs:
                continue
            args = [m[0], secs, SEED] + ([u.maxruns] if u.maxruns else [])
            t = time.time()
            rc, out, errs = self.native_exec(exe, args, secs + 90)
            res = dict(re.findall(r'(\w+)=(\S+)', next((l for l in out.split('\n') if l.startswith('RESULT')), '')))
            rec = {'unit': u.name, 'mode': m[0], 'bound': u.bound, 'cases': int(res.get('runs', 0)), 'contract_clauses_checked': int(res.get('checks', 0)),
                   'space_exhausted': res.get('complete') == '1', 'status': res.get('status', 'no result'), 'seconds': round(time.time() - t, 1), 'functions': u.functions,
                   'role': 'bounded stand-in' if u.standin else 'counterexample search beside the proof'}
            self.bounded.append(rec)
            if res.get('status') == 'fail':
                inp = next((l for l in out.split('\n') if l.startswith('INPUT')), 'INPUT').split()[1:]
                names = next((l for l in out.split('\n') if l.startswith('NAMES')), '')[6:]
                msg = next((l for l in out.split('\n') if l.startswith('MSG')), 'MSG ?')[4:]
                rc2, out2, err2 = self.native_exec(exe, ['replay'] + inp, 120)
                ok = 'status=fail' in out2
                if not ok and m[0] == 'exhaustive':
                    pass
                self.violations.append({'unit': u.name, 'msg': msg, 'input': inp, 'names': names, 'replayed': ok, 'out': (err2 or errs)[-5000:], 'src': u.src, 'defs': u.defs,
                                        'cmdargs': args})
                return
            if rc is None or not res:
                self.undecided.append({'unit': u.name, 'why': 'no result from the harness (rc=%s) %s' % (rc, errs[-300:])})
                return

    # ---------------------------------------------------------------- cbmc
    def run_cbmc(self, u):
        t = time.time()
        cmd = ['cbmc', ROOT + '/harness/' + u.src, '--function', u.func, '--object-bits', '10', '--drop-unused-functions', '--no-malloc-may-fail',
               '--bounds-check', '--pointer-check', '--signed-overflow-check', '--div-by-zero-check', '--undefined-shift-check', '--no-standard-checks' if False else '--unwinding-assertions',
               ] + (['-I', ROOT + '/vcg/fakeinc'] if u.mpi == 'fake' else MPI_INC) + [x for i in INC for x in ([i] if not i.startswith('-I') else ['-I', i[2:]])] + ['-D' + d for d in u.defs] + list(u.flags)
        if u.unwind is not None:
            cmd += ['--unwind', str(u.unwind)]
        if u.unwindset:
            cmd += ['--unwindset', ','.join(u.unwindset)]
        cmd += [REPO + '/' + x if x.startswith('src/') else ROOT + '/harness/' + x for x in u.link if not x.startswith('-')]
        self.commands.add('cbmc <harness> --function <f> --unwinding-assertions [CBMC 6.11, SAT back end]')
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=u.timeout)
            out = r.stdout
        except subprocess.TimeoutExpired:
            self.undecided.append({'unit': u.name, 'why': 'cbmc time limit'})
            return
        props = re.findall(r'^\[([^\]]+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', out, re.M)
        if not props:
            self.undecided.append({'unit': u.name, 'why': 'cbmc: ' + (out + r.stderr)[-800:]})
            return
        covers = [p for p in props if 'COVER ' in p[1] and p[0].startswith(u.func + '.')]
        obs = [p for p in props if 'COVER ' not in p[1]]
        fails = [p for p in obs if p[2] != 'SUCCESS']
        dt = time.time() - t
        vac = [c for c in covers if c[2] != 'FAILURE']
        with self.lock:
            self.solver_s += dt
        if (not covers or vac) and not any('unwinding assertion' in p[1] for p in fails):
            self.undecided.append({'unit': u.name, 'why': 'vacuous: cover point not reachable: %s' % [c[1] for c in vac]})
            return
        unw = [p for p in fails if 'unwinding assertion' in p[1] or 'recursion' in p[1]]
        real = [p for p in fails if p not in unw]
        rec = {'unit': u.name, 'functions': u.functions, 'obligations': len(obs), 'discharged': len(obs) - len(fails), 'backend': 'cbmc 6.11 (minisat)', 'seconds': round(dt, 1),
               'kind': u.kind, 'bound': u.bound or 'none: symbolic over the full domain, all loops unrolled completely', 'cover_points_reached': len(covers)}
        with self.lock:
            if u.kind == 'proof':
                self.ob += len(obs)
                self.dis += len(obs) - len(fails)
                self.backend['cbmc'] = self.backend.get('cbmc', 0) + len(obs) - len(fails)
                self.functions.append(rec)
            else:
                rec['status'] = 'ok' if not fails else 'fail'
                rec['role'] = 'bounded stand-in'
                self.bounded.append(rec)
        if real:
            # counterexample -> replay against the compiled code
            what = ['%s %s' % (p[0], p[1]) for p in real]
            inp, tr = self.cbmc_trace(cmd, u, real)
            self.failed.append({'unit': u.name, 'what': what, 'out': tr[-6000:], 'kind': 'cbmc', 'strong': True})
            if inp is not None:
                exe, err = self.build(u)
                if exe:
                    rc2, out2, err2 = self.native_exec(exe, ['replay'] + inp, 120)
                    if 'status=fail' in out2:
                        msg = next((l for l in out2.split('\n') if l.startswith('MSG')), 'MSG ?')[4:]
                        self.violations.append({'unit': u.name, 'msg': '%s (CBMC counterexample to %s)' % (msg, what[0]), 'input': inp, 'names': '', 'replayed': True, 'out': err2[-5000:], 'src': u.src, 'defs': u.defs, 'cmdargs': []})
        elif unw:
            self.undecided.append({'unit': u.name, 'why': 'loops exceed the unwinding: %s' % [p[0] for p in unw][:3]})

    def cbmc_trace(self, cmd, u, real):
        try:
            r = subprocess.run(cmd + ['--trace', '--property', real[0][0]], capture_output=True, text=True, timeout=u.timeout)
        except subprocess.TimeoutExpired:
            return None, ''
        vals = {}
        for m in re.finditer(r'^\s*vh_in\[(\d+)l*\]=(-?\d+)', r.stdout, re.M):
            vals[int(m.group(1))] = int(m.group(2))
        if not vals:
            return None, r.stdout
        return [str(vals.get(i, 0)) for i in range(max(vals) + 1)], r.stdout

    # ---------------------------------------------------------------- vcg
    def run_vcg(self, u):
        import vcg, prove
        try:
            mod = importlib.import_module(u.spec)
            units = mod.units()
        except Exception as e:
            self.undecided.append({'unit': u.name, 'why': 'spec: %r' % e})
            return
        lem = [vcg.VC('lemma', a, 0, b, c, 'lemma') for a, b, c in mod.lemmas()] if hasattr(mod, 'lemmas') else []
        if lem:
            t = time.time()
            res = prove.prove_all(lem, u.budget)
            ok = [r for r in res if r[0] == 'proved']
            self.ob += len(lem)
            self.dis += len(ok)
            for r in ok:
                self.backend[r[1]] = self.backend.get(r[1], 0) + 1
            self.functions.append({'function': 'lemmas of specs/%s.py' % u.spec, 'obligations': len(lem), 'discharged': len(ok), 'seconds': round(time.time() - t, 1), 'backend': 'z3/cvc5'})
            if len(ok) < len(lem):
                self.undecided.append({'unit': u.name, 'why': 'lemma not proved'})
                return
        todo = []
        for f, C, fn in units:
            if u.only and fn not in u.only or fn in u.skip:
                continue
            label = '%s:%s' % (f, fn) + (' [%s]' % C['#case'] if '#case' in C else '')
            try:
                tu = vcg.TU.get(vcg.REPO + '/' + f, tuple(getattr(mod, 'DEFINES', ())))
                ex = vcg.Exec(tu, C, fn)
                vcs = ex.verify()
            except (vcg.AttachError, vcg.Unsupported, KeyError) as e:
                self.undecided.append({'unit': u.name, 'function': label, 'why': 'contract does not attach: %s' % e})
                continue
            except Exception as e:
                self.undecided.append({'unit': u.name, 'function': label, 'why': 'generator: %s' % (traceback.format_exc()[-400:])})
                continue
            if not vcs:
                self.undecided.append({'unit': u.name, 'function': label, 'why': 'no obligations generated'})
                continue
            todo.append((label, C, ex, vcs))
        allv = [v for x in todo for v in x[3]]
        known = load_known()
        settled = any(not any(k['property'] == self.prop and k['unit'] == v['unit'] and k['clause'] in v['msg'] for k in known) for v in self.violations)
        limit = self.t0 + (480 if self.tier == 'quick' else 3000)
        allr = prove.prove_all(allv, u.budget, deadline=min(limit, time.time() + 60) if settled else limit)
        probes = prove.probe_all([facts for x in todo for nm, facts in x[2].probes])
        at = pt = 0
        for label, C, ex, vcs in todo:
            res = allr[at:at + len(vcs)]
            at += len(vcs)
            pr = probes[pt:pt + len(ex.probes)]
            pt += len(ex.probes)
            if not pr[0] or not any(pr[1:]):
                self.undecided.append({'unit': u.name, 'function': label, 'why': 'vacuous: precondition contradictory or no return reachable'})
                continue
            n = len(vcs)
            bad = [(v, r) for v, r in zip(vcs, res) if r[0] != 'proved']
            self.ob += n
            self.dis += n - len(bad)
            for v, r in zip(vcs, res):
                if r[0] == 'proved':
                    self.backend[r[1]] = self.backend.get(r[1], 0) + 1
                self.solver_s += r[2]
            kinds = {}
            for v in vcs:
                kinds[v.kind] = kinds.get(v.kind, 0) + 1
            self.functions.append({'function': label, 'obligations': n, 'discharged': n - len(bad), 'by_kind': kinds, 'solver_seconds': round(sum(r[2] for r in res), 1),
                                   'backend': 'vcg + z3/cvc5', 'inlined': sorted(ex.inlined), 'reachability_probes': len(ex.probes)})
            self.assumptions |= set(ex.assumptions)
            for c in ex.calls:
                if c in C and C[c].trusted:
                    self.assumptions.add('assumed contract: %s' % c)
            self.samples.append({'function': label, 'obligation': next((v.name for v in vcs if v.kind == 'post'), vcs[0].name), 'line': vcs[0].line})
            late = [v for v, r in bad if r[0] == 'unfinished']
            bad = [(v, r) for v, r in bad if r[0] != 'unfinished']
            if late:
                self.undecided.append({'unit': u.name, 'function': label, 'why': 'time limit: %d obligations not settled, first: %s' % (len(late), late[0].name)})
            if bad:
                self.failed.append({'unit': u.name, 'kind': 'vcg', 'strong': any(r[0] == 'refuted' for v, r in bad),
                                    'what': ['%s line %d: %s [%s by %s]' % (label, v.line, v.name, r[0], r[1]) for v, r in bad],
                                    'out': '\n\n'.join('%s\n%s' % (v.name, r[3]) for v, r in bad)[:8000]})
        self.commands.add('python3-vt check.py %s (vcg -> z3 5.3.2, cvc5 1.1.2)' % self.prop)

    # ---------------------------------------------------------------- all
    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _run(self):
        fast = [u for u in self.units if isinstance(u, (Native, Cbmc, Script)) and not (getattr(u, 'tier', None) == 'thorough' and self.tier == 'quick')]
        with ThreadPoolExecutor(8) as ex:
            fs = []
            for u in fast:
                fs.append((u, ex.submit(self.run_native if isinstance(u, Native) else self.run_cbmc if isinstance(u, Cbmc) else self.run_script, u)))
            for u, f in fs:
                try:
                    f.result()
                except Exception:
                    self.undecided.append({'unit': u.name, 'why': traceback.format_exc()[-600:]})
        for u in self.units:
            if isinstance(u, Vcg):
                self.run_vcg(u)
        return self.finish()

    def run_script(self, u):
        t = time.time()
        r = u.fn(self, u)
        self.bounded.append({'unit': u.name, 'mode': 'script', 'bound': u.bound, 'cases': r.get('runs', 0), 'status': r['status'], 'seconds': round(time.time() - t, 1), 'functions': u.functions,
                             'role': 'bounded stand-in' if u.standin else 'counterexample search beside the proof', **({'samples': r['samples']} if 'samples' in r else {})})
        for x in r.get('extra', []):
            self.violations.append({'unit': u.name, 'msg': x['msg'], 'input': x.get('input', []), 'names': '', 'replayed': True, 'out': x.get('out', ''), 'src': '', 'defs': [], 'cmdargs': []})
        if r['status'] == 'fail':
            self.violations.append({'unit': u.name, 'msg': r['msg'], 'input': r.get('input', []), 'names': '', 'replayed': True, 'out': r.get('out', ''), 'src': r.get('src', ''), 'defs': [], 'cmdargs': []})
        elif r['status'] == 'undecided':
            self.undecided.append({'unit': u.name, 'why': r.get('msg', '')})

    def finish(self):
        known = load_known()
        os.makedirs(ROOT + '/out/replay', exist_ok=True)
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        viol, kf = [], []
        for v in self.violations:
            k = next((k for k in known if k['property'] == self.prop and k['unit'] == v['unit'] and k['clause'] in v['msg']), None)
            (kf if k else viol).append((v, k))
        for v, k in kf:
            log('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        rc = 0
        nviol = 0
        if viol:
            v = viol[0][0]
            path = '%s/out/replay/%s.txt' % (ROOT, self.prop)
            with open(path, 'w') as f:
                f.write('property %s\nunit %s\nclause %s\nharness %s defines %s\ninput %s\nnamed %s\nreproduced by a second run: %s\n' % (self.prop, v['unit'], v['msg'], v['src'], ' '.join(v['defs']), ' '.join(v['input']), v['names'], v['replayed']))
                f.write('to replay: python3-vt %s/check.py %s --replay %s\n\noutput of the replay\n%s\n' % (ROOT, self.prop, path, v['out']))
                for o in [x[0] for x in viol[1:]]:
                    f.write('\nalso: unit %s clause %s input %s\n' % (o['unit'], o['msg'], ' '.join(o['input'])))
                for o in self.failed:
                    f.write('\nfailed obligations (%s):\n  %s\n' % (o['unit'], '\n  '.join(o['what'][:40])))
            log('violation: unit %s: %s; input %s' % (v['unit'], v['msg'], v['names'] or ' '.join(v['input'])))
            log('VIOLATION property=%s replay=%s' % (self.prop, path))
            rc, nviol = 1, len(viol)
        elif self.failed:
            path = '%s/out/replay/%s.txt' % (ROOT, self.prop)
            with open(path, 'w') as f:
                f.write('property %s\nno failing input found; the obligations below were discharged on the unchanged tree and are not any more\n' % self.prop)
                for o in self.failed:
                    f.write('\nunit %s\n  %s\n\nverifier output\n%s\n' % (o['unit'], '\n  '.join(o['what'][:60]), o['out']))
            for o in self.failed:
                for w in o['what'][:5]:
                    log('not discharged:', w)
            log('VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, path))
            rc, nviol = 1, len(self.failed)
        for x in self.undecided:
            log('UNDECIDED', json.dumps(x)[:700])
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': self.extra.get('level', 'proof'), 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol,
              'assumptions': sorted(self.assumptions | set(self.extra.get('assumptions', []))),
              'coverage': {'obligations': self.ob, 'discharged': self.dis, 'checker_cmd': '; '.join(sorted(self.commands)) or 'none',
                           'trusted_base': self.extra.get('trusted', []) + ['vcg (the VC generator in /verif/vcg), pycparser, gcc -E', 'z3 5.3.2, cvc5 1.1.2', 'cbmc 6.11.0'],
                           'functions_under_contract': self.functions, 'discharged_by': self.backend, 'solver_seconds': round(self.solver_s, 1),
                           'bounded': self.bounded, 'evaluations': sum(b.get('cases', 0) for b in self.bounded),
                           'undecided': self.undecided, 'failed_obligations': [w for o in self.failed for w in o['what']], 'samples': self.samples[:6],
                           'explanation': self.extra.get('explanation', '')}}
        with open('%s/evidence/%s.json' % (ROOT, self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
        log('%s %s: %d obligations, %d discharged, %d bounded runs (%d cases), %d undecided, %.1fs' % (self.prop, self.tier, self.ob, self.dis, len(self.bounded), sum(b.get('cases', 0) for b in self.bounded), len(self.undecided), time.time() - self.t0))
        return rc


def load_known():
    out = []
    p = ROOT + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) unit=(\S+) clause="([^"]*)" (.*)', l)
            if m:
                out.append({'property': m.group(1), 'unit': m.group(2), 'clause': m.group(3), 'text': m.group(4)})
    return out


def replay(prop, units, path):
    txt = open(path).read()
    m = re.search(r'^unit (.*)$', txt, re.M)
    i = re.search(r'^input (.*)$', txt, re.M)
    if not i:
        print(txt)
        return 0
    r = Run(prop, units, 'quick')
    try:
        u = next(x for x in units if x.name == m.group(1))
        if isinstance(u, Script):
            st, out = u.replay(r, i.group(1).split())
            print(out, st)
            return 0 if st == 'ok' else 1
        exe, err = r.build(u)
        rc, out, errs = r.native_exec(exe, ['replay'] + i.group(1).split(), 120)
        print(out, errs)
        return 1 if 'status=fail' in out else 0
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
