"""discharge VCs with z3, then (for what is left) cvc5; forked workers, one VC at a time"""
import os, time, subprocess, tempfile, multiprocessing as mp
import z3
from vcg import *

CVC5 = os.environ.get('VCG_CVC5', 'cvc5')


def z3_check(facts, goal, ms, seed=0, opts=()):
    """in a context of its own: the search depends on this obligation only, not on what was built before"""
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', ms)
    if seed:
        s.set('random_seed', seed)
    for k, v in opts:
        s.set(k, v)
    for f in facts:
        s.add(f.translate(ctx))
    s.add(z3.Not(goal.translate(ctx)))
    r = s.check()
    return r, s


def cvc5_check(s, ms):
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-logic ALL)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([CVC5, '--tlimit=%d' % ms, '--full-saturate-quant', f.name], capture_output=True, text=True, timeout=ms / 1000 + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


def one(vc, budget, effort=0):
    """first attempt: three short searches"""
    t = time.time()
    if z3.is_true(z3.simplify(vc.goal)):
        return ('proved', 'simplifier', time.time() - t, '')
    why = ''
    for seed, opts in ((0, ()), (4, (('smt.relevancy', 0),)), (0, (('smt.mbqi', False),))):
        r, s = z3_check(vc.facts, vc.goal, min(budget, 1500), seed, opts)
        if r == z3.unsat:
            return ('proved', 'z3', time.time() - t, '')
        if r == z3.sat:
            return ('refuted', 'z3', time.time() - t, model_str(s.model()))
        why = s.reason_unknown()
    return ('unknown', 'z3', time.time() - t, why)


def merge_conds(facts):
    out = []
    for f in facts:
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
            c = f.arg(0)
            if z3.is_not(c):
                c = c.arg(0)
            if not any(c.eq(x) for x in out):
                out.append(c)
    return out


def split(vc, budget):
    """prove the goal separately for each way the joined paths were taken (last joins first)"""
    conds = merge_conds(vc.facts)[-3:]
    if not conds:
        return False

    def go(facts, goal, cs, ms):
        r, s = z3_check(facts, goal, ms)
        if r == z3.unsat:
            return True
        if r == z3.sat or not cs:
            return z3_check(facts, goal, budget, 3, (('smt.mbqi', False),))[0] == z3.unsat if not cs and r != z3.sat else False
        c = cs[-1]
        for val in (z3.BoolVal(True), z3.BoolVal(False)):
            sub = [(c, val)]
            f2 = [z3.simplify(z3.substitute(f, *sub)) for f in facts]
            f2 = [f for f in f2 if not z3.is_true(f)] + [c if z3.is_true(val) else z3.Not(c)]
            if not go(f2, z3.simplify(z3.substitute(goal, *sub)), cs[:-1], ms):
                return False
        return True
    return go(vc.facts, vc.goal, conds, min(budget, 3000))


def model_str(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and str(d.range()) in ('Int', 'Bool', 'Ptr', 'P'):
            out.append('%s = %s' % (d.name(), m[d]))
    return '\n'.join(sorted(out)[:120])


def attempt(vc, goal, k, budget):
    """one member of the portfolio"""
    t = time.time()
    seed, opts = VARIANTS[k]
    if opts == 'split':
        ok = split(vc, budget)
        return ('proved' if ok else 'unknown', 'z3', time.time() - t, 'case split')
    if opts == 'cvc5':
        s = z3.Solver()
        for f in vc.facts:
            s.add(f)
        s.add(z3.Not(goal))
        r = cvc5_check(s, budget)
        return ('proved' if r == 'unsat' else 'refuted' if r == 'sat' else 'unknown', 'cvc5', time.time() - t, '')
    r, s = z3_check(vc.facts, goal, budget, seed, opts)
    return ('proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown', 'z3', time.time() - t, model_str(s.model()) if r == z3.sat else '')


def prove_all(vcs, budget=20000, jobs=None, deadline=None):
    """list of (status, solver, seconds, info) in VC order; forked workers with a hard limit.
    First short attempts at everything; then a portfolio of searches for what is left; then the same for every
    conjunct of the goal on its own, with more time."""
    jobs = jobs or min(8, os.cpu_count() or 4)
    res = [None] * len(vcs)
    CH = 8
    for i, v in pool(lambda i: one(vcs[i], budget), [list(range(i, min(i + CH, len(vcs)))) for i in range(0, len(vcs), CH)], jobs, 30, deadline):
        res[i] = v

    def portfolio(goals, ms):
        """goals: {key: (vc, goal)} -> {key: result}"""
        order = [(key, k) for k in range(len(VARIANTS)) for key in goals if VARIANTS[k][1] != 'split' or not isinstance(key, tuple)]
        out, settled = {}, set()
        for n, v in pool(lambda n: attempt(goals[order[n][0]][0], goals[order[n][0]][1], order[n][1], ms), [[n] for n in range(len(order))], jobs, ms / 1000 * 4 + 20, deadline, lambda ch: order[ch[0]][0] in settled):
            key = order[n][0]
            if v[0] != 'unknown' and out.get(key, ('unknown',))[0] == 'unknown':
                out[key] = v
                settled.add(key)
        return out
    rest = [i for i in range(len(vcs)) if res[i] is None or res[i][0] == 'unknown']
    if rest:
        t = time.time()
        for i, v in portfolio({i: (vcs[i], vcs[i].goal) for i in rest}, min(budget, 8000)).items():
            res[i] = (v[0], v[1], v[2] + (res[i][2] if res[i] else 0), v[3])
    rest = [i for i in range(len(vcs)) if res[i] is None or res[i][0] == 'unknown']
    late = deadline is not None and time.time() > deadline
    if rest and len(rest) <= 40 and not late:
        parts = {(i, j): (vcs[i], g) for i in rest for j, g in enumerate(conjuncts(vcs[i].goal))}
        t = time.time()
        done = portfolio(parts, int(budget * 1.5))
        for i in rest:
            ps = [done.get(k) for k in parts if k[0] == i]
            if all(p and p[0] == 'proved' for p in ps):
                res[i] = ('proved', ps[0][1], (res[i] or (0, 0, 0.0))[2] + sum(p[2] for p in ps), 'by conjuncts')
            elif any(p and p[0] == 'refuted' for p in ps):
                res[i] = next(p for p in ps if p and p[0] == 'refuted')
    # what the searches were not finished for is undecided, not refuted
    return [x if x is not None and not (late and x[0] == 'unknown') else ('unfinished', 'timeout', 0.0, 'time limit of the check') for x in res]


VARIANTS = [(1, ()), (2, (('smt.mbqi', False),)), (3, (('smt.mbqi', False), ('smt.arith.solver', 2))), (4, (('smt.relevancy', 0),)), (5, (('smt.arith.solver', 2),)), (6, (('smt.mbqi', False), ('smt.qi.eager_threshold', 50.0))), (0, 'split'), (0, 'cvc5'), (0, ())]


def conjuncts(g):
    """goal -> goals whose conjunction it is"""
    if z3.is_and(g):
        return [x for a in g.children() for x in conjuncts(a)]
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
        return [z3.Implies(g.arg(0), x) for x in conjuncts(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const('%s!q%d' % (g.var_name(k), k), g.var_sort(k)) for k in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        return conjuncts(body)       # proving for fresh constants is proving for all
    if z3.is_eq(g) and z3.is_bool(g.arg(0)):
        return conjuncts(z3.Implies(g.arg(0), g.arg(1))) + conjuncts(z3.Implies(g.arg(1), g.arg(0)))
    return [g]


def pool(fn, chunks, jobs, hard, deadline=None, skip=None):
    """run fn over chunks of indices in forked workers; yields (index, result)"""
    ctx = mp.get_context('fork')

    def work(ch, conn):
        for i in ch:
            try:
                conn.send((i, fn(i)))
            except Exception as e:
                conn.send((i, ('unknown', 'error', 0.0, repr(e))))
        conn.close()
        os._exit(0)
    running = []
    qi = 0
    while qi < len(chunks) or running:
        while qi < len(chunks) and len(running) < jobs:
            if skip and skip(chunks[qi]):
                qi += 1
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(chunks[qi], b))
            p.start()
            b.close()
            running.append([p, a, time.time(), chunks[qi]])
            qi += 1
        done = []
        for r in running:
            try:
                while r[1].poll(0):
                    yield r[1].recv()
                    r[2] = time.time()
            except EOFError:
                done.append(r)
                continue
            if time.time() - r[2] > hard or (skip and skip(r[3])) or (deadline and time.time() > deadline):
                r[0].kill()
                done.append(r)
        for r in done:
            r[0].join()
            running.remove(r)
        time.sleep(0.005)


def probe_all(factsets, ms=3000):
    out = [True] * len(factsets)
    for i, v in pool(lambda i: probe(factsets[i], ms), [[i] for i in range(len(factsets))], 8, ms / 1000 + 20):
        if v is False:
            out[i] = False
    return out


def probe(facts, ms=3000):
    """reachability: True if not refuted (sat or unknown), False if the facts are contradictory"""
    s = z3.Solver()
    s.set('timeout', ms)
    for f in facts:
        s.add(f)
    return s.check() != z3.unsat
