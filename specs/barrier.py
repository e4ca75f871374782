"""contracts of the barriers in ext_mpi_native_exec.c, and the argument that nobody leaves before all have entered.

Shared slots are read through volatile loads: every load yields any value the other ranks may have written
(rely: at most 2^30 away from the own counter), and $seen remembers the value last observed at each location."""
from vcg import *

P = z3.Function('pow2', z3.IntSort(), z3.IntSort())
SA = z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
J, K = z3.Ints('j k')
LINE = 16                      # CACHE_LINE_SIZE / sizeof(int): one slot per cache line


def pow_axioms():
    """definition, for the lemmas"""
    return [P(0) == 1, z3.ForAll([K], z3.Implies(K >= 0, z3.And(P(K + 1) == 2 * P(K))), patterns=[P(K + 1)])]


def pow_facts(*ks):
    """instances of the definition and of the lemmas, without matching loops"""
    return [P(0) == 1, z3.ForAll([K], z3.Implies(K >= 0, z3.And(P(K) >= 1, P(K) >= K + 1)), patterns=[P(K)]), mono(), strict()] + [z3.Implies(k >= 0, P(k + 1) == 2 * P(k)) for k in ks] + [z3.Implies(k >= 1, P(k) == 2 * P(k - 1)) for k in ks]


A_ = z3.Int('a')
MAX = 2**31 - 1


def mono():
    return z3.ForAll([A_, K], z3.Implies(z3.And(0 <= A_, A_ <= K), P(A_) <= P(K)), patterns=[z3.MultiPattern(P(A_), P(K))])


def strict():
    return z3.ForAll([A_, K], z3.Implies(z3.And(0 <= A_, A_ < K), P(A_) < P(K)), patterns=[z3.MultiPattern(P(A_), P(K))])


def modne(r, a, b, n):
    return z3.Implies(z3.And(0 <= r, r < n, 0 <= a, a < b, b < n), (r + a) % n != (r + b) % n)


def modfact(x, n):
    return z3.Implies(n > 0, z3.And(0 <= x % n, x % n < n))


def lemmas():
    """powers of two are monotone; a remainder is in range; and the dissemination argument:
    W(q,k): rank q has announced step k or a later one of this barrier (slot >= start + k); E(q): rank q has entered.
    Ranks are taken modulo n by periodicity (W(q + n, k) = W(q, k)), so the partner of step k is q + 2^k."""
    ax = pow_axioms()
    out = [('powers of two exceed their exponent: base', ax, P(I(0)) >= 1), ('powers of two exceed their exponent: step', ax + [K >= 0, P(K) >= K + 1], z3.And(P(K + 1) >= K + 2, P(K) >= 1)),
           ('powers of two are monotone: base', ax, P(A_) <= P(A_)),
           ('powers of two are monotone: step', ax + [P(K + 1) == 2 * P(K), P(K) >= 1, 0 <= A_, A_ <= K, P(A_) <= P(K)], P(A_) <= P(K + 1)),
           ('powers of two are strictly monotone', ax + [P(A_ + 1) == 2 * P(A_), P(A_) >= 1, 0 <= A_, A_ < K, z3.Implies(A_ + 1 <= K, P(A_ + 1) <= P(K))], P(A_) < P(K)),
           ('a remainder is in range', [], modfact(A_, K))]
    r, a, b, n = z3.Ints('r a b n')
    small = lambda x: z3.Implies(z3.And(0 <= x, x < 2 * n), x % n == z3.If(x < n, x, x - n))
    out += [('remainder of less than twice the divisor', [n > 0, 0 <= a, a < 2 * n], small(a)), ('partners of different steps differ', [small(r + a), small(r + b)], modne(r, a, b, n))]
    W = z3.Function('W', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    E = z3.Function('E', z3.IntSort(), z3.BoolSort())
    q, d, k, n, r = z3.Ints('q d k n r')
    # from the verified obligations on writes of the own slot: announcing step k+1 needs the own step k and the partner's step k observed
    rule = z3.ForAll([q, k], z3.Implies(z3.And(k >= 0, W(q, k + 1)), z3.And(W(q, k), W(q + P(k), k))), patterns=[W(q, k + 1)])
    ent = z3.ForAll([q], z3.Implies(W(q, 0), E(q)), patterns=[W(q, 0)])
    S = lambda kk: z3.ForAll([q, d], z3.Implies(z3.And(W(q, kk), 0 <= d, d < P(kk)), E(q + d)), patterns=[z3.MultiPattern(W(q, kk), E(q + d))])
    inst = lambda kk, qq, dd: z3.Implies(z3.And(W(qq, kk), 0 <= dd, dd < P(kk)), E(qq + dd))
    out.append(('whoever announces step k knows the 2^k ranks from itself on have entered: base', ax + [rule, ent], inst(I(0), r, d)))
    IH = [inst(k, r, d), inst(k, r + P(k), d - P(k))]
    out.append(('whoever announces step k knows the 2^k ranks from itself on have entered: step', ax + [rule, ent, k >= 0, P(k + 1) == 2 * P(k)] + IH, inst(k + 1, r, d)))
    # leaving: steps 0..m-1 passed with 2^m >= n, that is W(r, m-1) and the last partner's step m-1 observed
    m = z3.Int('m')
    out.append(('whoever leaves knows all n ranks have entered', ax + [rule, ent, m >= 1, P(m) >= n, W(r, m - 1), W(r + P(m - 1), m - 1),
                inst(m - 1, r, d), inst(m - 1, r + P(m - 1), d - P(m - 1)), P(m) == 2 * P(m - 1), 0 <= d, d < n], E(r + d)))
    return out


def seen(c, p):
    return z3.Select(z3.Select(c['$seen'], blk(p)), off(p))


def count0(c):
    o = c.old if c.old is not None else c
    return o.i4(o['barrier_count'])


def byval(c):
    return (c.old if c.old is not None else c)['barrier_count']


def node_partner(c, j):
    o = c.old if c.old is not None else c
    return padd(o.pp(o['shmem'], P(j)), o['socket_rank'] * LINE)


def sock_partner(c, j):
    o = c.old if c.old is not None else c
    return padd(o['shmem'], ((o['socket_rank'] + P(j)) % o['num_cores']) * LINE)


def node_own(c):
    o = c.old if c.old is not None else c
    return padd(o.pp(o['shmem'], 0), o['socket_rank'] * LINE)


def sock_own(c):
    o = c.old if c.old is not None else c
    return padd(o['shmem'], o['socket_rank'] * LINE)


def wrapped(x):
    """the int a counter holds after counting past its largest value"""
    return z3.If(x > MAX, x - 2 * (MAX + 1), x)


AHEAD, STEPS = z3.Function('ahead', z3.IntSort(), z3.IntSort(), z3.IntSort()), z3.Function('steps', z3.IntSort(), z3.IntSort(), z3.IntSort())


def ahead(a, b):
    """how far counter a is ahead of counter b, around the wraparound (b may lie up to 2^20 steps behind its last wraparound)"""
    return AHEAD(a, b)


def steps(a, b):
    """steps from counter b to counter a"""
    return STEPS(a, b)


def definitions():
    a, b = z3.Ints('a b')
    d = a - wrapped(b)
    return [z3.ForAll([a, b], AHEAD(a, b) == z3.If(d > MAX, d - 2 * (MAX + 1), z3.If(d < -MAX - 1, d + 2 * (MAX + 1), d)), patterns=[AHEAD(a, b)]),
            z3.ForAll([a, b], STEPS(a, b) == z3.If(a >= b, a - b, a - b + 2 * (MAX + 1)), patterns=[STEPS(a, b)])]


def passed(c, partner, c0, k):
    """the first k partners have been observed"""
    return z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k), ahead(seen(c, partner(c, J)), c0 + J) >= 0), patterns=[P(J)])


def make(node, test):
    partner, own = (node_partner, node_own) if node else (sock_partner, sock_own)
    N = 'num_sockets_per_node' if node else 'num_cores'
    c0f = byval if test else count0
    cur = (lambda c: c['barrier_count']) if test else (lambda c: c.i4(c.old['barrier_count']))

    def pre(c):
        r, n = c['socket_rank'], c[N]
        out = [('ranks', z3.And(0 <= r, 1 <= n, n <= 1 << 20, r < 1 << 20))]
        if node:
            t = z3.Int('t')
            s = c.pp(c['shmem'], t)
            out += [('table', c.valid(c['shmem'], n, 8)), ('table offset', off(c['shmem']) == 0),
                    ('segments', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(off(s) == 0, blk(s) > 0, c.valid(s, (r + 1) * LINE, 4))), patterns=[s]))]
            t2 = z3.Int('t2')
            s2 = c.pp(c['shmem'], t2)
            out += [('every socket has a segment of its own', z3.ForAll([t, t2], z3.Implies(z3.And(0 <= t, t < t2, t2 < n), blk(s) != blk(s2)), patterns=[z3.MultiPattern(s, s2)]))]
            sep = lambda b: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), blk(s) != b), patterns=[s])
        else:
            out += [('ranks', r < n), ('barrier area', z3.And(off(c['shmem']) == 0, blk(c['shmem']) > 0, c.valid(c['shmem'], n * LINE, 4)))]
            sep = lambda b: blk(c['shmem']) != b
        if test:
            pass
        else:
            bc = c['barrier_count']
            out += [('counter', z3.And(c.valid(bc, 1, 4), sep(blk(bc)))), ('the counter is an int', z3.And(c.i4(bc) >= -MAX - 1, c.i4(bc) <= MAX))]
        return out

    def regions(c):
        return [('int', None)]

    def inv(c):
        o, c0 = c.old, c0f(c)
        k = steps(cur(c), c0)
        out = [('number of partners', z3.And(k >= 0, k <= 1 << 20)), ('step is 2^k after k partners', c['step'] == P(k)),
               ('bounds', z3.And(z3.Or(k == 0, P(k - 1) < o[N]))),
               ('the first k partners have been observed', passed(c, partner, c0, k)),
               ('arguments unchanged', z3.And(c['socket_rank'] == o['socket_rank'], c[N] == o[N], c['shmem'] == o['shmem'])),
               ('shares nothing with the other ranks but the slots', c.st.mem.get('ptr') is None or True)]
        if not test:
            out += [('counter', c['barrier_count'] == o['barrier_count']), ('the counter is an int', z3.And(cur(c) >= -MAX - 1, cur(c) <= MAX))]
        return [x for x in out if not isinstance(x[1], bool)]

    def hints(c):
        o = c.old if c.old is not None else c
        out = definitions() + (pow_facts(steps(cur(c), c0f(c))) if c.old is not None else pow_facts())
        if node and not test and c.has('step'):     # instance of the precondition
            out.append(z3.Implies(z3.And(0 <= c['step'], c['step'] < o[N]), blk(o.pp(o['shmem'], c['step'])) != blk(o['barrier_count'])))
        if not node:
            out.append(z3.ForAll([J], z3.Implies(J >= 0, modfact(o['socket_rank'] + P(J), o[N])), patterns=[P(J)]))
            out.append(modfact(c['socket_rank'] + c['step'], c[N]) if c.has('step') else z3.BoolVal(True))
            if c.has('step'):
                out.append(z3.ForAll([J], z3.Implies(J >= 0, modne(o['socket_rank'], P(J), c['step'], o[N])), patterns=[P(J)]))
        return out

    def spin_inv(c):
        o = c.old
        c0 = c0f(c)
        k = steps(cur(c), c0)
        e = c.entry if c.entry is not None else c
        return inv(c) + [('own slot written', z3.BoolVal(True)), ('still before the next partner', z3.And(c['step'] < o[N]))]
    loops = {0: Loop(inv, modifies=regions, hints=hints, exit_hints=hints, decreases=(lambda c: 2 * c[N] - c['step']))}
    if not test:
        loops[1] = Loop(spin_inv, modifies=lambda c: [('int', None)], hints=hints, exit_hints=hints,
                        steps=lambda c: [('waits on only while the partner has not arrived', ahead(seen(c, partner(c, steps(cur(c.prev), c0f(c)))), cur(c.prev)) < 0)])

    def post(c):
        o, c0 = c.old, c0f(c)
        every = z3.ForAll([J], z3.Implies(z3.And(0 <= J, P(J) < o[N]), ahead(seen(c, partner(c, J)), c0 + J) >= 0), patterns=[P(J)])
        if test:
            k = z3.Int('k_open')
            return [('reports passed only when every partner has been observed', z3.Implies(c.ret == 0, every)),
                    ('reports pending only when a partner was observed not to have arrived', z3.Implies(c.ret != 0, z3.And(c.ret == 1, z3.Exists([K], z3.And(0 <= K, P(K) < o[N], ahead(seen(c, partner(c, K)), c0 + K) < 0)))))]
        k = steps(c.i4(o['barrier_count']), c0)
        return [('returns only when every partner has been observed', every),
                ('the counter advances by the number of steps', z3.And(k >= 0, P(k) >= o[N], z3.Or(k == 0, P(k - 1) < o[N])))]
    return Contract(('node' if node else 'socket') + '_barrier' + ('_test' if test else ''), pre=pre, post=post, modifies=lambda c: [('int', None)], loops=loops,
                    globals_modified=['$seen'], hints=hints), own, partner, c0f, N


def spec(node, test):
    k, own, partner, c0f, N = make(node, test)
    C = {k.name: k, '#ghosts': {'$seen': SA}, '#vghosts': ['$seen']}
    if not test:
        # the counter is not a shared slot: the loops may not be assumed to change it
        pass

    def vwrite(c, p, v):
        kk = steps(v, c0f(c))
        return [('the own slot', p == own(c)), ('announces step k only after the partners of all earlier steps were observed',
                z3.And(kk >= 0, z3.Or(kk == 0, P(kk - 1) < c.old[N]), passed(c, partner, c0f(c), kk)))]

    def vload(c, p, v):
        s = c['$seen']
        return [('$seen', z3.Store(s, blk(p), z3.Store(z3.Select(s, blk(p)), off(p), v)))]

    C['#vwrite'], C['#vload'] = vwrite, vload
    return C, k.name


def atomic(kind):
    """one-way signal: set announces the own counter in a slot, wait and test observe it"""
    name = 'socket_barrier_atomic_' + kind
    wait = kind == 'wait'
    place = lambda c: padd((c.old or c)['shmem'], (c.old or c)['entry'] * LINE)
    val = (lambda c: (c.old or c).i4((c.old or c)['barrier_count'])) if wait else (lambda c: (c.old or c)['barrier_count'])

    def pre(c):
        out = [('slot', z3.And(0 <= c['entry'], c['entry'] < 1 << 20, off(c['shmem']) == 0, blk(c['shmem']) > 0, c.valid(c['shmem'], (c['entry'] + 1) * LINE, 4)))]
        if wait:
            out.append(('counter', z3.And(c.valid(c['barrier_count'], 1, 4), blk(c['barrier_count']) != blk(c['shmem']))))
        return out

    def post(c):
        o = c.old
        if kind == 'set':
            return [('the slot holds the counter', c.i4(o['shmem'], o['entry'] * LINE) == val(c))]
        if kind == 'test':
            return [('pending exactly while the announcement has not been observed', (c.ret != 0) == (ahead(seen(c, place(c)), val(c)) < 0))]
        return [('returns only when the announcement has been observed', ahead(seen(c, place(c)), val(c)) >= 0), ('the counter advances by one', c.i4(o['barrier_count']) == wrapped(val(c) + 1))]
    mod = (lambda c: [('int', blk(c['shmem']), off(c['shmem']) + c['entry'] * LINE, off(c['shmem']) + c['entry'] * LINE + 1)]) if not wait else \
          (lambda c: [('int', blk(c['shmem']), off(c['shmem']) + c['entry'] * LINE, off(c['shmem']) + c['entry'] * LINE + 1), ('int', blk(c['barrier_count']), off(c['barrier_count']), off(c['barrier_count']) + 1)])
    loops = {} if not wait else {0: Loop(lambda c: [('arguments unchanged', z3.And(c['shmem'] == c.old['shmem'], c['entry'] == c.old['entry'], c['barrier_count'] == c.old['barrier_count'])),
                                                   ('counter unchanged', c.i4(c['barrier_count']) == val(c))],
                                        modifies=lambda c: mod(c.old)[:1], steps=lambda c: [('waits on only while the announcement is missing', ahead(seen(c, place(c)), val(c)) < 0)])}
    C = {name: Contract(name, pre=pre, post=post, modifies=mod, loops=loops, globals_modified=['$seen'], hints=lambda c: definitions()), '#ghosts': {'$seen': SA}, '#vghosts': ['$seen']}
    C['#vwrite'] = lambda c, p, v: [('the given slot gets the counter', z3.And(p == place(c), v == val(c)) if kind == 'set' else z3.BoolVal(False))]
    C['#vload'] = lambda c, p, v: [('$seen', z3.Store(c['$seen'], blk(p), z3.Store(z3.Select(c['$seen'], blk(p)), off(p), v)))]
    return C, name


def units():
    f = 'src/mpi/ext_mpi_native_exec.c'
    return [(f,) + spec(n, t) for n in (False, True) for t in (False, True)] + [(f,) + atomic(k) for k in ('set', 'wait', 'test')]
