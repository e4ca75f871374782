"""contracts of the byte-code executors: every instruction of every program does exactly what it says, whatever
came before it, and an executor that pauses stands on the instruction it could not finish.

The instruction stream is read through CH / IN / PT (value of the char, int, pointer stored at an address); the
executor is followed by ghost state: $log (effects in order), $cp/$cn (requests known complete), $tk.. (last test).
One iteration of the interpreter loop is specified as a relation between the state at the loop head and the state
after it (Loop.steps), so it covers programs of any length."""
from vcg import *

CH = z3.Function('CH', Ptr, z3.IntSort())
IN = z3.Function('IN', Ptr, z3.IntSort())
PT = z3.Function('PT', Ptr, Ptr)
WF = z3.Function('WF', Ptr, z3.BoolSort())
Ev = z3.Datatype('Ev')
Ev.declare('mk', ('op', z3.IntSort()), ('p1', Ptr), ('p2', Ptr), ('p3', Ptr), ('p4', Ptr), ('i1', z3.IntSort()), ('i2', z3.IntSort()), ('i3', z3.IntSort()))
Ev = Ev.create()
O = {}
for l in open(REPO + '/include/core/constants.h'):
    m = re.match(r'#define (OPCODE_\w+) (\d+)', l)
    if m:
        O[m.group(1)[7:]] = int(m.group(2))
KINDS = [('REDUCE_SUM_DOUBLE', 'double', 8), ('REDUCE_SUM_LONG_INT', 'long', 8), ('REDUCE_SUM_FLOAT', 'float', 4), ('REDUCE_SUM_INT', 'int', 4)]
GH = {'$log': z3.ArraySort(z3.IntSort(), Ev), '$n': z3.IntSort(), '$cp': Ptr, '$cn': z3.IntSort(), '$at': Ptr, '$n0': z3.IntSort(), '$t': Ev, '$tr': z3.IntSort(), '$any': Ptr}
NP = NULLP


def event(op, *a):
    ps = [x for x in a if x.sort() == Ptr]
    zs = [x for x in a if x.sort() != Ptr]
    return Ev.mk(I(op), *(ps + [NP] * (4 - len(ps)) + zs + [I(0)] * (3 - len(zs))))


def emits(name, ev, globals_modified=(), **kw):
    def post(c):
        o = c.old
        return [('logged', z3.And(c['$n'] == o['$n'] + 1, c['$log'] == z3.Store(o['$log'], o['$n'], ev(o))))]
    return Contract(name, trusted=True, post=post, globals_modified=['$n', '$log'] + list(globals_modified), **kw)


def getter(name, F, size):
    return Contract(name, trusted=True, pre=lambda c: [('code pointer', c.valid(c['code'], 1, 8))],
                    modifies=lambda c: [('ptr', blk(c['code']), off(c['code']), off(c['code']) + 1)],
                    post=lambda c: [('value at the position', c.ret == F(c.old.pp(c.old['code']))), ('advances', c.pp(c['code']) == padd(c.old.pp(c.old['code']), I(size)))])


BITAND = z3.Function('bit_and_int', z3.IntSort(), z3.IntSort(), z3.IntSort())


def waits(c):
    return BITAND(c['active_wait'], I(2)) != 0


S_BAR, N_BAR, A_SET, A_WAIT = 100, 101, 102, 103


def common(native):
    C = {'#ghosts': GH}
    C['code_get_char'] = getter('code_get_char', CH, 1)
    C['code_get_int'] = getter('code_get_int', IN, 4)
    C['code_get_pointer'] = getter('code_get_pointer', PT, 8)
    C['exit'] = Contract('exit', trusted=True, noreturn=True, pre=lambda c: [('not reached by a well-formed program', z3.BoolVal(False))])
    C['memcpy'] = emits('memcpy', lambda o: event(O['MEMCPY'], o['#0'], o['#1'], o['#2']))
    for nm, op in (('MPI_Irecv', 'MPIIRECV'), ('MPI_Isend', 'MPIISEND')):
        for p in ('', 'P'):
            C[p + nm] = emits(p + nm, lambda o, op=op: event(O[op], o['#0'], o['#6'], o['#5'], o['#2'], o['#1'], o['#3'], o['#4']))
    for p in ('', 'P'):
        C[p + 'MPI_Recv'] = emits(p + 'MPI_Recv', lambda o: event(O['MPISENDRECV'], o['#0'], o['#5'], o['#2'], o['#1'], o['#3'], o['#4']))
    done = lambda c: [('complete', z3.And(c['$cp'] == c.old['#1'], c['$cn'] == c.old['#0']))]
    for p in ('', 'P'):
        C[p + 'MPI_Waitall'] = Contract(p + 'MPI_Waitall', trusted=True, pre=lambda c: [('waits only when asked to, or when the test has shown completion', z3.Or(waits(c), z3.And(c['$cp'] == c['#1'], c['$cn'] == c['#0'])))] if native else [],
                                        globals_modified=['$cp', '$cn'], post=done)
        C[p + 'MPI_Testall'] = Contract(p + 'MPI_Testall', trusted=True, pre=lambda c: [('flag', c.valid(c['#2'], 1, 4))], modifies=lambda c: [('int', blk(c['#2']), off(c['#2']), off(c['#2']) + 1)],
                                        globals_modified=['$cp', '$cn', '$t', '$tr'],
                                        post=lambda c: [('completion known exactly when the flag is set', z3.If(c.i4(c.old['#2']) != 0, z3.And(c['$cp'] == c.old['#1'], c['$cn'] == c.old['#0']), z3.And(c['$cp'] == c.old['$cp'], c['$cn'] == c.old['$cn']))),
                                                        ('remembered', z3.And(c['$t'] == event(O['MPIWAITALL'], c.old['#1'], c.old['#0']), c['$tr'] == z3.If(c.i4(c.old['#2']) != 0, I(0), I(1))))])

    def bar(name, op, test):
        """the barrier proper: an effect; the caller must have seen the test pass unless it may wait"""
        if test:
            # count by value: recorded as int
            return Contract(name, trusted=True, globals_modified=['$t', '$tr'], post=lambda c: [('remembered', z3.And(c['$t'] == test(c.old), c['$tr'] == z3.If(c.ret != 0, I(1), I(0))))])
    if native:
        hb = lambda c: c['header']
        f = lambda c, n: c.at('header_byte_code.' + n, c['header'])
        sb = lambda o: event(S_BAR, o['#0'], o['#2'], o['#3'])
        nb = lambda o: event(N_BAR, o['#0'], o['#2'], o['#3'])
        aw = lambda o: event(A_WAIT, o['#0'], o['#2'])
        C['socket_barrier_test'] = bar('socket_barrier_test', 0, sb)
        C['node_barrier_test'] = bar('node_barrier_test', 0, nb)
        C['socket_barrier_atomic_test'] = bar('socket_barrier_atomic_test', 0, aw)
        for nm, e in (('socket_barrier', sb), ('node_barrier', nb), ('socket_barrier_atomic_wait', aw)):
            C[nm] = Contract(nm, trusted=True, pre=lambda c, e=e: [('waits only when asked to, or when the test has passed', z3.Or(waits(c), z3.And(c['$t'] == e(c), c['$tr'] == 0)))],
                             globals_modified=['$n', '$log'], post=lambda c, e=e: [('logged', z3.And(c['$n'] == c.old['$n'] + 1, c['$log'] == z3.Store(c.old['$log'], c.old['$n'], withcounter(e(c.old), c.old['#1']))))])
    else:
        for nm, op in (('socket_barrier', S_BAR), ('node_barrier', N_BAR)):
            C[nm] = emits(nm, lambda o, op=op: event(op, o['#0'], o['#1'], o['#2'], o['#3']))
        C['socket_barrier_atomic_wait'] = emits('socket_barrier_atomic_wait', lambda o: event(A_WAIT, o['#0'], o['#1'], o['#2']))
    C['socket_barrier_atomic_set'] = emits('socket_barrier_atomic_set', lambda o: event(A_SET, o['#0'], o['#1'], o['#2']))
    return C


def withcounter(e, cp):
    return Ev.mk(Ev.op(e), Ev.p1(e), cp, Ev.p3(e), Ev.p4(e), Ev.i1(e), Ev.i2(e), Ev.i3(e))


def fieldaddr(c, f):
    h = c['header']
    return Ptr.mk(z3.Function('field_header_byte_code.' + f, z3.IntSort(), z3.IntSort())(blk(h)), off(h))


def logged(c, e):
    p = c.prev
    return z3.And(c['$n'] == p['$n'] + 1, c['$log'] == z3.Store(p['$log'], p['$n'], e))


def silent(c):
    return z3.And(c['$n'] == c.prev['$n'], c['$log'] == c.prev['$log'])


def mem_same(c, but=None):
    out = []
    for _, k, _s in KINDS:
        if k != but and k != 'int':
            out.append(c.ex.memk(c.st, k) == c.ex.memk(c.prev.st, k))
    return z3.And(*out)


def add_fn(k):
    if k == 'double':
        return z3.Function('f64_add', FSort, FSort, FSort)
    if k == 'float':
        return z3.Function('f32_add', FSort, FSort, FSort)
    return lambda a, b: a + b


def separate(p1, p2, n):
    return z3.Or(blk(p1) != blk(p2), off(p1) == off(p2), off(p1) + n <= off(p2), off(p2) + n <= off(p1))


def summed(now, before, k, p1, p2, upto, n):
    """cells p1[0..upto) hold the sums, everything else is as before"""
    i = z3.Int('i')
    A = lambda c, p, j: z3.Select(z3.Select(c.ex.memk(c.st, k), blk(p)), j)
    b = z3.Int('b')
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(off(p1) <= i, i < off(p1) + upto), A(now, p1, i) == add_fn(k)(A(before, p1, i), A(before, p2, i - off(p1) + off(p2)))), patterns=[A(now, p1, i)]),
                  z3.ForAll([i], z3.Implies(z3.Or(i < off(p1), i >= off(p1) + upto), A(now, p1, i) == A(before, p1, i)), patterns=[A(now, p1, i)]),
                  )


def others(now, before, k, p1):
    b = z3.Int('b')
    m, m0 = now.ex.memk(now.st, k), before.ex.memk(before.st, k)
    x = [b != blk(p1)]
    if k == 'int':      # the ints of the executor itself are not data
        x.append(b < now.old.st.nb)
    return z3.ForAll([b], z3.Implies(z3.And(*x), z3.Select(m, b) == z3.Select(m0, b)), patterns=[z3.Select(m, b)])


def red_loop(k):
    add = add_fn(k)

    def inv(c):
        e = c.entry if c.entry is not None else c
        i2, n, p1, p2 = c['i2'], c['i1'], c['p1'], c['p2']
        return [('range', z3.And(0 <= i2, z3.Or(i2 <= n, n < 0))), ('sums so far', summed(c, e, k, p1, p2, i2, n))]

    def hints(c):
        out = []
        if k in ('long', 'int'):        # assumption: the sums of the user's data fit the type
            s = c.at(k, c['p1'], c['i2']) + c.at(k, c['p2'], c['i2'])
            out.append(in_range(LONG if k == 'long' else INT, s))
        return out
    return Loop(inv, modifies=lambda c: [(k, blk(c['p1']), off(c['p1']), off(c['p1']) + z3.If(c['i1'] >= 0, c['i1'], I(0)))], decreases=lambda c: z3.If(c['i1'] > c['i2'], c['i1'] - c['i2'], I(0)), hints=hints)


def red_valid(c, k, size, p1, p2, n):
    b0 = c.old if c.old is not None else c
    return z3.And(n >= 0, z3.Implies(n > 0, z3.And(b0.valid(p1, n, size), b0.valid(p2, n, size))), separate(p1, p2, n))


# ------------------------------------------------------------------ ext_mpi_exec_native
def native():
    C = common(True)
    OPS = ['RETURN', 'MEMCPY', 'MPIIRECV', 'MPIISEND', 'MPIWAITALL', 'SOCKETBARRIER', 'NODEBARRIER', 'SOCKETBARRIER_ATOMIC_SET', 'SOCKETBARRIER_ATOMIC_WAIT', 'REDUCE', 'MPISENDRECV', 'ATTACHED', 'MPIWAITANY']
    LEN = {'MEMCPY': 20, 'MPIIRECV': 24, 'MPIISEND': 24, 'MPIWAITALL': 12, 'SOCKETBARRIER': 0, 'NODEBARRIER': 0, 'SOCKETBARRIER_ATOMIC_SET': 4, 'SOCKETBARRIER_ATOMIC_WAIT': 4, 'REDUCE': 21, 'MPISENDRECV': 24, 'ATTACHED': 0, 'RETURN': 0}
    C['exec_waitany'] = Contract('exec_waitany', trusted=True, modifies=lambda c: [('ptr', blk(c['ip']), off(c['ip']), off(c['ip']) + 1)] + [(k, None) for _, k, _s in KINDS if k != 'int'],
                                 globals_modified=['$n', '$log', '$any'], post=lambda c: [('logged', z3.And(c['$n'] == c.old['$n'] + 1, c['$log'] == z3.Store(c.old['$log'], c.old['$n'], event(O['MPIWAITANY'], c.old['p3'], c.old['num_wait'], c.old['num_red_max'])))),
                                                                                          ('ends on an instruction', z3.And(c['$any'] == c.pp(c.old['ip']), WF(c.pp(c.old['ip'])), blk(c.pp(c.old['ip'])) == blk(c.old.pp(c.old['ip']))))])

    def unfold(c, at):
        """what makes a program well-formed at a position (definition of WF)"""
        op, a = CH(at), padd(at, I(1))
        o = c.old if c.old is not None else c
        cs = [z3.Or(*[op == O[x] for x in OPS])]
        for x in OPS:
            if x in LEN and x != 'RETURN':
                cs.append(z3.Implies(op == O[x], WF(padd(a, I(LEN[x])))))
        cs.append(z3.Implies(op == O['MPIWAITANY'], waits(o)))
        cs.append(z3.Implies(op == O['MEMCPY'], IN(padd(a, I(16))) >= 0))
        ty = CH(a)
        cs.append(z3.Implies(op == O['REDUCE'], z3.Or(*[z3.And(ty == O[n], red_valid(c, k, s, PT(padd(a, I(1))), PT(padd(a, I(9))), IN(padd(a, I(17))))) for n, k, s in KINDS])))
        # data is not the executor's own state
        cs.append(z3.Implies(op == O['REDUCE'], z3.And(blk(PT(padd(a, I(1)))) != blk(o['ip']), blk(PT(padd(a, I(1)))) < o.st.nb, blk(PT(padd(a, I(9)))) < o.st.nb)))
        return z3.Implies(WF(at), z3.And(*cs))

    def ip(c):
        return c['ip']

    def inv(c):
        o = c.old
        return [('at an instruction', z3.And(WF(ip(c)), blk(ip(c)) == blk(o.pp(o['ip_exec'])), blk(ip(c)) < o.st.nb)), ('header', z3.And(c['header'] == o['ip'], c['active_wait'] == o['active_wait'], c['ip_exec'] == o['ip_exec']))]

    def f(c, n):
        return c.at('header_byte_code.' + n, c['header'])

    def expected(c, at):
        """(opcode, effect clause) with c the state after; c.prev at the head"""
        a = padd(at, I(1))
        q = lambda k: padd(a, I(k))
        comm = c['ext_mpi_COMM_WORLD_dup']
        CHAR_T = c['MPI_CHAR']
        sh = padd(f(c, 'barrier_shmem_socket'), f(c, 'barrier_shmem_size'))
        io = lambda op: logged(c, event(O[op], PT(q(0)), PT(q(16)), comm, CHAR_T, IN(q(8)), IN(q(12)), f(c, 'tag')))
        out = [('RETURN', silent(c)), ('MEMCPY', logged(c, event(O['MEMCPY'], PT(q(0)), PT(q(8)), IN(q(16))))),
               ('MPIIRECV', io('MPIIRECV')), ('MPIISEND', io('MPIISEND')),
               ('MPIWAITALL', z3.And(silent(c), c['$cp'] == PT(q(4)), c['$cn'] == IN(q(0)))),
               ('SOCKETBARRIER', logged(c, event(S_BAR, sh, fieldaddr(c, 'barrier_counter_socket'), f(c, 'socket_rank'), f(c, 'num_cores')))),
               ('NODEBARRIER', logged(c, event(N_BAR, f(c, 'barrier_shmem_node'), fieldaddr(c, 'barrier_counter_node'), f(c, 'socket_rank'), f(c, 'num_sockets_per_node')))),
               ('SOCKETBARRIER_ATOMIC_SET', logged(c, event(A_SET, sh, f(c, 'barrier_counter_socket'), IN(q(0))))),
               ('SOCKETBARRIER_ATOMIC_WAIT', logged(c, event(A_WAIT, sh, fieldaddr(c, 'barrier_counter_socket'), IN(q(0))))),
               ('REDUCE', silent(c)), ('ATTACHED', silent(c)),
               ('MPISENDRECV', logged(c, event(O['MPISENDRECV'], PT(q(8)), comm, CHAR_T, IN(q(16)), IN(q(20)), I(0)))),
               ('MPIWAITANY', logged(c, event(O['MPIWAITANY'], PT(q(8)), IN(q(0)), IN(q(4)))))]
        return out

    def steps(c):
        at = c.prev['ip']
        a = padd(at, I(1))
        op = CH(at)
        out = []
        for x, e in expected(c, at):
            out.append(('%s has exactly its effect' % x, z3.Implies(op == O[x], e)))
            if x in LEN:
                out.append(('%s: execution goes on behind it' % x, z3.Implies(op == O[x], ip(c) == padd(a, I(LEN[x])))))
        out.append(('MPIWAITANY: execution goes on where its operands end', z3.Implies(op == O['MPIWAITANY'], ip(c) == c['$any'])))
        out.append(('stops exactly at RETURN', (c['instruction'] == O['RETURN']) == (op == O['RETURN'])))
        out.append(('only reductions change data', z3.Implies(z3.And(op != O['REDUCE'], op != O['MPIWAITANY']), z3.And(mem_same(c), int_same(c)))))
        p1, p2, n = PT(padd(a, I(1))), PT(padd(a, I(9))), IN(padd(a, I(17)))
        for nm, k, s in KINDS:
            out.append(('reduction of %s' % k, z3.Implies(z3.And(op == O['REDUCE'], CH(a) == O[nm]), z3.And(summed(c, c.prev, k, p1, p2, n, n), others(c, c.prev, k, p1), mem_same(c, k), int_same(c) if k != 'int' else z3.BoolVal(True)))))
        return out

    def int_same(c):
        b = z3.Int('b')
        m, m0 = c.ex.memk(c.st, 'int'), c.ex.memk(c.prev.st, 'int')
        return z3.ForAll([b], z3.Implies(b < c.old.st.nb, z3.Select(m, b) == z3.Select(m0, b)), patterns=[z3.Select(m, b)])

    def hints(c):
        return [unfold(c, ip(c))] if c.has('ip') else []

    def mark(c):
        return {'$at': ip(c), '$n0': c['$n'], '$cn': I(-1), '$cp': NULLP, '$tr': I(-1)}
    mods = lambda c: [(k, None) for _, k, _s in KINDS] + [('ptr', blk(c['ip_exec']), off(c['ip_exec']), off(c['ip_exec']) + 1)]

    def post(c):
        o = c.old
        pos = c.pp(o['ip_exec'])
        at = c['$at']
        a = padd(at, I(1))
        q = lambda k: padd(a, I(k))
        op = CH(at)
        H = lambda n: o.at('header_byte_code.' + n, o['ip'])
        sh = padd(H('barrier_shmem_socket'), H('barrier_shmem_size'))
        pend = [('MPIWAITALL', event(O['MPIWAITALL'], PT(q(4)), IN(q(0)))), ('SOCKETBARRIER', event(S_BAR, sh, H('socket_rank'), H('num_cores'))),
                ('NODEBARRIER', event(N_BAR, H('barrier_shmem_node'), H('socket_rank'), H('num_sockets_per_node'))), ('SOCKETBARRIER_ATOMIC_WAIT', event(A_WAIT, sh, IN(q(0))))]
        paused = pos != NULLP
        return [('returns 0', c.ret == 0),
                ('finished exactly after RETURN', z3.Implies(z3.Not(paused), op == O['RETURN'])),
                ('paused on the instruction not finished', z3.Implies(paused, pos == at)),
                ('paused only when not asked to wait, with the test pending', z3.Implies(paused, z3.And(z3.Not(waits(o)), c['$tr'] == 1, z3.Or(*[z3.And(op == O[x], c['$t'] == e) for x, e in pend])))),
                ('the unfinished instruction had no effect', z3.Implies(paused, c['$n'] == c['$n0']))]
    ssz = lambda c: c.ex.tu.sizeof(c.ex.tu.structs['header_byte_code'])
    NAME = 'ext_mpi_exec_native'
    C[NAME] = Contract(NAME, pre=lambda c: [('header', z3.And(off(c['ip']) == 0, blk(c['ip']) > 0, z3.Select(c.st.alive, blk(c['ip'])), c.bsz(c['ip']) >= ssz(c))), ('position', c.valid(c['ip_exec'], 1, 8)),
                                            ('paused or started on an instruction', z3.And(WF(c.pp(c['ip_exec'])), blk(c.pp(c['ip_exec'])) < c.st.nb)), ('position separate', blk(c['ip_exec']) != blk(c['ip']))],
                       modifies=mods, post=post, globals_modified=list(GH),
                       hints=lambda c: [z3.ForAll([z3.Const('pp', Ptr)], z3.Implies(WF(z3.Const('pp', Ptr)), z3.Const('pp', Ptr) != NULLP), patterns=[WF(z3.Const('pp', Ptr))])],
                       loops={0: Loop(inv, modifies=mods, hints=hints, steps=steps, mark=mark, ghosts=list(GH)), 1: red_loop('double'), 2: red_loop('long'), 3: red_loop('float'), 4: red_loop('int')})
    return C, NAME



# ------------------------------------------------------------------ ext_mpi_exec_blocking
RAP = z3.Function('RAP', Ptr, Ptr)                                  # where a normalised address lies in this call
RAS = z3.Function('RAS', Ptr, z3.IntSort(), z3.IntSort())           # how much of a piece there is inside the user's buffers
SEND = z3.Function('SENDP', z3.IntSort(), Ptr)                      # the receive address the k-th send goes to


def blocking():
    C = common(False)
    del C['PMPI_Testall'], C['MPI_Testall']
    OPS = ['RETURN', 'MEMCPY', 'MPIIRECV', 'MPIISEND', 'MPIWAITALL', 'SOCKETBARRIER', 'NODEBARRIER', 'SOCKETBARRIER_ATOMIC_SET', 'SOCKETBARRIER_ATOMIC_WAIT', 'REDUCE', 'ATTACHED']
    LEN = {'MEMCPY': 20, 'MPIIRECV': 24, 'MPIISEND': 24, 'MPIWAITALL': 12, 'SOCKETBARRIER': 0, 'NODEBARRIER': 0, 'SOCKETBARRIER_ATOMIC_SET': 4, 'SOCKETBARRIER_ATOMIC_WAIT': 4, 'REDUCE': 21, 'ATTACHED': 0, 'RETURN': 0}
    C['recalculate_address_io'] = Contract('recalculate_address_io', trusted=True, pre=lambda c: [('same call everywhere', z3.And(c['sendbuf'] == c.top('sendbuf'), c['recvbuf'] == c.top('recvbuf'), c['count'] == c.top('count'), c['shmem'] == c.top('shmem_blocking'), c['size_io'] == c.top('count_io')))],
                                           modifies=lambda c: [('ptr', blk(c['address']), off(c['address']), off(c['address']) + 1), ('int', blk(c['size']), off(c['size']), off(c['size']) + 1)],
                                           post=lambda c: [('address', c.pp(c.old['address']) == RAP(c.old.pp(c.old['address']))), ('size', c.i4(c.old['size']) == RAS(c.old.pp(c.old['address']), c.old.i4(c.old['size'])))])
    f = lambda c, n: c[n]
    MINI, MAXI = -2**31, 2**31 - 1

    def unfold(c, at):
        op, a = CH(at), padd(at, I(1))
        q = lambda k: padd(a, I(k))
        o = c.old if c.old is not None else c
        inr = lambda x: z3.And(x >= MINI, x <= MAXI)
        sz = lambda k: IN(q(k)) * o['count']
        cs = [z3.Or(*[op == O[x] for x in OPS])]
        for x in OPS:
            if x in LEN and x != 'RETURN':
                cs.append(z3.Implies(op == O[x], WF(q(LEN[x]))))
        cs.append(z3.Implies(op == O['MEMCPY'], z3.And(inr(sz(16)), RAS(PT(q(8)), RAS(PT(q(0)), sz(16))) >= 0)))
        for x in ('MPIIRECV', 'MPIISEND'):
            cs.append(z3.Implies(op == O[x], z3.And(inr(sz(8)), inr(RAS(PT(q(0)), sz(8))))))
        p1, p2 = RAP(PT(q(1))), RAP(PT(q(9)))
        n = RAS(PT(q(9)), RAS(PT(q(1)), sz(17)))
        cs.append(z3.Implies(op == O['REDUCE'], z3.And(inr(sz(17)), n >= 0, n <= MAXI, *[z3.Implies(o['reduction_op'] == O[nm], red_valid(c, k, s, p1, p2, n / s)) for nm, k, s in KINDS])))
        cs.append(z3.Implies(op == O['REDUCE'], z3.And(blk(p1) != blk(o['ip']), blk(p1) < o.st.nb, blk(p2) < o.st.nb)))
        return z3.Implies(WF(at), z3.And(*cs))

    def inv(c):
        o = c.old
        return [('at an instruction', z3.And(WF(c['ip']), blk(c['ip']) == blk(o['ip']))),
                ('nothing of the call changes', z3.And(*[c[n] == o[n] for n in ('comm', 'tag', 'shmem_socket', 'counter_socket', 'socket_rank', 'num_cores', 'shmem_node', 'counter_node', 'num_sockets_per_node', 'shmem_blocking', 'sendbuf', 'recvbuf', 'count', 'reduction_op', 'count_io', 'send_pointers')])),
                ('sends so far', c['send_pointer'] >= 0)]

    def steps(c):
        p = c.prev
        at = p['ip']
        a = padd(at, I(1))
        q = lambda k: padd(a, I(k))
        op = CH(at)
        cnt = c['count']
        sz = lambda k: IN(q(k)) * cnt
        CT = c['MPI_CHAR']
        sp = c['send_pointers']
        n1 = RAS(PT(q(0)), sz(8))
        nsend = z3.If(sp != NULLP, RAS(SEND(p['send_pointer']), n1), n1)
        io = lambda nm, n: logged(c, event(O[nm], RAP(PT(q(0))), PT(q(16)), c['comm'], CT, n, IN(q(12)), c['tag']))
        E = [('RETURN', silent(c)),
             ('MEMCPY', logged(c, event(O['MEMCPY'], RAP(PT(q(0))), RAP(PT(q(8))), RAS(PT(q(8)), RAS(PT(q(0)), sz(16)))))),
             ('MPIIRECV', io('MPIIRECV', n1)), ('MPIISEND', io('MPIISEND', nsend)),
             ('MPIWAITALL', z3.And(silent(c), c['$cp'] == PT(q(4)), c['$cn'] == IN(q(0)))),
             ('SOCKETBARRIER', logged(c, event(S_BAR, c['shmem_socket'], c['counter_socket'], c['socket_rank'], c['num_cores']))),
             ('NODEBARRIER', logged(c, event(N_BAR, c['shmem_node'], c['counter_node'], c['socket_rank'], c['num_sockets_per_node']))),
             ('SOCKETBARRIER_ATOMIC_SET', logged(c, event(A_SET, c['shmem_socket'], p.i4(p['counter_socket']), IN(q(0))))),
             ('SOCKETBARRIER_ATOMIC_WAIT', logged(c, event(A_WAIT, c['shmem_socket'], c['counter_socket'], IN(q(0))))),
             ('REDUCE', silent(c)), ('ATTACHED', silent(c))]
        out = []
        for x, e in E:
            out.append(('%s has exactly its effect' % x, z3.Implies(op == O[x], e)))
            out.append(('%s: execution goes on behind it' % x, z3.Implies(op == O[x], c['ip'] == q(LEN[x]))))
        out.append(('every send is counted', c['send_pointer'] == p['send_pointer'] + z3.If(z3.And(op == O['MPIISEND'], sp != NULLP), I(1), I(0))))
        out.append(('stops exactly at RETURN', (c['instruction'] == O['RETURN']) == (op == O['RETURN'])))
        out.append(('only reductions change data', z3.Implies(op != O['REDUCE'], z3.And(mem_same(c), int_same(c)))))
        p1, p2 = RAP(PT(q(1))), RAP(PT(q(9)))
        n = RAS(PT(q(9)), RAS(PT(q(1)), sz(17)))
        for nm, k, s in KINDS:
            out.append(('reduction of %s' % k, z3.Implies(z3.And(op == O['REDUCE'], c['reduction_op'] == O[nm]), z3.And(summed(c, c.prev, k, p1, p2, n / s, n / s), others(c, c.prev, k, p1), mem_same(c, k), int_same(c) if k != 'int' else z3.BoolVal(True)))))
        return out

    def int_same(c):
        b = z3.Int('b')
        m, m0 = c.ex.memk(c.st, 'int'), c.ex.memk(c.prev.st, 'int')
        return z3.ForAll([b], z3.Implies(b < c.old.st.nb, z3.Select(m, b) == z3.Select(m0, b)), patterns=[z3.Select(m, b)])

    def hints(c):
        if not c.has('ip'):
            return []
        sp, k = c['send_pointers'], c['send_pointer']
        e = c.old if c.old is not None else c
        # the list of receive addresses: long enough, and read as SEND(k)
        return [unfold(c, c['ip']), z3.Implies(sp != NULLP, z3.And(e.valid(padd(sp, k), 1, 8), k >= 0, k < MAXI, c.pp(padd(sp, k)) == SEND(k), blk(sp) < e.st.nb))]

    def mark(c):
        return {'$cn': I(-1), '$cp': NULLP}
    mods = lambda c: [(k, None) for _, k, _s in KINDS]
    NAME = 'ext_mpi_exec_blocking'
    # the counters of the barriers are written by the barriers (C06), not seen here
    C[NAME] = Contract(NAME, pre=lambda c: [('program', z3.And(WF(padd(c['ip'], I(c.ex.tu.sizeof(c.ex.tu.structs['header_byte_code'])))), blk(c['ip']) > 0, blk(c['ip']) < c.st.nb)), ('counter', c.valid(c['counter_socket'], 1, 4))],
                       modifies=mods, post=lambda c: [('returns 0', c.ret == 0)], globals_modified=list(GH),
                       loops={0: Loop(inv, modifies=mods, hints=hints, steps=steps, mark=mark, ghosts=list(GH)), 1: red_loop('double'), 2: red_loop('long'), 3: red_loop('float'), 4: red_loop('int')})
    return C, NAME


def units():
    f = 'src/mpi/ext_mpi_native_exec.c'
    return [(f,) + native(), (f,) + blocking()]
