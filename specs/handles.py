"""C03: the table of handles (src/mpi/ext_mpi_native.c): requests in flight do not disturb each other

The table is three arrays of handle_code_max entries: comm_code[h] the program of handle h (h even) and comm_code[h+1]
its alternate, execution_pointer the place where execution goes on (NULL: not running), active_wait the waiting mode.
Ghosts: $runs/$code/$ep/$mode the last call of the interpreter (C05), $tagred the tag agreed on."""
from vcg import *

F = 'src/mpi/ext_mpi_native.c'
IS = z3.IntSort()
GH = {'$runs': IS, '$code': Ptr, '$ep': Ptr, '$mode': IS, '$tag': IS, '$reds': IS, '$over1': Ptr, '$over2': Ptr}
K = z3.Int('k')
BITAND = z3.Function('bit_and_int', IS, IS, IS)
TABS = ['comm_code', 'execution_pointer', 'active_wait']


def code(c, i):
    return c.pp(c['comm_code'], i)


def ep(c, i):
    return c.pp(c['execution_pointer'], i)


def mode(c, i):
    return c.i4(c['active_wait'], i)


def live(c):
    return c['comm_code'] != NULLP


def rng(c, i):
    return z3.And(0 <= i, i < c['handle_code_max'])


def wf(c):
    n = c['handle_code_max']
    T = [c[t] for t in TABS]
    h = z3.Int('h')
    return [('size', z3.And(n >= 100, n <= 1 << 26, n % 2 == 0)),
            ('all three arrays or none', z3.Or(z3.And(*[t == NULLP for t in T]),
                z3.And(*([off(t) == 0 for t in T] + [blk(t) > 0 for t in T] + [c.valid(t, n, s) for t, s in zip(T, (8, 8, 4))] + [blk(T[0]) != blk(T[1]), blk(T[0]) != blk(T[2]), blk(T[1]) != blk(T[2])])))),
            ('an alternate belongs to a program', z3.Implies(live(c), z3.ForAll([h], z3.Implies(z3.And(0 <= h, 2 * h + 1 < n, code(c, 2 * h + 1) != NULLP), code(c, 2 * h) != NULLP), patterns=[code(c, 2 * h + 1)]))),
            ('only programs run, never an alternate', z3.Implies(live(c), z3.ForAll([K], z3.Implies(z3.And(rng(c, K), z3.Or(code(c, K) == NULLP, K % 2 == 1)), ep(c, K) == NULLP), patterns=[ep(c, K)])))]




def handle(c, h):
    return z3.And(h % 2 == 0, 0 <= h, h + 1 < c['handle_code_max'], live(c))


def same(c, o, but=None, tabs=TABS, upto=None):
    """entries of the table are unchanged (all, or all but a pair)"""
    out = []
    f = {'comm_code': code, 'execution_pointer': ep, 'active_wait': mode}
    for t in tabs:
        cond = z3.And(0 <= K, K < (o['handle_code_max'] if upto is None else upto))
        if but is not None:
            cond = z3.And(cond, K != but, K != but + 1)
        out.append(z3.ForAll([K], z3.Implies(cond, f[t](c, K) == f[t](o, K)), patterns=[f[t](c, K)]))
    return z3.And(*out)


def samearr(c, o):
    return z3.And(*[c[t] == o[t] for t in TABS + ['handle_code_max']])


def contracts():
    C = {'#ghosts': GH, '#reads_through': ('void*', 'struct ompi_communicator_t*', 'MPI_Comm')}
    T = lambda name, **k: C.__setitem__(name, Contract(name, trusted=True, **k))
    D = lambda name, **k: C.__setitem__(name, Contract(name, **k))
    waits = lambda m: BITAND(m, I(2)) != 0
    cell = lambda c: ('ptr', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)
    T('ext_mpi_exec_native', pre=lambda c: [('a program that is running', z3.And(c['#0'] != NULLP, c.valid(c['#1'], 1, 8), c.pp(c['#1']) != NULLP))], modifies=lambda c: [cell(c)],
      globals_modified=['$runs', '$code', '$ep', '$mode'],
      post=lambda c: [('recorded', z3.And(c['$runs'] == c.old['$runs'] + 1, c['$code'] == c.old['#0'], c['$ep'] == c.old['#1'], c['$mode'] == c.old['#2'])),
                      ('result', z3.And(c.ret >= 0, c.ret <= 1)), ('no new object', blk(c.pp(c.old['#1'])) < c.old.st.nb), ('runs to the end when it may wait', z3.Implies(z3.Or(c.old['#2'] == 2, c.old['#2'] == 3), c.pp(c.old['#1']) == NULLP))])
    # --- handles
    tabmods = lambda c: [('ptr', blk(c['comm_code'])), ('ptr', blk(c['execution_pointer'])), ('int', blk(c['active_wait']))]

    def newarr(c, n):
        ts = [c[t] for t in TABS]
        o = c.old
        return z3.And(*([off(t) == 0 for t in ts] + [blk(t) >= o.st.nb for t in ts] + [c.valid(t, n, s) for t, s in zip(ts, (8, 8, 4))] + [blk(ts[0]) != blk(ts[1]), blk(ts[0]) != blk(ts[2]), blk(ts[1]) != blk(ts[2])]))

    def cleared(c, n):
        return z3.And(*[z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < n), f(c, K) == v), patterns=[f(c, K)]) for f, v in ((code, NULLP), (ep, NULLP), (mode, I(0)))])

    def copied(c, upto):
        o = c.old
        return z3.And(*[z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < upto), a == b), patterns=[a]) for a, b in ((code(c, K), o.pp(o['comm_code'], K)), (ep(c, K), o.pp(o['execution_pointer'], K)), (mode(c, K), o.i4(o['active_wait'], K)))])

    def restclear(c, lo, n):
        return [('the rest of %s is clear' % t, z3.ForAll([K], z3.Implies(z3.And(lo <= K, K < n), f(c, K) == v), patterns=[f(c, K)])) for t, f, v in (('comm_code', code, NULLP), ('execution_pointer', ep, NULLP), ('active_wait', mode, I(0)))]
    D('get_handle', pre=lambda c: wf(c) + [('room', c['handle_code_max'] <= 1 << 25)], allocates=True, frees=lambda c: [c[t] for t in TABS], globals_modified=TABS + ['handle_code_max'],
      post=lambda c: wf(c) + [('the table is the old or a new one', z3.And(*[z3.Or(c[t] == c.old[t], blk(c[t]) >= c.old.st.nb) for t in TABS])), ('a handle of the table', z3.And(handle(c, c.ret))), ('which is free', z3.And(code(c, c.ret) == NULLP, code(c, c.ret + 1) == NULLP, ep(c, c.ret) == NULLP)),
                              ('no other handle is changed', z3.Implies(c.old['comm_code'] != NULLP, same(c, c.old))),
                              ('nothing else exists', z3.And(c['handle_code_max'] >= c.old['handle_code_max'],
                                   z3.ForAll([K], z3.Implies(z3.And(z3.If(c.old['comm_code'] != NULLP, c.old['handle_code_max'], I(0)) <= K, K < c['handle_code_max']), code(c, K) == NULLP), patterns=[code(c, K)])))],
      loops={0: Loop(lambda c: [('range', z3.And(0 <= c['i'], c['i'] <= c['handle_code_max'])), ('arrays', newarr(c, c['handle_code_max'])), ('cleared', cleared(c, c['i']))], modifies=tabmods, decreases=lambda c: c['handle_code_max'] - c['i']),
             1: Loop(lambda c: [('range', z3.And(0 <= c['handle'], c['handle'] % 2 == 0, c['handle'] <= c['handle_code_max'] - 2)),
                                ('handles passed are taken', z3.ForAll([K], z3.Implies(z3.And(0 <= K, 2 * K < c['handle']), code(c, 2 * K) != NULLP), patterns=[code(c, 2 * K)]))], decreases=lambda c: c['handle_code_max'] - c['handle']),
             2: Loop(lambda c: [('range', z3.And(0 <= c['i'], c['i'] <= c['handle_code_max'])), ('arrays', newarr(c, c['handle_code_max'])), ('cleared', cleared(c, c['i']))], modifies=tabmods, decreases=lambda c: c['handle_code_max'] - c['i']),
             3: Loop(lambda c: [('range', z3.And(0 <= c['i'], c['i'] <= c['handle_code_max'] / 2)), ('arrays', newarr(c, c['handle_code_max'])), ('copied', copied(c, c['i']))] + restclear(c, c['i'], c['handle_code_max']),
                     modifies=tabmods, decreases=lambda c: c['handle_code_max'] - c['i'])})
    # --- one request
    H = lambda c: c['#0'] if c.args is not None else c['handle']
    pre = lambda c: wf(c) + [('a handle', handle(c, c['handle'])), ('in use', code(c, c['handle']) != NULLP)]
    pair = lambda c: [('ptr', blk(c['comm_code']), c['handle'], c['handle'] + 2), ('ptr', blk(c['execution_pointer']), c['handle'], c['handle'] + 2), ('int', blk(c['active_wait']), c['handle'], c['handle'] + 1)]
    hdr = lambda c: c.ex.tu.sizeof(c.ex.tu.structs['header_byte_code'])
    h = lambda c: c.old['handle']
    nocall = lambda c: z3.And(*[c[g] == c.old[g] for g in ('$runs', '$code', '$ep', '$mode')])

    def advanced(c, md):
        o = c.old
        return [('runs the program of this handle, from where it stopped, in the right mode, exactly when it is not finished',
                 z3.If(ep(o, h(c)) != NULLP, z3.And(c['$runs'] == o['$runs'] + 1, c['$code'] == code(o, h(c)), c['$ep'] == padd(o['execution_pointer'], h(c)), c['$mode'] == md), nocall(c)))]
    D('EXT_MPI_Start_native', pre=lambda c: pre(c) + [('not running', ep(c, c['handle']) == NULLP)], modifies=pair,
      post=lambda c: wf(c) + [('the other program of the pair is started when there are two', z3.If(code(c.old, h(c) + 1) != NULLP, z3.And(code(c, h(c)) == code(c.old, h(c) + 1), code(c, h(c) + 1) == code(c.old, h(c))),
                                                                                                 z3.And(code(c, h(c)) == code(c.old, h(c)), code(c, h(c) + 1) == NULLP))),
                              ('execution begins at its first instruction', ep(c, h(c)) == padd(code(c, h(c)), I(hdr(c)))), ('not waiting yet', mode(c, h(c)) == 0), ('returns 0', c.ret == 0)])
    call = ['$runs', '$code', '$ep', '$mode']
    D('EXT_MPI_Test_native', pre=pre, modifies=lambda c: pair(c)[1:], globals_modified=call,
      post=lambda c: wf(c) + advanced(c, 1) + [('true exactly when finished', (c.ret != 0) == (ep(c, h(c)) == NULLP)), ('the programs stay', z3.And(code(c, h(c)) == code(c.old, h(c)), ep(c, h(c) + 1) == ep(c.old, h(c) + 1)))])
    D('EXT_MPI_Wait_native', pre=pre, modifies=lambda c: pair(c)[1:], globals_modified=call,
      post=lambda c: wf(c) + advanced(c, z3.If(mode(c.old, h(c)) == 0, I(3), I(2))) + [('finished', ep(c, h(c)) == NULLP), ('not waiting any more', mode(c, h(c)) == 0), ('returns 0', c.ret == 0), ('the alternate is untouched', ep(c, h(c) + 1) == ep(c.old, h(c) + 1))])
    D('EXT_MPI_Progress_native', pre=lambda c: wf(c) + [('model: pointers are to objects that exist', z3.ForAll([K], blk(ep(c, K)) < c.st.nb, patterns=[ep(c, K)]))], modifies=lambda c: [('ptr', blk(c['execution_pointer']))], globals_modified=call,
      post=lambda c: wf(c),
      loops={0: Loop(lambda c: wf(c) + [('no new object', z3.And(c.st.nb == c.old.st.nb, z3.ForAll([K], blk(ep(c, K)) < c.st.nb, patterns=[ep(c, K)]))), ('range', z3.And(0 <= c['handle'], c['handle'] % 2 == 0, c['handle'] <= c['handle_code_max'])), ('count', z3.And(0 <= c['ret'], 2 * c['ret'] <= c['handle'])),
                                        ('requests not reached yet are as before', z3.ForAll([K], z3.Implies(z3.And(c['handle'] <= K, K < c['handle_code_max']), ep(c, K) == ep(c.old, K)), patterns=[ep(c, K)]))],
                     modifies=lambda c: [('ptr', blk(c['execution_pointer']))], ghosts=call, decreases=lambda c: c['handle_code_max'] - c['handle'],
                     steps=lambda c: [('every running request is advanced once', z3.If(ep(c.prev, c.prev['handle']) != NULLP,
                                          z3.And(c['$runs'] == c.prev['$runs'] + 1, c['$code'] == code(c.prev, c.prev['handle']), c['$ep'] == padd(c['execution_pointer'], c.prev['handle']), c['$mode'] == mode(c.prev, c.prev['handle'])),
                                          z3.And(*[c[g] == c.prev[g] for g in call]))), ('next', c['handle'] == c.prev['handle'] + 2)])})
    # --- release
    T('ext_mpi_node_barrier_mpi')
    T('ext_mpi_destroy_shared_memory')
    T('PMPI_Comm_free')
    OWN = ('locmem', 'barrier_shmem_node')

    def owned(c, i):
        """the objects only program i refers to"""
        return [code(c, i)] + [c.at('header_byte_code.' + f, code(c, i)) for f in OWN]

    def separate(c):
        j, k = z3.Ints('j k')
        T_ = [c[t] for t in TABS]
        out = [('programs are objects of their own', z3.ForAll([j], z3.Implies(z3.And(rng(c, j), code(c, j) != NULLP),
                 z3.And(blk(code(c, j)) > 0, c.valid(code(c, j), hdr(c), 1), off(code(c, j)) == 0, *[blk(code(c, j)) != blk(t) for t in T_])), patterns=[code(c, j)])),
               ('different programs are different objects', z3.ForAll([j, k], z3.Implies(z3.And(rng(c, j), rng(c, k), j != k, code(c, j) != NULLP, code(c, k) != NULLP), blk(code(c, j)) != blk(code(c, k))), patterns=[z3.MultiPattern(code(c, j), code(c, k))]))]
        mine = []
        for i in (c['handle'], c['handle'] + 1):
            os = owned(c, i)
            mine.append(z3.Implies(code(c, i) != NULLP, z3.And(*[z3.Or(x == NULLP, z3.And(off(x) == 0, blk(x) > 0, c.allocated(x), *[blk(x) != blk(t) for t in T_])) for x in os[1:]] + [z3.Or(os[1] == NULLP, blk(os[1]) != blk(os[2]))] +
                        [z3.ForAll([k], z3.Implies(z3.And(rng(c, k), code(c, k) != NULLP), z3.And(*[blk(code(c, k)) != blk(x) for x in os[1:]])), patterns=[code(c, k)])])))
        c0, c1 = code(c, c['handle']), code(c, c['handle'] + 1)
        for i in (c['handle'], c['handle'] + 1):        # instances of the clauses above
            for x in owned(c, i)[1:]:
                mine.append(z3.Implies(code(c, i) != NULLP, z3.And(blk(x) != blk(c0), z3.Or(c1 == NULLP, blk(x) != blk(c1)))))
        mine.append(z3.And(z3.Or(c0 == NULLP, z3.And(blk(c0) > 0, c.valid(c0, hdr(c), 1), off(c0) == 0, *[blk(c0) != blk(t) for t in T_])), z3.Or(c1 == NULLP, z3.And(blk(c1) > 0, c.valid(c1, hdr(c), 1), off(c1) == 0, blk(c0) != blk(c1), *[blk(c1) != blk(t) for t in T_]))))
        a, b = owned(c, c['handle'])[1:], owned(c, c['handle'] + 1)[1:]
        mine.append(z3.Implies(code(c, c['handle'] + 1) != NULLP, z3.And(*[z3.Or(x == NULLP, blk(x) != blk(y)) for x in a for y in b])))
        return out + [('memory of the request belongs to it alone', z3.And(*mine))]
    dead = lambda c, b: z3.Or(*[z3.And(b == blk(x), code(c, i) != NULLP) for i in (c['handle'], c['handle'] + 1) for x in owned(c, i)])
    other = lambda c: z3.Exists([K], z3.And(rng(c, K), K != c['handle'], K != c['handle'] + 1, code(c, K) != NULLP))

    def done_post(c):
        o = c.old
        b = z3.Int('b')
        others = z3.And(rng(o, K), K != h(c), K != h(c) + 1, code(o, K) != NULLP)
        return wf(c) + [('the table stays exactly while another request exists', z3.If(other(o), samearr(c, o), z3.Not(live(c)))),
                        ('the handle is free', z3.Implies(live(c), z3.And(code(c, h(c)) == NULLP, code(c, h(c) + 1) == NULLP, ep(c, h(c)) == NULLP, mode(c, h(c)) == 0))),
                        ('other requests keep their program', z3.ForAll([K], z3.Implies(others, z3.And(code(c, K) == code(o, K), c.st.alive[blk(code(o, K))])), patterns=[code(o, K)])),
                        ('everything of the request is released', z3.ForAll([b], z3.Implies(z3.And(b > 0, dead(o, b)), z3.Not(c.st.alive[b])), patterns=[c.st.alive[b]])), ('returns 0', c.ret == 0)]
    D('EXT_MPI_Done_native', pre=lambda c: pre(c) + separate(c), modifies=pair, globals_modified=call + TABS, post=done_post,
      frees=lambda c: (lambda b: z3.Or(dead(c, b), *[b == blk(c[t]) for t in TABS])),
      loops={0: Loop(lambda c: [('range', z3.And(0 <= c['i'], c['i'] <= c['handle_code_max'])), ('handles passed are free', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < c['i']), code(c, K) == NULLP), patterns=[code(c, K)]))],
                     decreases=lambda c: c['handle_code_max'] - c['i'])})
    # --- installing a new request
    for n in ('MPI_Comm_size',):
        T(n, modifies=lambda c: [('int', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)], pre=lambda c: [('result', c.valid(c['#1'], 1, 4))], post=lambda c: [('size', z3.And(c.i4(c.old['#1']) >= 1, c.i4(c.old['#1']) <= 1 << 15))])
    T('ext_mpi_read_parameters', allocates=True, pre=lambda c: [('result', c.valid(c['#1'], 1, 8))], modifies=lambda c: [('ptr', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)],
      post=lambda c: [('read', z3.And(c.ret >= 0, (lambda p: z3.And(off(p) == 0, blk(p) >= c.old.st.nb, c.valid(p, 1, c.ex.tu.sizeof(c.ex.tu.structs['parameters_block'])), *[z3.And(0 <= c.at('parameters_block.' + f, p), c.at('parameters_block.' + f, p) <= m) for f, m in (('locmem_max', 1 << 26), ('shmem_max', 1 << 28), ('num_sockets_per_node', 1 << 10))]))(c.pp(c.old['#1']))))])
    T('ext_mpi_delete_parameters')
    cellp = lambda c, i: ('ptr', blk(c['#%d' % i]), off(c['#%d' % i]), off(c['#%d' % i]) + 1)
    T('ext_mpi_setup_shared_memory', allocates=True, pre=lambda c: [('results', z3.And(*[c.valid(c['#%d' % i], 1, 8) for i in (0, 1, 8, 9)] + [c.valid(c['#6'], 1, 4)]))],
      modifies=lambda c: [cellp(c, i) for i in (0, 1, 8, 9)] + [('int', blk(c['#6']), off(c['#6']), off(c['#6']) + 1)],
      post=lambda c: [('size only grows to a multiple of a line', z3.And(c.i4(c.old['#6']) >= c.old.i4(c.old['#6']), c.i4(c.old['#6']) <= 1 << 30))])
    T('setup_rank_translation', pre=lambda c: [], post=lambda c: [('done', c.ret == 0)])
    # the largest tag over the ranks of the communicator: at least the own one; every rank gets the same (MPI)
    T('PMPI_Allreduce', pre=lambda c: [('maximum of one number', z3.And(c['#0'] == c['VCG_IN_PLACE'], c['#2'] == 1, c['#3'] == c['MPI_INT'], c['#4'] == c['MPI_MAX'], c.valid(c['#1'], 1, 4)))], modifies=lambda c: [('int', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)],
      globals_modified=['$tag', '$reds', '$over1', '$over2'],
      post=lambda c: [('maximum', z3.And(c['$tag'] == c.i4(c.old['#1']), c['$tag'] >= c.old.i4(c.old['#1']), c['$tag'] < 2**31 - 1, c['$reds'] == c.old['$reds'] + 1,
                                        c['$over1'] == z3.If(c.old['$reds'] == 0, c.old['#5'], c.old['$over1']), c['$over2'] == z3.If(c.old['$reds'] == 0, c.old['$over2'], c.old['#5'])))])

    def gen_pre(c):
        agreed = z3.And(c['#21'] == c['$tag'], c['$tag'] >= c.top('tag_max'), c['tag_max'] == c['$tag'] + 1)
        return [('the tag is the one agreed with every rank of the request, above all earlier ones', z3.If(c.top('comm_row') == c['MPI_COMM_NULL'], c['#21'] == 0,
                   z3.And(agreed, c['$over1'] == c.top('comm_row'), z3.If(c.top('comm_column') == c['MPI_COMM_NULL'], c['$reds'] == 1, z3.And(c['$reds'] == 2, c['$over2'] == c.top('comm_column'))))))]
    T('ext_mpi_generate_byte_code', pre=gen_pre, modifies=lambda c: [('int', blk(c['#20']), off(c['#20']), off(c['#20']) + 1)], post=lambda c: [('size', z3.And(c.ret >= 0, c.ret <= 1 << 30, z3.Implies(c.old['#11'] == NULLP, c.ret >= hdr(c))))])
    tagg = ['$tag', '$reds', '$over1', '$over2']
    small = lambda c: [(n, z3.And(1 <= c[n], c[n] <= 1 << 9)) for n in ('my_cores_per_node_row', 'my_cores_per_node_column')]
    D('init_epilogue', pre=lambda c: wf(c) + small(c) + [('room', c['handle_code_max'] <= 1 << 25), ('no reduction yet', c['$reds'] == 0), ('tags', z3.And(c['tag_max'] >= 0, c['tag_max'] < 2**31 - 1))],
      modifies=lambda c: [('ptr', blk(c['comm_code']))], allocates=True, frees=lambda c: (lambda b: z3.Or(*[b == blk(c[t]) for t in TABS])), globals_modified=TABS + ['handle_code_max', 'tag_max'] + tagg,
      post=lambda c: [('tags never go back', c['tag_max'] >= c.old['tag_max']), ('later requests get later tags', z3.Implies(c.ret >= 0, z3.If(c.old['comm_row'] == c['MPI_COMM_NULL'], c['tag_max'] == c.old['tag_max'], z3.And(c['tag_max'] > c['$tag'], c['$tag'] >= c.old['tag_max'])))),
                      ('the programs of the other requests are untouched', z3.Implies(z3.And(c.ret >= 0, c.old['comm_code'] != NULLP), same(c, c.old, c.ret))),
                      ('a handle with its program', z3.Implies(c.ret >= 0, z3.And(handle(c, c.ret), code(c, c.ret) != NULLP, (code(c, c.ret + 1) != NULLP) == (c.old['alt'] != 0),
                             z3.Implies(c.old['comm_code'] != NULLP, z3.Implies(c.ret < c.old['handle_code_max'], code(c.old, c.ret) == NULLP)))))],
      loops={0: Unroll(8)})
    return C


def units():
    C = contracts()
    return [(F, C, fn) for fn in C if fn[0] != '#' and not C[fn].trusted]


def lemmas():
    """Two requests that share a process never use the same tag. At that process, which prepares A first: mA, mB its tag_max when A, B
    are prepared, mA1 its tag_max after A; the contract of init_epilogue: tag >= tag_max before, tag_max after = tag + 1; between them tag_max never goes back."""
    mA, mA1, mB, tA, tB, k = z3.Ints('mA mA1 mB tA tB k')
    M = z3.Function('tag_max_after', IS, IS)            # of the process, after its k-th preparation
    return [('tags never go back, however many requests lie between: step', [K >= 0, M(k) >= M(K), M(k + 1) >= M(k)], M(k + 1) >= M(K)),
            ('two requests that share a process never use the same tag', [tA >= mA, mA1 == tA + 1, mB >= mA1, tB >= mB], z3.And(tB > tA, tB != tA))]
