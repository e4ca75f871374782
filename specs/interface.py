"""C04: MPI request operations, for lists of any length (src/mpi/ext_mpi_interface.c)

Ghost log of completion events: event k concerns the request value $req[k] (or the handle's request), was made
through the accelerated path iff $acc[k], with status pointer $sts[k] and result $res[k].
HS(v) is the handle registered for request v, -1 if none (guaranteed by C02); RQ(h) the request of handle h."""
import z3
from vcg import Contract, Loop, Ptr, NULLP, blk, off, padd, FSort

IS = z3.IntSort()
HS = z3.Function('HS', Ptr, IS)
RQ = z3.Function('RQ', IS, Ptr)
CS = z3.Function('comm_size', Ptr, IS)
K = z3.Int('k')
F = 'src/mpi/ext_mpi_interface.c'
OPS = {'start': 1, 'wait': 2, 'test': 3}
LOG = ['$n', '$req', '$acc', '$sts', '$res', '$op']
AI = z3.ArraySort(IS, IS)
GHOSTS = {'$n': IS, '$req': z3.ArraySort(IS, Ptr), '$acc': z3.ArraySort(IS, z3.BoolSort()), '$sts': z3.ArraySort(IS, Ptr), '$res': AI, '$op': AI,
          '$counts': AI, '$coff': IS, '$displs': AI, '$doff': IS, '$inits': IS}


def same_log(c, o):
    return [('no event', z3.And(*[c[g] == o[g] for g in LOG]))]


def prefix(c, o):
    """events before are kept"""
    return z3.And(*[z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < o['$n']), c[g][K] == o[g][K]), patterns=[c[g][K]]) for g in LOG[1:]])


def event(c, o, req, acc, sts, res, op):
    n = o['$n']
    fs = [c['$n'] == n + 1, c['$req'] == z3.Store(o['$req'], n, req), c['$acc'] == z3.Store(o['$acc'], n, acc), c['$op'] == z3.Store(o['$op'], n, op)]
    fs.append(c['$sts'] == (o['$sts'] if sts is None else z3.Store(o['$sts'], n, sts)))
    if sts is None:
        fs[-1] = z3.ForAll([K], z3.Implies(K != n, c['$sts'][K] == o['$sts'][K]), patterns=[c['$sts'][K]])
    if res is None:
        fs.append(z3.ForAll([K], z3.Implies(K != n, c['$res'][K] == o['$res'][K]), patterns=[c['$res'][K]]))
    else:
        fs.append(c['$res'] == z3.Store(o['$res'], n, res))
    return z3.And(*fs)


def logpos(c):
    return [('log', c['$n'] >= 0)]


def table():
    v = z3.Const('v', Ptr)
    return [('registered requests have their own handle (C02, C03)', z3.ForAll([v], z3.Implies(HS(v) >= 0, RQ(HS(v)) == v), patterns=[HS(v)])),
            ('absent is -1', z3.ForAll([v], HS(v) >= -1, patterns=[HS(v)]))]


def trusted():
    C = {'#ghosts': GHOSTS}
    T = lambda name, **k: C.__setitem__(name, Contract(name, trusted=True, **k))
    T('ext_mpi_hash_search', pre=lambda c: [('key readable', c.valid(c['#0'], 1, 8))], post=lambda c: [('handle of the request', c.ret == HS(c.pp(c['#0'])))])
    for nm, op in (('Start', 1), ('Wait', 2), ('Test', 3)):
        T('EXT_MPI_' + nm, globals_modified=LOG, pre=lambda c: [('a handle', c['#0'] >= 0)] + logpos(c),
          post=lambda c, op=op: [('event', event(c, c.old, RQ(c['#0']), z3.BoolVal(True), None, c.ret if op == 3 else None, op))])
    rq = lambda c: ('ptr', blk(c['#0']), off(c['#0']), off(c['#0']) + 1)
    T('PMPI_Start', globals_modified=LOG, pre=lambda c: [('request', c.valid(c['#0'], 1, 8))], post=lambda c: [('event', event(c, c.old, c.old.pp(c['#0']), z3.BoolVal(False), None, None, 1))])
    T('PMPI_Wait', globals_modified=LOG, modifies=lambda c: [rq(c)], pre=lambda c: [('request', c.valid(c['#0'], 1, 8))],
      post=lambda c: [('event', event(c, c.old, c.old.pp(c['#0']), z3.BoolVal(False), c['#1'], None, 2)), ('old object', blk(c.pp(c['#0'])) < c.old.st.nb)])
    T('PMPI_Test', globals_modified=LOG, modifies=lambda c: [rq(c), ('int', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)],
      pre=lambda c: [('request', c.valid(c['#0'], 1, 8)), ('flag', c.valid(c['#1'], 1, 4))],
      post=lambda c: [('event', event(c, c.old, c.old.pp(c['#0']), z3.BoolVal(False), c['#2'], c.i4(c['#1']), 3)), ('old object', blk(c.pp(c['#0'])) < c.old.st.nb)])
    PM = {'Startall': [], 'Waitall': [1], 'Waitany': [1], 'Waitsome': [1], 'Testall': [1], 'Testany': [1], 'Testsome': [1]}
    INTS = {'Waitany': [2], 'Waitsome': [2], 'Testall': [2], 'Testany': [2, 3], 'Testsome': [2]}
    for nm in PM:
        def mod(c, nm=nm):
            r = [('ptr', blk(c['#1']), off(c['#1']), off(c['#1']) + c['#0'])] if PM[nm] else []
            r += [('int', blk(c['#%d' % i]), off(c['#%d' % i]), off(c['#%d' % i]) + 1) for i in INTS.get(nm, [])]
            if nm in ('Waitsome', 'Testsome'):
                r.append(('int', blk(c['#3']), off(c['#3']), off(c['#3']) + c['#0']))
            return r
        T('PMPI_' + nm, pre=lambda c: [('only plain requests', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < c['#0']), HS(c.pp(c['#1'], K)) < 0), patterns=[c.pp(c['#1'], K)]))],
          modifies=mod, post=lambda c: [('old objects', z3.ForAll([K], blk(c.pp(c['#1'], K)) < c.old.st.nb, patterns=[c.pp(c['#1'], K)]))])
    # communicators and accelerated initialisation
    for nm in ('MPI_Comm_size', 'PMPI_Comm_size'):
        T(nm, pre=lambda c: [('result', c.valid(c['#1'], 1, 4))], modifies=lambda c: [('int', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)],
          post=lambda c: [('size', z3.And(c.i4(c['#1']) == CS(c['#0']), CS(c['#0']) >= 1))])
    for nm, ic, idp, icm in (('Allgatherv', 4, 5, 7), ('Gatherv', 4, 5, 8), ('Scatterv', 1, 2, 8), ('Reduce_scatter', 2, None, 5)):
        def post(c, ic=ic, idp=idp):
            r = [('counts passed', z3.And(c['$counts'] == c.old.arr('int', c['#%d' % ic]), c['$coff'] == off(c['#%d' % ic]), c['$inits'] == c.old['$inits'] + 1))]
            if idp:
                r.append(('displacements passed', z3.And(c['$displs'] == c.old.arr('int', c['#%d' % idp]), c['$doff'] == off(c['#%d' % idp]))))
            return r
        reqi = {'Allgatherv': 9, 'Gatherv': 10, 'Scatterv': 10, 'Reduce_scatter': 7}[nm]
        T('MPI_%s_init' % nm, globals_modified=['$counts', '$coff', '$displs', '$doff', '$inits'],
          pre=lambda c, ic=ic, idp=idp, icm=icm: [('counts readable', c.valid(c['#%d' % ic], CS(c['#%d' % icm]), 4))] + ([('displacements readable', c.valid(c['#%d' % idp], CS(c['#%d' % icm]), 4))] if idp else []),
          modifies=lambda c, r=reqi: [('ptr', blk(c['#%d' % r]), off(c['#%d' % r]), off(c['#%d' % r]) + 1)], post=post)
    return C


def arrv(c):
    """request list: readable, count not negative, apart from nothing else the call writes"""
    return [('count', c['#0'] >= 0), ('requests', z3.Or(c['#0'] == 0, c.valid(c['#1'], c['#0'], 8)))] + logpos(c) + table()


def sts(i):
    return lambda c: [('statuses ignored or as many as requests', z3.Or(c['#%d' % i] == NULLP, c['#0'] <= 0, c.valid(c['#%d' % i], c['#0'], 24)))]


def any_acc(c, n=None):
    n = c['#0'] if n is None else n
    return z3.Exists([K], z3.And(0 <= K, K < n, HS(c.pp(c['#1'], K)) >= 0))


def contracts():
    C = trusted()
    D = lambda name, **k: C.__setitem__(name, Contract(name, **k))
    one = lambda c: [('request', c.valid(c['#0'], 1, 8))] + logpos(c) + table()
    rq1 = lambda c: ('ptr', blk(c['#0']), off(c['#0']), off(c['#0']) + 1)
    acc1 = lambda c: HS(c.old.pp(c['#0'])) >= 0

    def single(op, sts):
        def post(c):
            o, n = c.old, c.old['$n']
            v = o.pp(c['#0'])
            r = [('one event for this request, on its own path', z3.And(c['$n'] == n + 1, c['$req'][n] == v, c['$acc'][n] == acc1(c), c['$op'][n] == op)), ('earlier events kept', prefix(c, o)),
                 ('an accelerated request succeeds', z3.Implies(acc1(c), c.ret == 0)), ('an accelerated request is not changed', z3.Implies(acc1(c), c.pp(c['#0']) == v))]
            if sts is not None:
                r.append(('a plain request reports into the given status', z3.Implies(z3.Not(acc1(c)), c['$sts'][n] == c['#%d' % sts])))
            if op == 3:
                r.append(('the flag is the result of this test', c.i4(c['#1']) == c['$res'][n]))
            return r
        return post
    D('MPI_Start', pre=one, post=single(1, None), globals_modified=LOG)
    D('MPI_Wait', pre=one, post=single(2, 1), modifies=lambda c: [rq1(c)], globals_modified=LOG)
    D('MPI_Test', pre=lambda c: one(c) + [('flag', c.valid(c['#1'], 1, 4))], post=single(3, 2), modifies=lambda c: [rq1(c), ('int', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)], globals_modified=LOG)
    D('is_in_request_array', pre=lambda c: arrv(c), post=lambda c: [('true exactly when a request of the list is accelerated', (c.ret != 0) == any_acc(c))],
      loops={0: Loop(lambda c: [('range', z3.And(0 <= c['i'], c['i'] <= c.old['#0'])), ('none so far', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < c['i']), HS(c.old.pp(c.old['#1'], K)) < 0), patterns=[c.old.pp(c.old['#1'], K)]))],
                     decreases=lambda c: c.old['#0'] - c['i'])})

    def inst(c):
        """instances of 'some request of the list'"""
        return []

    def upto(c, o, i, op, sts):
        """events of the first i requests of the list, one each"""
        n = o['$n']
        v = o.pp(o['#1'], K)
        ev = n + K
        body = [c['$req'][ev] == v, c['$acc'][ev] == (HS(v) >= 0), c['$op'][ev] == op]
        if sts is not None:
            s = o['#%d' % sts]
            body.append(z3.Implies(HS(v) < 0, c['$sts'][ev] == z3.If(s == NULLP, NULLP, padd(s, K))))
        return z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < i), z3.And(*body)), patterns=[o.pp(o['#1'], K)])

    def rest(c, o, i):
        """requests not reached yet are unchanged"""
        return z3.ForAll([K], z3.Implies(z3.And(i <= K, K < o['#0']), c.pp(o['#1'], K) == o.pp(o['#1'], K)), patterns=[c.pp(o['#1'], K)])

    def inv(op, sts, extra=lambda c: []):
        def f(c):
            o = c.old
            i = c['i']
            return [('range', z3.And(0 <= i, i <= o['#0'])), ('one event per request so far', z3.And(c['$n'] == o['$n'] + i, upto(c, o, i, op, sts))), ('earlier events kept', prefix(c, o)), ('rest unchanged', rest(c, o, i))] + extra(c)
        return f
    reqs = lambda c: [('ptr', blk(c['#1']), off(c['#1']), off(c['#1']) + c['#0'])]
    lreqs = lambda c: [('ptr', blk(c.old['#1']), off(c.old['#1']), off(c.old['#1']) + c.old['#0'])]

    def all_post(op, sts):
        def f(c):
            o = c.old
            return [('a mixed list: every listed request once, each on its own path', z3.Implies(z3.And(any_acc(o), c.ret == 0), z3.And(c['$n'] == o['$n'] + o['#0'], upto(c, o, o['#0'], op, sts)))),
                    ('a mixed list: events of listed requests only', z3.Implies(any_acc(o), z3.And(o['$n'] <= c['$n'], c['$n'] <= o['$n'] + o['#0'], upto(c, o, c['$n'] - o['$n'], op, sts)))),
                    ('a plain list: one call to MPI', z3.Implies(z3.Not(any_acc(o)), c['$n'] == o['$n'])), ('earlier events kept', prefix(c, o))]
        return f
    dec = lambda c: c.old['#0'] - c['i']
    D('MPI_Startall', pre=arrv, post=all_post(1, None), globals_modified=LOG, loops={0: Loop(inv(1, None), decreases=dec)})
    D('MPI_Waitall', pre=lambda c: arrv(c) + sts(2)(c), post=all_post(2, 2), modifies=reqs, allocates=True, globals_modified=LOG, loops={k: Loop(inv(2, 2), modifies=lreqs, decreases=dec) for k in (0, 1)})
    # tests
    flag = lambda i: (lambda c: [('int', blk(c['#%d' % i]), off(c['#%d' % i]), off(c['#%d' % i]) + 1)])
    lflag = lambda i: (lambda c: [('int', blk(c.old['#%d' % i]), off(c.old['#%d' % i]), off(c.old['#%d' % i]) + 1)])
    wr = lambda i: (lambda c: [('writable', c.valid(c['#%d' % i], 1, 4))])

    def done(c, o, i):
        return z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < i), c['$res'][o['$n'] + K] != 0), patterns=[o.pp(o['#1'], K), c['$res'][o['$n'] + K]])

    def testall_post(c):
        o = c.old
        return all_post(3, 3)(c) + [('a mixed list: true exactly when every listed request is complete', z3.Implies(z3.And(any_acc(o), c.ret == 0), (c.i4(o['#2']) != 0) == done(c, o, o['#0'])))]

    def notdone(c, o, i):
        return z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < i), c['$res'][o['$n'] + K] == 0), patterns=[o.pp(o['#1'], K), c['$res'][o['$n'] + K]])
    D('MPI_Testall', pre=lambda c: arrv(c) + wr(2)(c) + sts(3)(c), post=testall_post, modifies=lambda c: reqs(c) + flag(2)(c), allocates=True, globals_modified=LOG,
      loops={k: Loop(inv(3, 3, lambda c: [('flag so far', (c.i4(c.old['#2']) != 0) == done(c, c.old, c['i']))]), modifies=lambda c: lreqs(c) + lflag(2)(c), decreases=dec) for k in (0, 1)})

    def one_status(c, o, i, s):
        v = o.pp(o['#1'], K)
        ev = o['$n'] + K
        return z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < i), z3.And(c['$req'][ev] == v, c['$acc'][ev] == (HS(v) >= 0), c['$op'][ev] == 3, z3.Implies(HS(v) < 0, c['$sts'][ev] == s))), patterns=[v])

    def any_inv(c):
        o = c.old
        i = c['i']
        return [('range', z3.And(0 <= i, i <= o['#0'])), ('one test per request so far', z3.And(c['$n'] == o['$n'] + i, one_status(c, o, i, o['#4']))), ('nothing complete so far', notdone(c, o, i)),
                ('earlier events kept', prefix(c, o)), ('rest unchanged', rest(c, o, i)), ('flag and index', z3.And(c.i4(o['#3']) == 0, c.i4(o['#2']) == -32766))]

    def testany_post(c):
        o = c.old
        n, ix, fl = o['#0'], c.i4(o['#2']), c.i4(o['#3'])
        m = z3.And(any_acc(o), c.ret == 0)
        return [('a mixed list: the first complete request is named', z3.Implies(z3.And(m, fl != 0), z3.And(0 <= ix, ix < n, c['$n'] == o['$n'] + ix + 1, one_status(c, o, ix + 1, o['#4']), notdone(c, o, ix), c['$res'][o['$n'] + ix] != 0))),
                ('a mixed list: no only after every request was found incomplete', z3.Implies(z3.And(m, fl == 0), z3.And(c['$n'] == o['$n'] + n, one_status(c, o, n, o['#4']), notdone(c, o, n), ix == -32766))),
                ('a plain list: one call to MPI', z3.Implies(z3.Not(any_acc(o)), c['$n'] == o['$n'])), ('earlier events kept', prefix(c, o)), ('flag is 0 or 1 on a mixed list', z3.Implies(m, z3.Or(fl == 0, fl == 1)))]
    apart = lambda i, j: (lambda c: [('results apart', z3.Or(blk(c['#%d' % i]) != blk(c['#%d' % j]), off(c['#%d' % i]) != off(c['#%d' % j])))])
    D('MPI_Testany', pre=lambda c: arrv(c) + wr(2)(c) + wr(3)(c) + apart(2, 3)(c), post=testany_post, modifies=lambda c: reqs(c) + flag(2)(c) + flag(3)(c), allocates=True, globals_modified=LOG,
      loops={0: Loop(any_inv, modifies=lambda c: lreqs(c) + lflag(2)(c) + lflag(3)(c), decreases=dec)})

    def some_post(c):
        o = c.old
        oc, i0 = c.i4(o['#2']), c.i4(o['#3'])
        m = z3.And(any_acc(o), c.ret == 0)
        return [('a mixed list: a complete request is named', z3.Implies(z3.And(m, oc != 0), z3.And(oc == 1, 0 <= i0, i0 < o['#0'], c['$res'][c['$n'] - 1] != 0, c['$n'] > o['$n'], c['$req'][c['$n'] - 1] == o.pp(o['#1'], i0)))),
                ('a mixed list: zero only after every request was found incomplete', z3.Implies(z3.And(m, oc == 0), z3.And(c['$n'] == o['$n'] + o['#0'], notdone(c, o, o['#0']))))]
    some_mod = lambda c: reqs(c) + flag(2)(c) + [('int', blk(c['#3']), off(c['#3']), off(c['#3']) + z3.If(c['#0'] > 0, c['#0'], 1))]
    some_pre = lambda c: arrv(c) + wr(2)(c) + [('indices', z3.And(c.valid(c['#3'], 1, 4), z3.Or(c['#0'] <= 0, c.valid(c['#3'], c['#0'], 4)))), ('results apart', blk(c['#2']) != blk(c['#3'])), ('statuses ignored or readable', z3.Or(c['#4'] == NULLP, c.valid(c['#4'], 1, 24)))]
    D('MPI_Testsome', pre=some_pre, post=some_post, modifies=some_mod, allocates=True, globals_modified=LOG)

    # waits: partial correctness, a wait for something that never completes does not return
    def wany_outer(c):
        o = c.old
        return [('log grows', c['$n'] >= o['$n']), ('earlier events kept', prefix(c, o)), ('has an accelerated request', any_acc(o)),
                ('requests keep their identity while none completes', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < o['#0']), c.pp(o['#1'], K) == o.pp(o['#1'], K)), patterns=[c.pp(o['#1'], K)]))]
    C['PMPI_Test'].post = (lambda old: (lambda c: old(c) + [('an incomplete request is not changed', z3.Implies(c.i4(c['#1']) == 0, c.pp(c['#0']) == c.old.pp(c['#0'])))]))(C['PMPI_Test'].post)
    p0 = C['MPI_Test'].post
    C['MPI_Test'].post = lambda c: p0(c) + [('an incomplete request is not changed', z3.Implies(c.i4(c['#1']) == 0, c.pp(c['#0']) == c.old.pp(c['#0'])))]

    def wany_post(c):
        o = c.old
        ix = c.i4(o['#2'])
        last = c['$n'] - 1
        v = o.pp(o['#1'], ix)
        return [('a mixed list: the request named was found complete by the last test', z3.Implies(z3.And(any_acc(o), c.ret == 0), z3.And(0 <= ix, ix < o['#0'], last >= o['$n'], c['$res'][last] != 0, c['$req'][last] == v, c['$op'][last] == 3,
                    c['$acc'][last] == (HS(v) >= 0), z3.Implies(HS(v) < 0, c['$sts'][last] == o['#3'])))),
                ('a plain list: one call to MPI', z3.Implies(z3.Not(any_acc(o)), c['$n'] == o['$n'])), ('earlier events kept', prefix(c, o))]
    D('MPI_Waitany', pre=lambda c: arrv(c) + wr(2)(c), post=wany_post, modifies=lambda c: reqs(c) + flag(2)(c), allocates=True, globals_modified=LOG,
      loops={0: Loop(wany_outer, modifies=lambda c: lreqs(c) + lflag(2)(c)),
             1: Loop(lambda c: wany_outer(c) + [('range', z3.And(0 <= c['i'], c['i'] <= c.old['#0']))], modifies=lambda c: lreqs(c) + lflag(2)(c), decreases=dec)})
    D('MPI_Waitsome', pre=some_pre, post=lambda c: some_post(c)[:1] + [('a mixed list: at least one', z3.Implies(z3.And(any_acc(c.old), c.ret == 0), c.i4(c.old['#2']) == 1))], modifies=some_mod, allocates=True, globals_modified=LOG)

    # uniform variants
    def uni(nm, icount, icomm, displs, ireq):
        def pre(c):
            return [('total fits an int', z3.And(c['#%d' % icount] >= 0, CS(c['#%d' % icomm]) * c['#%d' % icount] <= 2147483647, CS(c['#%d' % icomm]) >= 1, CS(c['#%d' % icomm]) <= 2147483647)), ('request', c.valid(c['#%d' % ireq], 1, 8))]

        def post(c):
            n, k = CS(c['#%d' % icomm]), c['#%d' % icount]
            return [('one collective is initialised', c['$inits'] == c.old['$inits'] + 1), ('every rank gets the uniform count', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < n), c['$counts'][c['$coff'] + K] == k), patterns=[c['$counts'][c['$coff'] + K]]))] + \
                ([('displacements are consecutive', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < n), c['$displs'][c['$doff'] + K] == K * k), patterns=[c['$displs'][c['$doff'] + K]]))] if displs else [])
        cn = {'Scatter': 'sendcounts'}.get(nm, 'recvcounts')

        def inv(c):
            n, k = CS(c.old['#%d' % icomm]), c.old['#%d' % icount]
            r = [('range', z3.And(0 <= c['i'], c['i'] <= n, c['mpi_size'] == n)),
                 ('counts array', z3.And(c.valid(c[cn], n, 4), off(c[cn]) == 0)), ('counts so far', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < c['i']), c.i4(c[cn], K) == k), patterns=[c.i4(c[cn], K)]))]
            if displs:
                r += [('displacements array', z3.And(c.valid(c['displs'], n, 4), off(c['displs']) == 0, blk(c['displs']) != blk(c[cn]))),
                      ('displacements so far', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < c['i']), c.i4(c['displs'], K) == K * k), patterns=[c.i4(c['displs'], K)]))]
            return r
        hint = lambda c: [z3.Implies(z3.And(0 <= c['i'], c['i'] < CS(c.old['#%d' % icomm]), c.old['#%d' % icount] >= 0), z3.And(c['i'] * c.old['#%d' % icount] <= CS(c.old['#%d' % icomm]) * c.old['#%d' % icount], c['i'] * c.old['#%d' % icount] >= 0))]
        D('MPI_%s_init' % nm, pre=pre, post=post, allocates=True, globals_modified=['$counts', '$coff', '$displs', '$doff', '$inits'],
          modifies=lambda c: [('ptr', blk(c['#%d' % ireq]), off(c['#%d' % ireq]), off(c['#%d' % ireq]) + 1)],
          loops={0: Loop(inv, modifies=lambda c: [('int', blk(c[cn]))] + ([('int', blk(c['displs']))] if displs else []), decreases=lambda c: CS(c.old['#%d' % icomm]) - c['i'], hints=hint)})
    uni('Allgather', 4, 6, True, 8)
    uni('Gather', 4, 7, True, 9)
    uni('Scatter', 1, 7, True, 9)
    uni('Reduce_scatter_block', 2, 5, False, 7)
    return C


def lemmas():
    a, b, n = z3.Ints('a b n')
    return [('products are monotonic', [0 <= a, a < n, b >= 0], z3.And(a * b <= n * b, a * b >= 0))]


def units():
    C = contracts()
    return [(F, C, fn) for fn in C if fn != '#ghosts' and not C[fn].trusted]
