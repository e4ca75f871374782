"""contract of ext_mpi_generate_byte_code: every line of the final program becomes exactly its instruction.

The program is read through LN(p), the length of the line at p, and functions of p for its contents (the readers
are verified under C08); the emitted bytes are a ghost log of (position, width, value).  One iteration of the
loop over the lines is specified as a relation between the state at the loop head and after it."""
from vcg import *
from execute import O, KINDS

LN = z3.Function('LN', Ptr, z3.IntSort())
PL = z3.Function('PL', Ptr, z3.IntSort())               # length of the parameters at a position
F = {}


def fn(name, sort=None):
    if name not in F:
        F[name] = z3.Function('L_' + name, Ptr, sort if sort is not None else z3.IntSort())
    return F[name]


Em = z3.Datatype('Em')
Em.declare('mk', ('w', z3.IntSort()), ('at', Ptr), ('i', z3.IntSort()), ('p', Ptr), ('dry', z3.IntSort()))
Em = Em.create()
LOG = z3.ArraySort(z3.IntSort(), Em)
GH = {'$log': LOG, '$n': z3.IntSort(), '$line': Ptr, '$ccp': z3.IntSort()}
E = {}
for x in re.search(r'enum eassembler_type \{(.*?)\}', open(REPO + '/include/core/read_write.h').read(), re.S).group(1).split(','):
    E[x.strip()] = len(E)
MSG = ['type', 'buffer_type', 'buffer_number', 'is_offset', 'offset_number', 'offset', 'size', 'partner', 'tag']
CPY = ['type', 'buffer_type1', 'buffer_number1', 'is_offset1', 'offset_number1', 'offset1', 'buffer_type2', 'buffer_number2', 'is_offset2', 'offset_number2', 'offset2', 'size']
A1 = lambda p: fn('int1')(p)
A2 = lambda p: fn('int2')(p)


def put(name, w, ptr):
    def post(c):
        o = c.old
        ip = o.pp(o['code'])
        v = Em.mk(I(w), ip, I(0) if ptr else o['#1'], o['#1'] if ptr else NULLP, z3.If(o['isdryrun'] != 0, I(1), I(0)))
        return [('stored', z3.And(c['$n'] == o['$n'] + 1, c['$log'] == z3.Store(o['$log'], o['$n'], v))), ('advances', c.pp(o['code']) == padd(ip, I(w)))]
    return Contract(name, trusted=True, pre=lambda c: [('position', c.valid(c['code'], 1, 8))], modifies=lambda c: [('ptr', blk(c['code']), off(c['code']), off(c['code']) + 1)],
                    globals_modified=['$log', '$n'], post=post)


def struct(name, tag, fields, kinds, kind):
    def eff(ex, st, c):
        d = c['data']
        for f in fields:
            ex.wr_cell(st, tag + '.' + f, d, kind if f == 'type' else fn(tag + '.' + f)(c['$line']), c.node)
        return I(1)
    return Contract(name, trusted=True, pre=lambda c: [('data', c.valid(c['data'], 1, 4)), ('line of that kind', z3.Or(*[kind == E[k] for k in kinds]))], effect=eff)


HANDLED = ['ereturn', 'eset_socket_barrier', 'ewait_socket_barrier', 'ewaitall', 'ewaitany', 'eattached', 'eisend', 'eirecv', 'enode_barrier', 'esocket_barrier', 'ememcpy', 'esmemcpy', 'ereduce', 'esreduce']
ANYKIND = z3.Int('some_kind')


def contracts(case):
    """case: the kind of the current line, or None for all kinds without an instruction; the cases together are all lines"""
    C = {'#ghosts': GH, '#case': 'line of kind ' + (case or 'without instruction'), '#prune': [ANYKIND != E[x] for x in HANDLED]}
    kind = I(E[case]) if case else ANYKIND
    C['code_put_char'], C['code_put_int'], C['code_put_pointer'] = put('code_put_char', 1, False), put('code_put_int', 4, False), put('code_put_pointer', 8, True)
    C['ext_mpi_read_line'] = Contract('ext_mpi_read_line', trusted=True, modifies=lambda c: [('char', blk(c['line']))], globals_modified=['$line'],
                                      post=lambda c: [('line', z3.And(c['$line'] == c.old['buffer_in'], c.ret == LN(c.old['buffer_in'])))])

    def ral(ex, st, c):
        for j, (t, v) in enumerate(c.argv[3:]):
            if j < 3:
                ex.wr_cell(st, ex.kind_of(t.to), v, kind if j == 0 else (A1 if j == 1 else A2)(c['$line']), c.node)
            else:
                ex.wr_cell(st, ex.kind_of(t.to), v, fresh('operand', z3.IntSort()), c.node)
        r = fresh('ret', z3.IntSort())
        st.assume(in_range(INT, r))
        return r
    C['ext_mpi_read_assembler_line'] = Contract('ext_mpi_read_assembler_line', trusted=True, pre=lambda c: [('operands', z3.And(*[c.valid(v, 1, 4) for t, v in c.argv[3:]]))], effect=ral)
    C['ext_mpi_read_irecv_isend'] = struct('ext_mpi_read_irecv_isend', 'line_irecv_isend', MSG, ['eisend', 'eirecv'], kind)
    C['ext_mpi_read_memcpy_reduce'] = struct('ext_mpi_read_memcpy_reduce', 'line_memcpy_reduce', CPY, ['ememcpy', 'esmemcpy', 'ereduce', 'esreduce'], kind)
    pf = ['socket_row_size', 'socket_column_size', 'socket_rank', 'num_sockets_per_node', 'ascii_in']

    def par_post(c):
        q = c.pp(c.old['parameters'])
        b = c.old['buffer_in']
        return [('read', z3.And(c.ret == PL(b), blk(q) >= c.old.st.nb, blk(q) < c.st.nb, off(q) == 0, c.valid(q, 1, c.ex.tu.sizeof(c.ex.tu.structs['parameters_block'])),
                                *[c.at('parameters_block.' + f, q) == fn('par_' + f)(b) for f in pf]))]
    C['ext_mpi_read_parameters'] = Contract('ext_mpi_read_parameters', trusted=True, allocates=True, post=par_post,
                                            modifies=lambda c: [('ptr', blk(c['parameters']), off(c['parameters']), off(c['parameters']) + 1)])
    C['ext_mpi_delete_parameters'] = Contract('ext_mpi_delete_parameters', trusted=True, frees=lambda c: [c['parameters']])
    # the two communicators behind the program: recorded as emissions of width size
    def cpy(name, with_src):
        def post(c):
            o = c.old
            v = Em.mk(o['#2'], o['#0'], I(0), o['#1'] if with_src else NULLP, I(2))
            return [('stored', z3.And(c['$n'] == o['$n'] + 1, c['$log'] == z3.Store(o['$log'], o['$n'], v)))]
        return Contract(name, trusted=True, globals_modified=['$log', '$n'], post=post)
    C['memcpy'] = cpy('memcpy', True)
    ms = cpy('memset', False)
    hdr = lambda c: c.argv[0][0].k == 'ptr' and c.argv[0][0].to.k == 'struct'
    hfields = lambda c: [f for f, _ in c.argv[0][0].to.fields]
    C['memset'] = Contract('memset', trusted=True, globals_modified=['$log', '$n'],
                           modifies=lambda c: [('header_byte_code.' + f, blk(c['#0']), off(c['#0']), off(c['#0']) + 1) for f in hfields(c)] if hdr(c) else [],
                           post=lambda c: [('nothing emitted', z3.And(c['$n'] == c.old['$n'], c['$log'] == c.old['$log']))] if hdr(c) else ms.post(c))

    HS = lambda c: c.ex.tu.sizeof(c.ex.tu.structs['header_byte_code'])
    H = lambda c, f: c.at('header_byte_code.' + f, c['header'])
    dry = lambda c: c['code_out'] == NULLP
    start = lambda c: padd(c['buffer_in'], PL(c['buffer_in']))

    def cores(c):
        o = c.old
        b = o['buffer_in']
        return fn('par_socket_row_size')(b) * fn('par_socket_column_size')(b)

    def inv(c):
        o = c.old
        b = o['buffer_in']
        cs = [('dry run', (c['isdryrun'] != 0) == dry(o)), ('header', z3.And(H(c, 'num_cores') == cores(c), z3.Implies(z3.Not(dry(o)), z3.And(c['header'] == o['code_out'], H(c, 'locmem') == o['locmem'])))),
              ('position', z3.And(blk(c['ip']) == blk(o['code_out']), off(c['ip']) >= off(o['code_out']))),
              ('arguments', z3.And(*[c[v] == o[v] for v in ('sendbuf', 'recvbuf', 'shmem', 'locmem', 'reduction_op', 'code_out', 'size_request', 'size_comm', 'comm_row', 'comm_column', 'global_ranks')]))]
        return cs

    def mods(c):
        out = [('line_irecv_isend.' + f, blk(c['data_irecv_isend'])) for f in MSG] + [('line_memcpy_reduce.' + f, blk(c['data_memcpy_reduce'])) for f in CPY] + [('char', blk(c['line']))]
        return out

    def area(c, ty, num, offs):
        o = c.old
        seg = z3.If(o['shmem'] != NULLP, padd2(o.pp(padd2(o['shmem'], num)), offs), padd2(NULLP, offs))
        return z3.If(ty == E['esendbufp'], padd2(o['sendbuf'], offs), z3.If(ty == E['erecvbufp'], padd2(o['recvbuf'], offs), seg))

    def expected(c, p):
        """[(kinds, condition, [(width, int, ptr)])]"""
        o = c.old
        loc = H(c, 'locmem')
        g = lambda f: fn('line_irecv_isend.' + f)(p)
        m = lambda f: fn('line_memcpy_reduce.' + f)(p)
        C1, I4, P8 = (lambda v: (1, v, NULLP)), (lambda v: (4, v, NULLP)), (lambda v: (8, I(0), v))
        many = cores(c) != 1
        msg = lambda op: [C1(I(O[op])), P8(area(c, g('buffer_type'), g('buffer_number'), g('offset'))), I4(g('size')), I4(o.i4(padd2(o['global_ranks'], g('partner')))), P8(padd2(loc, o['size_request'] * g('tag')))]
        op1, op2 = area(c, m('buffer_type1'), m('buffer_number1'), m('offset1')), area(c, m('buffer_type2'), m('buffer_number2'), m('offset2'))
        out = [(['ereturn'], None, [C1(I(O['RETURN']))]), (['eset_socket_barrier'], many, [C1(I(O['SOCKETBARRIER_ATOMIC_SET'])), I4(A1(p))]), (['ewait_socket_barrier'], many, [C1(I(O['SOCKETBARRIER_ATOMIC_WAIT'])), I4(A1(p))]),
               (['ewaitall'], A1(p) != 0, [C1(I(O['MPIWAITALL'])), I4(A1(p)), P8(loc)]), (['ewaitany'], None, [C1(I(O['MPIWAITANY'])), I4(A1(p)), I4(A2(p)), P8(loc)]), (['eattached'], None, [C1(I(O['ATTACHED']))]),
               (['eisend'], None, msg('MPIISEND')), (['eirecv'], None, msg('MPIIRECV')), (['enode_barrier'], None, [C1(I(O['NODEBARRIER']))]), (['esocket_barrier'], many, [C1(I(O['SOCKETBARRIER']))]),
               (['ememcpy', 'esmemcpy'], None, [C1(I(O['MEMCPY'])), P8(op1), P8(op2), I4(m('size'))])]
        sizes = [('REDUCE_SUM_DOUBLE', 8), ('REDUCE_SUM_LONG_INT', 8), ('REDUCE_SUM_FLOAT', 4), ('REDUCE_SUM_INT', 4)]
        num = m('size')
        for nm, s in sizes:
            num = z3.If(o['reduction_op'] == O[nm], m('size') / s, num)
        out.append((['ereduce', 'esreduce'], None, [C1(I(O['REDUCE'])), C1(o['reduction_op']), P8(op1), P8(op2), I4(num)]))
        return out

    def steps(c):
        p = c.prev['buffer_in']
        ip, n = c.prev['ip'], c.prev['$n']
        isdry = z3.If(dry(c.old), I(1), I(0))
        k = kind
        out = [('lines are read one after the other', z3.And(c['$line'] == p, c['buffer_in'] == padd(p, LN(p))))]
        none = [z3.BoolVal(True)]
        for kinds, cond, ems in expected(c, p):
            is_k = z3.Or(*[k == E[x] for x in kinds])
            none.append(z3.Not(is_k))
            if case not in kinds:
                continue
            log, at, w = c.prev['$log'], ip, 0
            for j, (wd, iv, pv) in enumerate(ems):
                log = z3.Store(log, n + j, Em.mk(I(wd), padd(ip, I(w)), iv, pv, isdry))
                w += wd
            silent = z3.And(c['$n'] == n, c['$log'] == c.prev['$log'], c['ip'] == ip)
            em = z3.And(c['$n'] == n + len(ems), c['$log'] == log)
            out.append(('%s becomes exactly its instruction' % '/'.join(kinds), z3.Implies(is_k, em if cond is None else z3.If(cond, em, silent))))
            out.append(('%s: the next instruction follows it' % '/'.join(kinds), z3.Implies(is_k, (c['ip'] == padd(ip, I(w))) if cond is None else z3.If(cond, c['ip'] == padd(ip, I(w)), c['ip'] == ip))))
        if case is None:
            out.append(('any other line emits nothing', z3.Implies(z3.And(*none), z3.And(c['$n'] == n, c['$log'] == c.prev['$log'], c['ip'] == ip))))
        return out

    def hints(c):
        """a line is valid: operands in range, segments and partners exist, data addresses do not overflow"""
        p = c['buffer_in']
        o = c.old
        g = lambda f: fn('line_irecv_isend.' + f)(p)
        m = lambda f: fn('line_memcpy_reduce.' + f)(p)
        one = lambda f: in_range(INT, f)
        out = list(C['#prune']) + [one(A1(p)), one(A2(p)), in_range(INT, LN(p)), one(kind)] + [one(fn('line_irecv_isend.' + f)(p)) for f in MSG] + [one(fn('line_memcpy_reduce.' + f)(p)) for f in CPY]
        ismsg = z3.Or(kind == E['eisend'], kind == E['eirecv'])
        iscpy = z3.Or(*[kind == E[x] for x in ('ememcpy', 'esmemcpy', 'ereduce', 'esreduce')])
        seg = lambda v: z3.Implies(z3.And(o['shmem'] != NULLP), z3.And(v >= 0, v < fn('par_num_sockets_per_node')(o['buffer_in'])))
        out.append(z3.Implies(ismsg, z3.And(z3.Implies(g('buffer_type') == E['eshmemo'], seg(g('buffer_number'))), z3.Or(*[g('buffer_type') == E[x] for x in ('esendbufp', 'erecvbufp', 'eshmemo')]),
                                            o.valid(padd2(o['global_ranks'], g('partner')), 1, 4), in_range(INT, o['size_request'] * g('tag')))))
        for i in '12':
            out.append(z3.Implies(iscpy, z3.And(z3.Implies(m('buffer_type' + i) == E['eshmemo'], seg(m('buffer_number' + i))), z3.Or(*[m('buffer_type' + i) == E[x] for x in ('esendbufp', 'erecvbufp', 'eshmemo')]))))
        out.append(z3.Implies(iscpy, m('size') >= 0))
        out.append(off(c['ip']) - off(o['code_out']) < 1 << 30)         # assumption: programs are shorter than 1 GB
        return out

    def fill_inv(c):
        e = c.entry if c.entry is not None else c
        j = z3.Int('j')
        o = c.old
        q = H(c, 'barrier_shmem_node')
        return [('range', z3.And(0 <= c['i'], c['i'] <= c['num_sockets_per_node'])),
                ('filled', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c['i']), c.pp(q, j) == padd2(o.pp(padd2(o['shmem'], j)), o['my_size_shared_buf'] + 2 * o['barriers_size'])), patterns=[c.pp(q, j)]))]
    fill = Loop(fill_inv, modifies=lambda c: [('ptr', blk(H(c, 'barrier_shmem_node')))], decreases=lambda c: c['num_sockets_per_node'] - c['i'])

    def post(c):
        o = c.old
        h = o['code_out']
        at = lambda f: c.at('header_byte_code.' + f, h)
        b = o['buffer_in']
        par = lambda f: fn('par_' + f)(b)
        j = z3.Int('j')
        have = z3.And(o['shmem'] != NULLP, o.pp(o['shmem']) != NULLP)
        q = at('barrier_shmem_node')
        live = z3.Not(dry(o))
        tail = lambda k, arg: z3.Select(c['$log'], c['$n'] - 2 + k) == Em.mk(o['size_comm'], padd2(h, c.ret - (2 - k) * o['size_comm']), I(0), z3.If(o[arg] != NULLP, o[arg], NULLP), I(2))
        return [('header: counters', z3.Implies(live, z3.And(at('barrier_counter_socket') == 1, at('barrier_counter_node') == 1))),
                ('header: memory', z3.Implies(live, z3.And(at('locmem') == o['locmem'], at('shmem') == o['shmem'], at('shmemid') == o['shmemid']))),
                ('header: topology', z3.Implies(live, z3.And(at('num_cores') == par('socket_row_size') * par('socket_column_size'), at('socket_rank') == par('socket_rank'), at('num_sockets_per_node') == par('num_sockets_per_node'),
                                                             at('node_num_cores_row') == o['node_num_cores_row'], at('node_num_cores_column') == o['node_num_cores_column']))),
                ('header: tag and barriers', z3.Implies(live, z3.And(at('tag') == o['tag'], at('barrier_shmem_size') == o['barriers_size']))),
                ('header: socket barriers behind the data', z3.Implies(live, at('barrier_shmem_socket') == z3.If(have, padd2(o.pp(o['shmem']), o['my_size_shared_buf']), NULLP))),
                ('header: node barriers behind those', z3.Implies(z3.And(live, have, 0 <= j, j < par('num_sockets_per_node')), c.pp(q, j) == padd2(o.pp(padd2(o['shmem'], j)), o['my_size_shared_buf'] + 2 * o['barriers_size']))),
                ('header: no node barriers without segments', z3.Implies(z3.And(live, z3.Not(have)), q == NULLP)),
                ('header: length of the program', z3.Implies(live, at('size_to_return') == c.ret - 2 * o['size_comm'])),
                ('the communicators follow the program', z3.Implies(live, z3.And(tail(0, 'comm_row'), tail(1, 'comm_column'))))]
    NAME = 'ext_mpi_generate_byte_code'

    def pre(c):
        b = c['buffer_in']
        par = lambda f: fn('par_' + f)(b)
        ns = par('num_sockets_per_node')
        j = z3.Int('j')
        return [('buffer of the program', z3.And(blk(b) > 0, blk(b) < c.st.nb, off(b) >= 0)),
                ('output', z3.Implies(c['code_out'] != NULLP, z3.And(off(c['code_out']) == 0, c.valid(c['code_out'], 1, HS(c)), c.bsz(c['code_out']) >= HS(c), blk(c['code_out']) > 0))),
                ('segments', z3.Implies(c['shmem'] != NULLP, z3.And(c.valid(c['shmem'], ns, 8), c.valid(c['shmem'], 1, 8)))),
                ('topology', z3.And(1 <= ns, ns < 1 << 20, *[z3.And(1 <= par(f), par(f) < 1 << 15) for f in ('socket_row_size', 'socket_column_size')], in_range(INT, par('socket_rank')), in_range(INT, PL(b)), PL(b) >= 0)),
                ('sizes', z3.And(0 <= c['barriers_size'], c['barriers_size'] < 1 << 29, 0 <= c['my_size_shared_buf'], c['my_size_shared_buf'] < 1 << 29, 0 <= c['size_comm'], c['size_comm'] < 1 << 20, 0 <= c['reduction_op'], c['reduction_op'] <= 4))]
    C[NAME] = Contract(NAME, pre=pre, post=post, globals_modified=list(GH), allocates=True,
                       modifies=lambda c: [('header_byte_code.' + f, blk(c['code_out'])) for f, _ in c.ex.tu.structs['header_byte_code'].fields],
                       loops={0: fill, 1: Loop(inv, modifies=mods, hints=hints, steps=steps, frees=False, ghosts=list(GH))})
    return C, NAME


def padd2(p, n):
    return Ptr.mk(blk(p), off(p) + n)


def units():
    return [('src/core/byte_code.c',) + contracts(k) for k in HANDLED + [None]]
