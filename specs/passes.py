"""contracts of the passes that rewrite a finished program line by line (src/core, src/mpi/clean_barriers.c)

The program is read through LN(p) (the length of the line at p) and functions of p for its contents; what a pass writes
is a ghost log of records (kind of record, place, line copied, fields).  Readers and writers are verified under C08.
One iteration of a loop over the lines is specified as a relation between the state at its head and after it."""
from vcg import *

IS = z3.IntSort()
LN, PL = z3.Function('LN', Ptr, IS), z3.Function('PL', Ptr, IS)
F = {}


def fn(name, sort=IS):
    if name not in F:
        F[name] = z3.Function('L_' + name, Ptr, sort)
    return F[name]


Em = z3.Datatype('Rec')
NF = 12
Em.declare('mk', ('what', IS), ('at', Ptr), ('line', Ptr), *[('f%d' % i, IS) for i in range(NF)])
Em = Em.create()
LINE, MSG, CPY, PAR, EOF = range(5)
LOG = z3.ArraySort(IS, Em)
LINES = z3.ArraySort(IS, Ptr)
GH = {'$log': LOG, '$last': Em, '$n': IS, '$next': Ptr, '$lines': LINES, '$bars': IS, '$rn': IS, '$rval': z3.ArraySort(IS, IS), '$rcomm': z3.ArraySort(IS, Ptr), '$rmin': IS, '$rres': z3.ArraySort(IS, IS)}
HDR = open(REPO + '/include/core/read_write.h').read()
E = {}
for x in re.search(r'enum eassembler_type \{(.*?)\}', HDR, re.S).group(1).split(','):
    E[x.strip()] = len(E)
D = {}
for x in re.search(r'enum edata_type \{(.*?)\}', HDR, re.S).group(1).split(','):
    D[x.strip()] = len(D)
CACHE = int(re.search(r'^#define CACHE_LINE_SIZE (\d+)', HDR, re.M).group(1))
MSGF = ['type', 'buffer_type', 'buffer_number', 'is_offset', 'offset_number', 'offset', 'size', 'partner', 'tag']
CPYF = ['type', 'buffer_type1', 'buffer_number1', 'is_offset1', 'offset_number1', 'offset1', 'buffer_type2', 'buffer_number2', 'is_offset2', 'offset_number2', 'offset2', 'size']
PARF = [f for f in re.findall(r'(?:int|enum \w+) (\w+(?:, \w+)*);', re.search(r'struct parameters_block \{(.*?)\}', HDR, re.S).group(1))]
PARF = [g.strip() for f in PARF for g in f.split(',')]
PARP = re.findall(r'int \*(\w+);', re.search(r'struct parameters_block \{(.*?)\}', HDR, re.S).group(1))
MSGK = [E[x] for x in ('eisend', 'eirecv', 'eisen_', 'eirec_')]
CPYK = [E[x] for x in ('ememcpy', 'ememcp_', 'ereduce', 'ereduc_', 'esmemcpy', 'esmemcp_', 'esreduce', 'esreduc_')]
KD, A1 = fn('kind'), fn('int1')
G, M = (lambda f, p: fn('msg_' + f)(p)), (lambda f, p: fn('cpy_' + f)(p))


def is_in(k, ks):
    return z3.Or(*[k == x for x in ks])


def readable(p):
    return z3.And(LN(p) > 0, fn('readable')(p) >= 0)


def rec(what, at, line=NULLP, fields=()):
    return Em.mk(I(what), at, line, *(list(fields) + [I(0)] * (NF - len(fields))))


def logged(c, o, r):
    return z3.And(c['$n'] == o['$n'] + 1, c['$log'] == z3.Store(o['$log'], o['$n'], r), c['$last'] == r, c['$next'] == padd(o['$next'], c.ret), c.ret >= 0, c.ret < 1 << 26)


def contracts(par_changed=()):
    C = {'#ghosts': GH}
    T = lambda name, **k: C.__setitem__(name, Contract(name, trusted=True, **k))
    pf = lambda f: fn('par_' + f)
    LG = ['$log', '$n', '$next', '$last']

    def par_post(c):
        q = c.pp(c.old['parameters'])
        b = c.old['buffer_in']
        return [('read', z3.And(c.ret == PL(b), blk(q) >= c.old.st.nb, blk(q) < c.st.nb, off(q) == 0, c.valid(q, 1, c.ex.tu.sizeof(c.ex.tu.structs['parameters_block'])),
                                *[c.at('parameters_block.' + f, q) == pf(f)(b) for f in PARF]))]
    T('ext_mpi_read_parameters', allocates=True, post=par_post, modifies=lambda c: [('ptr', blk(c['parameters']), off(c['parameters']), off(c['parameters']) + 1)])
    T('ext_mpi_delete_parameters', frees=lambda c: [c['parameters']])

    contig = lambda c: ('what is written is contiguous', c['#0'] == c['$next'])

    def par_pre(c):
        b = c.top('buffer_in')
        return [contig(c)] + [('the parameters are passed on: ' + f, c.at('parameters_block.' + f, c['#0' if c.has('parameters') and False else 'parameters']) == pf(f)(b)) for f in PARF if f not in par_changed]
    T('ext_mpi_write_parameters', pre=lambda c: [('what is written is contiguous', c['#1'] == c['$next'])] + par_pre(c)[1:], globals_modified=LG,
      post=lambda c: [('logged', logged(c, c.old, rec(PAR, c.old['#1'])))])

    def line_post(c):
        o = c.old
        p = o['buffer_in']
        bar = z3.If(z3.And(readable(p), KD(p) == E['esocket_barrier']), I(1), I(0))
        return [('line', z3.And(c['$lines'] == z3.Store(o['$lines'], blk(o['line']), p), c.ret == LN(p), c['$bars'] == o['$bars'] + bar))]
    T('ext_mpi_read_line', modifies=lambda c: [('char', blk(c['line']))], globals_modified=['$lines', '$bars'], post=line_post)
    L = lambda c, a: z3.Select(c['$lines'], blk(c[a]))

    def ral(ex, st, c):
        p = L(c, '#0')
        for j, (t, v) in enumerate(c.argv[3:]):
            if j < 2:
                if t.k == 'ptr':
                    ex.wr_cell(st, ex.kind_of(t.to), v, (KD if j == 0 else A1)(p), c.node)
        n = len(c.argv) - 3
        if n == 1:
            return fn('readable')(p)
        r = fresh('ret', IS)
        st.assume(z3.And(r != -1, in_range(INT, r)))       # -11, 0 or the length
        return r
    T('ext_mpi_read_assembler_line', pre=lambda c: [('operands', z3.And(*[c.valid(v, 1, 4) for t, v in c.argv[3:] if t.k == 'ptr']))], effect=ral)

    def struct(name, tag, f, ks, always):
        def eff(ex, st, c):
            d, p = c['data'], L(c, '#0')
            hit = z3.And(fn('readable')(p) >= 0, is_in(KD(p), ks))
            for x in f:
                old = c.at(tag + '.' + x, d)
                v = KD(p) if x == 'type' else fn(('msg_' if tag == 'line_irecv_isend' else 'cpy_') + x)(p)
                e = z3.If(fn('readable')(p) >= 0, v, old) if x == 'type' else z3.If(hit, v, I(-1 if 'number' in x else 0) if x in always else old)
                ex.wr_cell(st, tag + '.' + x, d, e, c.node)
            return z3.If(hit, I(1), I(0))
        T(name, pre=lambda c: [('data', c.valid(c['data'], 1, 4))], effect=eff)
    struct('ext_mpi_read_irecv_isend', 'line_irecv_isend', MSGF, MSGK, ['buffer_number', 'offset_number', 'is_offset'])
    struct('ext_mpi_read_memcpy_reduce', 'line_memcpy_reduce', CPYF, CPYK, ['buffer_number1', 'offset_number1', 'is_offset1', 'buffer_number2', 'offset_number2', 'is_offset2'])

    def wr(name, what, tag, f):
        def fields(c):
            v = {x: c.at(tag + '.' + x, c['data']) for x in f}
            for i in ('1', '2') if tag == 'line_memcpy_reduce' else ('',):
                v['offset_number' + i] = z3.If(v['is_offset' + i] != 0, v['offset_number' + i], I(-1))
            return [v[x] for x in f]
        T(name, pre=lambda c: [contig(c)], globals_modified=LG, post=lambda c: [('logged', logged(c, c.old, rec(what, c.old['#0'], NULLP, fields(c.old))))])
    wr('ext_mpi_write_irecv_isend', MSG, 'line_irecv_isend', MSGF)
    wr('ext_mpi_write_memcpy_reduce', CPY, 'line_memcpy_reduce', CPYF)
    T('ext_mpi_write_line', pre=lambda c: [contig(c)], globals_modified=LG, post=lambda c: [('logged', logged(c, c.old, rec(LINE, c.old['#0'], L(c.old, '#1'))))])
    T('ext_mpi_write_eof', pre=lambda c: [contig(c)], globals_modified=LG, post=lambda c: [('logged', logged(c, c.old, rec(EOF, c.old['#0'])))])
    T('exit', noreturn=True)
    return C


def one_line(c, p):
    """a line in the buffer is well formed"""
    return [LN(p) < 1 << 26, LN(p) >= 0, z3.Implies(LN(p) > 0, fn('readable')(p) >= 0), in_range(INT, KD(p)), in_range(INT, fn('readable')(p)), in_range(INT, A1(p))] + [in_range(INT, G(f, p)) for f in MSGF] + [in_range(INT, M(f, p)) for f in CPYF]


def base_pre(c):
    return [('program', z3.And(blk(c['buffer_in']) > 0, blk(c['buffer_in']) < c.st.nb, off(c['buffer_in']) >= 0, PL(c['buffer_in']) >= 0, PL(c['buffer_in']) < 1 << 26)),
            ('output', z3.And(blk(c['buffer_out']) > 0, off(c['buffer_out']) >= 0, c['$next'] == c['buffer_out'])), ('ghosts', z3.And(c['$bars'] == 0, c['$rn'] == 0, c['$n'] == 0))]


def small(c, *names):
    """assumption: programs are shorter than 1 GB"""
    return [z3.And(0 <= c[n], c[n] < 1 << 30) for n in names]


def ended(c):
    """the program ends where the lines end"""
    o = c.old
    n = c['$n']
    last = c['$last']
    return [('the parameters come first', z3.Select(c['$log'], I(0)) == rec(PAR, o['buffer_out'])), ('the end is marked', z3.And(n >= 2, Em.what(last) == EOF)), ('reports success', c.ret >= 0)]


def stream(c, src='buffer_in', add='nbuffer_in'):
    """place of the next line to read"""
    return padd(c[src], c[add]) if add else c[src]


def simple(name, what, sel, inv2=None, pre2=None, mods2=(), gl=(), par_changed=(), decorate=None, post2=None, argpos=True):
    """a pass with one loop over the lines; sel(c, p): what the line p becomes"""
    C = contracts(par_changed)
    o_in = lambda c: c.old['buffer_in']

    def inv(c):
        out = [('output so far', z3.And(c['$next'] == padd(c['buffer_out'], c['nbuffer_out']), c['nbuffer_out'] >= 0, c['$n'] >= 1)),
               ('the parameters come first', z3.Select(c['$log'], I(0)) == rec(PAR, c.old['buffer_out'])), ('input', c['nbuffer_in'] >= 0), ('arguments', z3.And(c['buffer_in'] == c.old['buffer_in'], c['buffer_out'] == c.old['buffer_out']))]
        return out + (inv2(c) if inv2 else [])

    def steps(c):
        p = padd(c.prev['buffer_in'], c.prev['nbuffer_in'])
        n, log = c.prev['$n'], c.prev['$log']
        at = padd(c.prev['buffer_out'], c.prev['nbuffer_out'])
        out = [('lines are read one after the other', c['nbuffer_in'] == c.prev['nbuffer_in'] + LN(p))]
        silent = z3.And(c['$n'] == n, c['$log'] == log)
        out.append(('nothing comes from the end of the program', z3.Implies(LN(p) == 0, silent)))
        for label, cond, r in sel(c, p, at):
            out.append((label, z3.Implies(z3.And(LN(p) > 0, cond), silent if r is None else z3.And(c['$n'] == n + 1, c['$log'] == z3.Store(log, n, r)))))
        return out

    def hints(c):
        p = padd(c['buffer_in'], c['nbuffer_in'])
        return one_line(c, p) + small(c, 'nbuffer_in', 'nbuffer_out') + (decorate(c, p) if decorate else [])
    frees = None
    mods = lambda c: [('char', blk(c['line']))] + [m for f in mods2 for m in f(c)]
    C[name] = Contract(name, pre=lambda c: base_pre(c) + (pre2(c) if pre2 else []), post=lambda c: [(a, z3.Implies(c.ret >= 0, b)) for a, b in ended(c)[:-1]] + (post2(c) if post2 else ended(c)[-1:]), globals_modified=list(GH), allocates=True,
                       loops={0: Loop(inv, modifies=mods, hints=hints, steps=steps, frees=False, ghosts=list(GH))})
    return C


def keep(p, at):
    return rec(LINE, at, p)


def dummy():
    return simple('ext_mpi_generate_dummy', '', lambda c, p, at: [('every line is kept', z3.BoolVal(True), keep(p, at))])


def no_first():
    BAR = lambda p: KD(p) == E['esocket_barrier']
    first = lambda c, p: z3.And(BAR(p), c.prev['$bars'] == 0)
    return simple('ext_mpi_generate_no_first_barrier', '', lambda c, p, at: [('the first barrier goes', first(c, p), None), ('every other line is kept', z3.Not(first(c, p)), keep(p, at))],
                  inv2=lambda c: [('barriers so far', z3.And(c['$bars'] >= 0, (c['first'] != 0) == (c['$bars'] == 0)))])


def no_socket():
    BAR = lambda p: KD(p) == E['esocket_barrier']
    par = lambda c, f: fn('par_' + f)(c['buffer_in'])
    return simple('ext_mpi_generate_no_socket_barriers', '', lambda c, p, at: [('socket barriers go', BAR(p), None), ('every other line is kept', z3.Not(BAR(p)), keep(p, at))],
                  pre2=lambda c: [('topology', z3.And(*[z3.And(1 <= par(c, f), par(c, f) < 1 << 15) for f in ('socket_row_size', 'socket_column_size')]))],
                  inv2=lambda c: [('one task per socket', par(c.old, 'socket_row_size') * par(c.old, 'socket_column_size') == 1)])


def no_offset():
    """every place named by segment and offset becomes a plain offset; the rest is kept"""
    par = lambda c, f: fn('par_' + f)(c.old['buffer_in'])
    tabp = lambda c: fn('parp_shmem_buffer_offset', Ptr)(c.old['buffer_in'])
    entry = lambda c, k: fn2('par_segment')(c.old['buffer_in'], k)
    total = lambda c: entry(c, par(c, 'shmem_buffer_offset_max') - 1)
    where = lambda c, is_off, num, off_: z3.If(is_off != 0, off_ + z3.If(num >= 0, entry(c, num), total(c)), off_)

    def msg(c, p, at):
        v = {f: (KD(p) if f == 'type' else G(f, p)) for f in MSGF}
        v['offset'], v['is_offset'], v['offset_number'] = where(c, G('is_offset', p), G('offset_number', p), G('offset', p)), I(0), I(-1)
        return rec(MSG, at, NULLP, [v[f] for f in MSGF])

    def cpy(c, p, at):
        v = {f: (KD(p) if f == 'type' else M(f, p)) for f in CPYF}
        for i in '12':
            v['offset' + i], v['is_offset' + i], v['offset_number' + i] = where(c, M('is_offset' + i, p), M('offset_number' + i, p), M('offset' + i, p)), I(0), I(-1)
        return rec(CPY, at, NULLP, [v[f] for f in CPYF])
    ks = [k for k in CPYK if k != E['esreduc_']]        # no pass generates that kind

    def sel(c, p, at):
        a, b = is_in(KD(p), MSGK), is_in(KD(p), ks)
        return [('a message keeps all but the form of its place', a, msg(c, p, at)), ('a copy keeps all but the form of its places', b, cpy(c, p, at)), ('every other line is kept', z3.Not(z3.Or(a, b)), keep(p, at))]

    def decorate(c, p):
        """segments exist and places stay below 2 GB"""
        o = c
        mx = par(o, 'shmem_buffer_offset_max')
        seg = lambda k: z3.And(k < mx, z3.Implies(k >= 0, entry(o, k) == c.i4(c['buffer_offset'], k)))
        out = [in_range(INT, total(o)), total(o) == c.i4(c['buffer_offset'], mx - 1)]
        for ks_, is_, num, of in [(MSGK, G('is_offset', p), G('offset_number', p), G('offset', p))] + [(ks, M('is_offset' + i, p), M('offset_number' + i, p), M('offset' + i, p)) for i in '12']:
            out.append(z3.Implies(z3.And(is_in(KD(p), ks_), is_ != 0), z3.And(seg(num), in_range(INT, where(o, is_, num, of)))))
        return out
    k = z3.Int('k')
    C = simple('ext_mpi_generate_no_offset', '', sel, decorate=decorate, par_changed=('shmem_max',),
               inv2=lambda c: [('the table of segments', z3.And(c['buffer_offset'] == tabp(c), c.at('parameters_block.shmem_max', c['parameters']) == total(c),
                                                              z3.ForAll([k], c.i4(c['buffer_offset'], k) == entry(c, k), patterns=[c.i4(c['buffer_offset'], k)])))],
               mods2=[lambda c: [('line_irecv_isend.' + f, blk(c['data_irecv_isend'])) for f in MSGF] + [('line_memcpy_reduce.' + f, blk(c['data_memcpy_reduce'])) for f in CPYF]])
    rp = C['ext_mpi_read_parameters']
    base = rp.post

    def par_post(c):
        q, b = c.pp(c.old['parameters']), c.old['buffer_in']
        t, mx = fn('parp_shmem_buffer_offset', Ptr)(b), fn('par_shmem_buffer_offset_max')(b)
        return base(c) + [('the table of segments', z3.And(c.at('parameters_block.shmem_buffer_offset', q) == t, blk(t) >= c.old.st.nb, blk(t) < c.st.nb, off(t) == 0, blk(t) != blk(q), 1 <= mx, mx < 1 << 26, c.valid(t, mx, 4),
                                                         z3.ForAll([k], c.i4(t, k) == fn2('par_segment')(b, k), patterns=[c.i4(t, k)])))]
    C['ext_mpi_read_parameters'] = Contract('ext_mpi_read_parameters', trusted=True, allocates=True, post=par_post, modifies=rp.modifies)
    w = C['ext_mpi_write_parameters']
    C['ext_mpi_write_parameters'] = Contract('ext_mpi_write_parameters', trusted=True, globals_modified=w.globals_modified, post=w.post, pre=lambda c: w.pre(c) + [
        ('the total is handed on', c.at('parameters_block.shmem_max', c['parameters']) == total(Top(c)))])
    return C


class Top:
    """the entry state, from the contract of a callee"""
    def __init__(self, c):
        self.old = c.ex.old


def fn2(name):
    if name not in F:
        F[name] = z3.Function('L_' + name, Ptr, IS, IS)
    return F[name]


def clean():
    """src/mpi/clean_barriers.c: a barrier may only go when no rank of the socket did anything since the last one"""
    BAR = lambda p: KD(p) == E['esocket_barrier']
    idle = lambda p: z3.Or(KD(p) == E['enop'], z3.And(KD(p) == E['ewaitany'], A1(p) == 0))
    col = lambda c: c.old['comm_column'] != c['MPI_COMM_NULL']
    lastbar = lambda c: z3.And(Em.what(c['$last']) == LINE, BAR(Em.line(c['$last'])))
    busy = lambda c: z3.Not(lastbar(c))
    ok = lambda p: z3.And(z3.Not(BAR(p)), z3.Not(idle(p)))
    nred = lambda c: z3.If(col(c), I(2), I(1))
    par = lambda c, f: fn('par_' + f)(c.old['buffer_in'])

    def sel(c, p, at):
        # the last reduction saw somebody who did something
        goes = c['$rmin'] != 0
        return [('no-operations go', idle(p), None), ('every other line is kept', ok(p), keep(p, at)), ('a barrier goes when everybody agrees', z3.And(BAR(p), goes), None), ('a barrier is kept when somebody did something since the last one', z3.And(BAR(p), z3.Not(goes)), keep(p, at))]

    def inv2(c):
        return [('nothing done since the last barrier', c['flag2'] == z3.If(lastbar(c), I(1), I(0))), ('ranks of the same socket', z3.And(c['comm_rowl'] == SPLIT(c.old['comm_row'], divr(RANK(c.old['comm_row']), par(c, 'socket_row_size'))),
                z3.Implies(col(c), c['comm_columnl'] == SPLIT(c.old['comm_column'], divr(RANK(c.old['comm_column']), par(c, 'socket_column_size')))))),
                ('arguments', c['comm_column'] == c.old['comm_column']), ('reductions', c['$rn'] >= nred(c))]
    C = simple('ext_mpi_clean_barriers', '', sel, inv2=inv2, post2=lambda c: [], pre2=lambda c: [('topology', z3.And(*[z3.And(1 <= fn('par_' + f)(c['buffer_in']), fn('par_' + f)(c['buffer_in']) < 1 << 15) for f in ('socket_row_size', 'socket_column_size')])), ('communicator', z3.And(c['comm_row'] != c['MPI_COMM_NULL'], c['MPI_COMM_NULL'] == c['MPI_COMM_NULL']))])
    lp = C['ext_mpi_clean_barriers'].loops[0]
    steps0 = lp.steps

    def steps(c):
        p = padd(c.prev['buffer_in'], c.prev['nbuffer_in'])
        r0, was = c.prev['$rn'], z3.If(lastbar(c.prev), I(1), I(0))
        val, com = lambda i: z3.Select(c['$rval'], r0 + i), lambda i: z3.Select(c['$rcomm'], r0 + i)
        isb = z3.And(LN(p) > 0, BAR(p))
        return steps0(c) + [('everybody takes part in every decision, and only in those', c['$rn'] == r0 + z3.If(isb, nred(c), I(0))),
                            ('each rank votes whether it did nothing since the last barrier', z3.Implies(isb, z3.And(val(0) == was, com(0) == c['comm_rowl']))),
                            ('the votes of the rows are joined', z3.Implies(z3.And(isb, col(c)), z3.And(val(1) == z3.Select(c['$rres'], r0), com(1) == c['comm_columnl'])))]
    lp.steps = steps
    T = lambda name, **k: C.__setitem__(name, Contract(name, trusted=True, **k))
    T('MPI_Comm_rank', pre=lambda c: [('result', c.valid(c['#1'], 1, 4))], modifies=lambda c: [('int', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)], post=lambda c: [('rank', z3.And(c.ret == 0, c.i4(c.old['#1']) == RANK(c.old['#0']), RANK(c.old['#0']) >= 0, RANK(c.old['#0']) < 1 << 30))])
    T('PMPI_Comm_split', pre=lambda c: [('result', c.valid(c['#3'], 1, 8))], modifies=lambda c: [('ptr', blk(c['#3']), off(c['#3']), off(c['#3']) + 1)],
      post=lambda c: [('communicator', z3.And(c.ret == 0, c.pp(c.old['#3']) == SPLIT(c.old['#0'], c.old['#1']), c.pp(c.old['#3']) != NULLP))])
    T('PMPI_Comm_free', modifies=lambda c: [('ptr', blk(c['#0']), off(c['#0']), off(c['#0']) + 1)], post=lambda c: [('ok', c.ret == 0)])

    T('PMPI_Allreduce', pre=lambda c: [('minimum of one number', z3.And(c['#0'] == c['VCG_IN_PLACE'], c['#2'] == 1, c['#3'] == c['MPI_INT'], c['#4'] == c['MPI_MIN'], c.valid(c['#1'], 1, 4)))],
      modifies=lambda c: [('int', blk(c['#1']), off(c['#1']), off(c['#1']) + 1)], globals_modified=['$rn', '$rval', '$rres', '$rcomm', '$rmin'],
      post=lambda c: [('minimum', z3.And(c.ret == 0, c['$rmin'] == c.i4(c.old['#1']), c['$rmin'] <= c.old.i4(c.old['#1']), z3.Implies(c.old['$rn'] >= z3.If(c['comm_column'] != c['MPI_COMM_NULL'], 2, 1), z3.And(c['$rmin'] >= 0, c['$rmin'] <= 1)))),
                      ('recorded', z3.And(c['$rn'] == c.old['$rn'] + 1, c['$rval'] == z3.Store(c.old['$rval'], c.old['$rn'], c.old.i4(c.old['#1'])), c['$rres'] == z3.Store(c.old['$rres'], c.old['$rn'], c['$rmin']),
                                          c['$rcomm'] == z3.Store(c.old['$rcomm'], c.old['$rn'], c.old['#5'])))])
    return C


RANK = z3.Function('RANK', Ptr, IS)
SPLIT = z3.Function('SPLIT', Ptr, IS, Ptr)


def divr(a, b):
    return a / b


SCANF = z3.Function('SCAN', Ptr, IS, IS, IS, IS)
ST = {n: z3.Function('ST_' + n, Ptr, IS) for n in ('cur', 'old', 'size', 'seen')}
SHARED = [E[x] for x in ('ememcpy', 'ememcp_', 'ereduce', 'ereduc_')]


def mn(a, b):
    return z3.If(a < b, a, b)


def mx(a, b):
    return z3.If(a > b, a, b)


REAL = (lambda a, b: a * b, lambda a, b: a / b, lambda a, b: a % b)
UF = (NMUL, NDIV, NMOD)          # products and quotients of variables are uninterpreted in the obligations; the facts used are lemmas


def share(a, n, r, ops=UF):
    """first element of rank r when a elements are dealt out to n ranks"""
    mul, div, mod = ops
    return mul(div(a, n), r) + mn(r, mod(a, n))


def share_fact(a, n, r, ops=UF):
    mul, div, mod = ops
    k, w = div(a, n), mod(a, n)
    return z3.Implies(z3.And(n >= 1, 0 <= r, r < n, a >= 0), z3.And(mul(k, r) >= 0, mul(k, r) <= a, share(a, n, r, ops) >= 0, share(a, n, r, ops) <= a, share(a, n, r + 1, ops) >= 0, mul(k, r + 1) == mul(k, r) + k, share(a, n, r + 1, ops) <= a, 0 <= w, w < n, k >= 0))


def const_facts(t):
    """products with and quotients by the size of an element (a number)"""
    x = z3.Int('x')
    return [z3.ForAll([x], NMUL(x, I(t)) == x * t, patterns=[NMUL(x, I(t))]), z3.ForAll([x], z3.Implies(x >= 0, z3.And(NDIV(x, I(t)) == x / t, NMOD(x, I(t)) == x % t)), patterns=[NDIV(x, I(t))])]


def bytes_fact(s, t, n, r, ops=UF):
    """the pieces in bytes stay inside the work"""
    x, y = share(s / t, n, r, ops), share(s / t, n, r + 1, ops)
    return z3.Implies(z3.And(n >= 1, 0 <= r, r < n, s >= 0), z3.And(0 <= x * t, x * t <= s, 0 <= y * t, y * t <= s))


def copied(p):
    return is_in(KD(p), CPYK)


def split(p):
    """work that is shared out: copies and reductions inside the shared memory"""
    return z3.And(is_in(KD(p), SHARED), M('buffer_type1', p) == E['eshmemo'], M('buffer_type2', p) == E['eshmemo'])


def cur(p, before):
    return z3.If(copied(p), M('offset1', p), before)


def scan_step(q, o, c_, m):
    """definition: largest piece of work from q on, up to a barrier, another destination or the end"""
    c2 = cur(q, c_)
    stop = z3.Or(LN(q) <= 0, KD(q) == E['esocket_barrier'], c2 != o)
    return SCANF(q, o, c_, m) == z3.If(stop, m, SCANF(padd(q, LN(q)), o, c2, z3.If(split(q), mx(m, M('size', q)), m)))


def scan_ge(q, o, c_, m):
    return SCANF(q, o, c_, m) >= m


def parallel(case):
    """every shared copy or reduction is cut into one piece per task of the node; the cut depends on the program only"""
    ts = {'data_type_char': 1, 'data_type_int': 4, 'data_type_long_int': 8, 'data_type_float': 4, 'data_type_double': 8}[case]
    par = lambda c, f: fn('par_' + f)(c.old['buffer_in'])
    name = 'ext_mpi_generate_parallel_memcpy'
    n = lambda c: NMUL(par(c, 'socket_row_size'), par(c, 'socket_column_size'))
    C = contracts()
    C['#case'], C['#nonlinear'] = 'elements of ' + case, True
    D_ = 'data_memcpy_reduce'
    f = lambda c, v, x: c.at('line_memcpy_reduce.' + x, c[v])
    here = lambda c: padd(c['buffer_in'], c['nbuffer_in'])
    nx = lambda p: padd(p, LN(p))
    bar = lambda p: KD(p) == E['esocket_barrier']

    def defs(p):
        """the cut at p, from the program alone"""
        c2 = cur(p, ST['cur'](p))
        reset = z3.Or(bar(p), c2 != ST['old'](p))
        q = nx(p)
        return [ST['cur'](q) == c2, ST['old'](q) == z3.If(reset, c2, ST['old'](p)),
                ST['size'](q) == z3.If(reset, z3.If(bar(p), SCANF(q, c2, c2, I(0)), SCANF(p, c2, c2, I(0))), ST['size'](p)),
                ST['seen'](q) == z3.If(bar(p), I(0), z3.If(split(p), mx(z3.If(reset, I(0), ST['seen'](p)), M('size', p)), z3.If(reset, I(0), ST['seen'](p))))]

    def inv(c):
        o = c.old
        p = here(c)
        return [('output so far', z3.And(c['$next'] == padd(c['buffer_out'], c['nbuffer_out']), c['nbuffer_out'] >= 0, c['$n'] >= 1)), ('the parameters come first', z3.Select(c['$log'], I(0)) == rec(PAR, o['buffer_out'])),
                ('arguments', z3.And(c['nbuffer_in'] == PL(o['buffer_in']), c['buffer_out'] == o['buffer_out'], blk(c['buffer_in']) == blk(o['buffer_in']), off(c['buffer_in']) >= 0)),
                ('topology', z3.And(c['node_size'] == n(c), c['node_rank'] == par(c, 'socket_rank'), c['type_size'] == ts)),
                ('the cut does not depend on the task', z3.And(f(c, D_, 'offset1') == ST['cur'](p), f(c, D_ + '_old', 'offset1') == ST['old'](p), f(c, D_ + '_old', 'size') == ST['size'](p))),
                ('the cut is the largest piece from here on', z3.Or(z3.And(ST['cur'](p) == -1, ST['old'](p) == -1, ST['size'](p) == -1), z3.And(ST['seen'](p) >= 0, ST['size'](p) == SCANF(p, ST['old'](p), ST['cur'](p), ST['seen'](p)))))]

    def piece(c, p, at):
        a, r = ST['size'](nx(p)) / ts, par(c, 'socket_rank')
        lo, hi = mn(share(a, n(c), r) * ts, M('size', p)), mn(share(a, n(c), r + 1) * ts, M('size', p))
        v = {x: (KD(p) if x == 'type' else M(x, p)) for x in CPYF}
        v['type'] = z3.If(KD(p) == E['ememcp_'], E['ememcpy'], z3.If(KD(p) == E['ereduc_'], E['ereduce'], KD(p)))
        v['offset1'], v['offset2'], v['size'] = v['offset1'] + lo, v['offset2'] + lo, hi - lo
        for i in '12':
            v['offset_number' + i] = z3.If(v['is_offset' + i] != 0, v['offset_number' + i], I(-1))
        return lo, hi, rec(CPY, at, NULLP, [v[x] for x in CPYF])

    def steps(c):
        p = here(c.prev)
        n0, log = c.prev['$n'], c.prev['$log']
        at = padd(c.prev['buffer_out'], c.prev['nbuffer_out'])
        silent = z3.And(c['$n'] == n0, c['$log'] == log)
        one = lambda r: z3.And(c['$n'] == n0 + 1, c['$log'] == z3.Store(log, n0, r))
        lo, hi, r = piece(c, p, at)
        return [('lines are read one after the other', c['buffer_in'] == padd(c.prev['buffer_in'], LN(p))), ('nothing comes from the end of the program', z3.Implies(LN(p) == 0, silent)),
                ('every other line is kept', z3.Implies(z3.And(LN(p) > 0, z3.Not(split(p))), one(keep(p, at)))),
                ('the cut reaches over the whole of every piece of work', z3.Implies(z3.And(LN(p) > 0, split(p)), ST['size'](nx(p)) >= M('size', p))),
                ('shared work is reduced to the own piece', z3.Implies(z3.And(LN(p) > 0, split(p)), z3.If(hi > lo, one(r), silent)))]

    def hints(c):
        p = here(c)
        a, r = ST['size'](nx(p)) / ts, par(c, 'socket_rank')
        sz = M('size', p)
        q = nx(p)
        c2 = cur(p, ST['cur'](p))
        return one_line(c, p) + small(c, 'nbuffer_out') + [off(here(c)) < 1 << 30] + const_facts(ts) + defs(p) + [share_fact(a, n(c), r), z3.Implies(copied(p), z3.And(sz >= 0, sz % ts == 0, M('offset1', p) >= 0, M('offset2', p) >= 0, M('offset1', p) < 1 << 30, M('offset2', p) < 1 << 30, sz < 1 << 30)), ST['size'](q) < 1 << 30, bytes_fact(ST['size'](q), ts, n(c), r),
                scan_step(p, ST['old'](p), ST['cur'](p), ST['seen'](p)), scan_step(p, c2, c2, I(0)), scan_ge(q, c2, c2, I(0)), scan_ge(q, ST['old'](q), ST['cur'](q), ST['seen'](q)), scan_ge(p, c2, c2, I(0)), in_range(INT, ST['size'](q))]
    D = {'line_memcpy_reduce': 1}
    mods = lambda c: [('char', blk(c['line'])), ('char', blk(c['line2']))] + [('line_memcpy_reduce.' + x, blk(c[v])) for v in (D_, D_ + '_', D_ + '_old') for x in CPYF]

    # the scan for the largest piece
    at2 = lambda c: padd(here(c), c['p1'])

    def inv2(c):
        e = c.entry if c.entry is not None else c
        o, s = f(c, D_ + '_old', 'offset1'), f(c, D_ + '_old', 'size')
        q0 = at2(e)
        e0 = f(e, D_, 'offset1')
        w = SCANF(q0, f(e, D_ + '_old', 'offset1'), e0, I(0))
        return [('the scan so far', z3.And(s >= 0, c['p1'] >= 0, o == f(e, D_ + '_old', 'offset1'), z3.If(c['flag'] != 0, SCANF(at2(c), o, f(c, D_, 'offset1'), s) == w, s == w))), ('nothing else changes', z3.And(*[f(c, D_ + '_', x) == f(e, D_ + '_', x) for x in CPYF] + [z3.Select(c['$lines'], blk(c['line'])) == z3.Select(e['$lines'], blk(c['line']))]))]

    def hints2(c):
        q = at2(c)
        return one_line(c, q) + small(c, 'p1') + [scan_step(q, f(c, D_ + '_old', 'offset1'), f(c, D_, 'offset1'), f(c, D_ + '_old', 'size')), z3.Implies(copied(q), M('size', q) >= 0)]
    mods2 = lambda c: [('char', blk(c['line2']))] + [('line_memcpy_reduce.' + x, blk(c[D_])) for x in CPYF] + [('line_memcpy_reduce.size', blk(c[D_ + '_old']))]

    def pre(c):
        b = c['buffer_in']
        pp = lambda x: fn('par_' + x)(b)
        st = padd(b, PL(b))
        return base_pre(c) + [('topology', z3.And(*[z3.And(1 <= pp(x), pp(x) < 1 << 14) for x in ('socket_row_size', 'socket_column_size')] + [0 <= pp('socket_rank'), pp('socket_rank') < NMUL(pp('socket_row_size'), pp('socket_column_size')), 1 <= NMUL(pp('socket_row_size'), pp('socket_column_size')), NMUL(pp('socket_row_size'), pp('socket_column_size')) < 1 << 28, pp('data_type') == D2[case]])),
                              ('definition: before the first line', z3.And(ST['cur'](st) == -1, ST['old'](st) == -1, ST['size'](st) == -1))]
    C[name] = Contract(name, pre=pre, post=lambda c: [(a, z3.Implies(c.ret >= 0, b)) for a, b in ended(c)[:-1]], globals_modified=list(GH), allocates=True,
                       loops={0: Loop(inv, modifies=mods, hints=hints, steps=steps, frees=False, ghosts=list(GH)), 1: Loop(inv2, modifies=mods2, hints=hints2, frees=False)})
    return C


D2 = D


REACH = z3.Function('REACH', Ptr, Ptr, z3.BoolSort())
TOP = z3.Function('TOP', Ptr, IS)
Q, K = z3.Const('Q_any', Ptr), z3.Int('K_any')          # any line, any segment


def segs(p, at_least):
    """largest number of a segment a copy names"""
    out = at_least
    for i in '12':
        out = z3.If(z3.And(copied(p), fn('readable')(p) >= 0, M('is_offset' + i, p) != 0), mx(out, M('offset_number' + i, p)), out)
    return out


def layout():
    """segments do not overlap, and everything copied fits into its segment (for any line Q of the program and any segment K)"""
    name = 'ext_mpi_generate_buffer_offset'
    C = simple(name, '', lambda c, p, at: [('every line is kept', z3.BoolVal(True), keep(p, at))], par_changed=('locmem_max', 'shmem_buffer_offset_max'), post2=lambda c: [])
    lines = C[name].loops.pop(0)
    copy_inv, copy_steps, copy_hints = lines.inv, lines.steps, lines.hints
    start = lambda c: padd(c.top('buffer_in'), PL(c.top('buffer_in')))
    here = lambda c: padd(c['buffer_in'], c['nbuffer_in2'])
    BIG = 1 << 32
    end = lambda i, q=Q: M('offset' + i, q) + M('size', q)
    num = lambda i, q=Q: M('offset_number' + i, q)
    inseg = lambda i, q=Q: z3.And(copied(q), M('is_offset' + i, q) != 0, num(i, q) >= 0)
    plain = lambda i, q=Q: z3.And(copied(q), M('is_offset' + i, q) == 0)
    waits = is_in(KD(Q), [E['ewaitall'], E['ewaitany']])
    mxo = 'buffer_offset_max'
    l8 = lambda c, p, i: c.at('long', p, i)
    k = z3.Int('k')

    def unfold(c):
        p = here(c)
        nx = padd(p, LN(p))
        return [REACH(p, Q) == z3.And(LN(p) > 0, z3.Or(p == Q, REACH(nx, Q))), TOP(p) == mx(segs(p, I(0)), z3.If(LN(p) > 0, TOP(nx), I(0)))]
    hints = lambda c: one_line(c, here(c)) + one_line(c, Q) + small(c, 'nbuffer_in2') + unfold(c) + [TOP(start(c)) < 1 << 26]
    args = lambda c: ('arguments', z3.And(c['buffer_in'] == start(c), c['buffer_out'] == c.top('buffer_out'), c['nbuffer_in2'] >= 0, c['nbuffer_out'] == 0, c['$n'] == 0))
    data = lambda c: [('char', blk(c['line']))] + [('line_memcpy_reduce.' + x, blk(c['data_memcpy_reduce'])) for x in CPYF]
    # the largest number of a segment
    inv0 = lambda c: [args(c), ('largest segment so far', z3.And(c[mxo] >= 0, c[mxo] <= TOP(start(c)), mx(c[mxo], TOP(here(c))) == TOP(start(c)))), ('lines still to come', z3.Implies(REACH(start(c), Q), z3.Or(REACH(here(c), Q), z3.And(*[z3.Implies(inseg(i), num(i) <= c[mxo]) for i in '12']))))]
    sizes = lambda c: ('two more entries than the largest number', c[mxo] == TOP(start(c)) + 2)
    exist = lambda c: ('segments named exist', z3.Implies(REACH(start(c), Q), z3.And(*[z3.Implies(inseg(i), num(i) <= c[mxo] - 2) for i in '12'])))
    inv1 = lambda c: [('cleared so far', z3.And(0 <= c['i'], c['i'] <= c[mxo], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c['i']), l8(c, c['buffer_offset'], k) == 0), patterns=[l8(c, c['buffer_offset'], k)])))]
    bounds = lambda c: ('sizes are those of data', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c[mxo]), z3.And(0 <= l8(c, c['buffer_offset'], k), l8(c, c['buffer_offset'], k) < BIG)), patterns=[l8(c, c['buffer_offset'], k)]))

    def fits(c):
        return z3.And(*[z3.And(z3.Implies(inseg(i), l8(c, c['buffer_offset'], num(i)) >= end(i)), z3.Implies(plain(i), c['shmem_max'] >= end(i))) for i in '12'] + [z3.Implies(waits, c['locmem_max'] >= A1(Q))])

    def inv2(c):
        return [args(c), exist(c), sizes(c), bounds(c), ('largest segment still to come', TOP(here(c)) <= c[mxo] - 2), ('plain places', z3.And(c['shmem_max'] >= 0, c['shmem_max'] < BIG)),
                ('lines seen have room', z3.Implies(REACH(start(c), Q), z3.Or(REACH(here(c), Q), fits(c))))]
    mods2 = lambda c: data(c) + [('long', blk(c['buffer_offset']))]
    # the places of the segments
    KS = [K, num('1'), num('2')]

    def chain(c, n):
        o, s = c['buffer_offset2'], c['buffer_offset']
        return [('the first segment starts at the beginning', l8(c, o, I(0)) == 0)] + [('every segment has room for its data and at least a cache line (%s)' % nm, z3.Implies(z3.And(0 <= x, x + 1 < n), l8(c, o, x + 1) >= l8(c, o, x) + mx(l8(c, s, x), I(CACHE)))) for nm, x in zip(('any', 'destination', 'source'), KS)]

    def inv3(c):
        i = c['i']
        return [('places so far', z3.And(1 <= i, i <= c[mxo], l8(c, c['buffer_offset2'], i - 1) >= 0, l8(c, c['buffer_offset2'], i - 1) <= (i - 1) * BIG))] + chain(c, i)
    tab = lambda c: c.at('parameters_block.shmem_buffer_offset', c['parameters'])

    def inv4(c):
        return [('handed on so far', z3.And(0 <= c['i'], c['i'] <= c[mxo], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c['i']), c.i4(tab(c), k) == l8(c, c['buffer_offset2'], k)), patterns=[c.i4(tab(c), k)]))),
                ('table', z3.And(tab(c) == tab(c.entry if c.entry is not None else c)))]
    L = C[name].loops
    L[0] = Loop(inv0, modifies=data, hints=hints, frees=False)
    L[1] = Loop(inv1, modifies=lambda c: [('long', blk(c['buffer_offset']))])
    L[2] = Loop(inv2, modifies=mods2, hints=hints, frees=False)
    L[3] = Loop(inv3, modifies=lambda c: [('long', blk(c['buffer_offset2']))])
    L[4] = Loop(inv4, modifies=lambda c: [('int', blk(tab(c)))])

    class Alias:
        """the loop over the lines counts from nbuffer_in2"""
        def __init__(self, c):
            self.c = c
            self.__dict__.update({x: getattr(c, x) for x in ('ex', 'st', 'ret')})
            for x in ('prev', 'old', 'entry'):
                v = getattr(c, x, None)
                if v is not None:
                    setattr(self, x, Alias(v) if x == 'prev' else v)

        def __getitem__(self, n):
            return self.c['nbuffer_in2' if n == 'nbuffer_in' else n]

        def __getattr__(self, n):
            return getattr(self.c, n)
    inv5 = lambda c: [('output so far', z3.And(c['$next'] == padd(c['buffer_out'], c['nbuffer_out']), c['nbuffer_out'] >= 0, c['$n'] >= 1)), ('the parameters come first', z3.Select(c['$log'], I(0)) == rec(PAR, c.top('buffer_out'))),
                      ('arguments', z3.And(c['buffer_in'] == start(c), c['buffer_out'] == c.top('buffer_out'), c['nbuffer_in2'] >= 0))]
    L[5] = Loop(inv5, modifies=lambda c: [('char', blk(c['line']))], hints=lambda c: copy_hints(Alias(c)), steps=lambda c: copy_steps(Alias(c)), frees=False, ghosts=list(GH))
    rp = C['ext_mpi_read_parameters']

    def par_post(c):
        q = c.pp(c.old['parameters'])
        t = c.at('parameters_block.shmem_buffer_offset', q)
        return rp.post(c) + [('the table handed in', z3.Or(t == NULLP, z3.And(blk(t) >= c.old.st.nb, blk(t) < c.st.nb, off(t) == 0, blk(t) != blk(q), c.valid(t, 1, 4))))]
    C['ext_mpi_read_parameters'] = Contract('ext_mpi_read_parameters', trusted=True, allocates=True, post=par_post, modifies=rp.modifies)
    w = C['ext_mpi_write_parameters']

    def handed_on(c):
        p = c['parameters']
        t, n = c.at('parameters_block.shmem_buffer_offset', p), c.at('parameters_block.shmem_buffer_offset_max', p)
        T = lambda x: c.i4(t, x)
        r = REACH(start(c), Q)
        return [('the table of segments exists', z3.And(n >= 2, c.valid(t, n, 4))), ('the first segment starts at the beginning', T(I(0)) == 0), ('segments do not overlap and have a cache line at least', z3.Implies(z3.And(0 <= K, K + 1 < n), T(K + 1) >= T(K) + CACHE))] + \
               [('what is copied fits into its segment (%s)' % i, z3.Implies(z3.And(r, inseg(i)), z3.And(num(i) + 1 < n, T(num(i)) + end(i) <= T(num(i) + 1)))) for i in '12'] + \
               [('what is copied to plain places fits into the shared memory (%s)' % i, z3.Implies(z3.And(r, plain(i)), end(i) <= T(n - 1))) for i in '12'] + \
               [('there is room for the requests of every wait', z3.Implies(z3.And(r, waits), A1(Q) <= c.at('parameters_block.locmem_max', p)))]
    C['ext_mpi_write_parameters'] = Contract('ext_mpi_write_parameters', trusted=True, globals_modified=w.globals_modified, post=w.post, pre=lambda c: w.pre(c) + handed_on(c))
    return C


JOIN, JOINB = z3.Function('JOINED', Ptr, Ptr, IS, z3.BoolSort()), z3.Function('JOINED_BACK', Ptr, Ptr, IS, z3.BoolSort())
LIKE = ['buffer_type1', 'buffer_type2', 'buffer_number1', 'buffer_number2', 'offset_number1', 'offset_number2', 'is_offset1', 'is_offset2']


def like(p, x):
    return z3.And(KD(p) == KD(x), *[M(f, p) == M(f, x) for f in LIKE])


def same_area(p):
    return z3.And(M('buffer_type1', p) == M('buffer_type2', p), M('buffer_number1', p) == M('buffer_number2', p), M('offset_number1', p) == M('offset_number2', p), M('is_offset1', p) == M('is_offset2', p))


def apart(p, s):
    d = M('offset1', p) - M('offset2', p)
    return z3.Implies(same_area(p), z3.If(d < 0, -d, d) >= s)


def join_rules(p, x, s):
    """lines that may be one: JOINED(p, x, s) - the lines from p up to x follow one another in both areas and are s bytes together; JOINED_BACK - they are of equal size and each lies in front of the one before"""
    nx = lambda y: padd(y, LN(y))
    at = lambda sg: z3.And(*[M('offset' + i, x) == M('offset' + i, p) + sg * s for i in '12'])
    go = z3.And(LN(x) > 0, like(p, x), apart(p, s + M('size', x)))
    return [JOIN(p, nx(p), M('size', p)), JOINB(p, nx(p), M('size', p)), z3.Implies(z3.And(JOIN(p, x, s), go, at(1)), JOIN(p, nx(x), s + M('size', x))),
            z3.Implies(z3.And(JOINB(p, x, s), go, at(-1), M('size', x) == M('size', p)), JOINB(p, nx(x), s + M('size', x)))]


def merge():
    """neighbouring copies become one only when that has the same effect"""
    name = 'ext_mpi_generate_raw_code_merge'
    C = simple(name, '', lambda c, p, at: [])
    lp = C[name].loops[0]
    D_ = 'data_memcpy_reduce'
    f = lambda c, v, x: c.at('line_memcpy_reduce.' + x, c[v])
    here = lambda c: padd(c['buffer_in'], c['nbuffer_in'])
    nx = lambda p: padd(p, LN(p))
    first = lambda c: z3.Select(c['$lines'], blk(c['line']))
    nxt = lambda c: padd(c['buffer_in'], c['nin_new'])

    def fields(p, s, low):
        v = {x: (KD(p) if x == 'type' else M(x, p)) for x in CPYF}
        v['size'] = s
        for i in '12':
            v['offset' + i] = v['offset' + i] - low
            v['offset_number' + i] = z3.If(v['is_offset' + i] != 0, v['offset_number' + i], I(-1))
        return [v[x] for x in CPYF]

    def steps(c):
        p, x = here(c.prev), here(c)
        n0, log = c.prev['$n'], c.prev['$log']
        at = padd(c.prev['buffer_out'], c.prev['nbuffer_out'])
        one = lambda r: z3.And(c['$n'] == n0 + 1, c['$log'] == z3.Store(log, n0, r))
        s = Em.f11(z3.Select(c['$log'], n0))
        can = is_in(KD(p), SHARED)
        kept = z3.And(one(keep(p, at)), x == nx(p))
        return [('nothing comes from the end of the program', z3.Implies(LN(p) == 0, z3.And(c['$n'] == n0, c['$log'] == log, x == p))), ('every other line is kept', z3.Implies(z3.And(LN(p) > 0, z3.Not(can)), kept)),
                ('a copy is kept, or joined with lines that follow it', z3.Implies(z3.And(LN(p) > 0, can), z3.Or(kept, z3.And(one(rec(CPY, at, NULLP, fields(p, s, 0))), JOIN(p, x, s)), z3.And(one(rec(CPY, at, NULLP, fields(p, s, s - M('size', p)))), JOINB(p, x, s)))))]

    def place(p):
        return z3.Implies(copied(p), z3.And(*[z3.And(0 <= M(x, p), M(x, p) < 1 << 30) for x in ('offset1', 'offset2', 'size')]))

    def hints(c):
        p = here(c)
        return one_line(c, p) + small(c, 'nbuffer_in', 'nbuffer_out') + [place(p)]
    V = (D_, D_ + '_', D_ + '__')
    lp.steps, lp.hints = steps, hints
    lp.modifies = lambda c: [('char', blk(c[x])) for x in ('line', 'line2')] + [('line_memcpy_reduce.' + x, blk(c[v])) for v in V for x in CPYF]

    def inv(back):
        R = JOINB if back else JOIN

        def g(c):
            e = c.entry if c.entry is not None else c
            p, x, s = first(c), nxt(c), f(c, D_, 'size')
            out = [('the first line', z3.And(p == first(e), copied(p), f(c, D_, 'type') == KD(p), *[f(c, D_, y) == M(y, p) for y in CPYF if y not in ('type', 'size')])), ('lines joined so far', z3.And(R(p, x, s), c['nin_new'] >= c['nbuffer_in'], here(c) == nx(p))),
                   ('nothing joined', z3.And(z3.Or(c['flag'] == 0, c['flag'] == 1), z3.Implies(c['flag'] == 1, z3.And(s == M('size', p), c['nin_new'] == c['nbuffer_in'])))),
                   ('the next line', z3.And(c['flag5'] == LN(x), z3.Implies(LN(x) > 0, z3.And(f(c, D_ + '_', 'type') == KD(x), z3.Implies(copied(x), z3.And(*[f(c, D_ + '_', y) == M(y, x) for y in CPYF if y != 'type'])))))),
                   ('size', z3.And(0 <= s, s <= 2 << 30, *([M('offset' + i, p) - s + M('size', p) >= 0 for i in '12'] if back else [M('offset' + i, p) + s < 2 << 30 for i in '12'])))]
            if back:
                out.append(('the place of the last one', z3.Implies(c['flag'] == 0, z3.And(*[f(c, D_ + '__', 'offset' + i) == M('offset' + i, p) - s + M('size', p) for i in '12']))))
            return out
        return g

    def hints2(c):
        p, x = first(c), nxt(c)
        return one_line(c, x) + small(c, 'nin_new') + [place(x)] + join_rules(p, x, f(c, D_, 'size'))
    mods2 = lambda c: [('char', blk(c['line2']))] + [('line_memcpy_reduce.' + x, blk(c[D_ + '_'])) for x in CPYF] + [('line_memcpy_reduce.size', blk(c[D_]))]
    mods3 = lambda c: mods2(c) + [('line_memcpy_reduce.offset' + i, blk(c[D_ + '__'])) for i in '12']
    C[name].loops[1] = Loop(inv(False), modifies=mods2, hints=hints2, frees=False)
    C[name].loops[2] = Loop(inv(True), modifies=mods3, hints=hints2, frees=False)
    return C


def join_lemmas():
    """a joined copy has the effect of its lines: seen at any byte b of any area; memory before: m, combined with the source by op"""
    m, op = z3.Function('m', IS, IS, IS), z3.Function('op', IS, IS, IS)           # area, byte -> value; what a copy or reduction does to one byte
    A, S, a, b, d, e, s, t, s1 = z3.Ints('A S a b d e s t s1')
    base = [s >= 0, t >= 0, z3.Implies(A == S, z3.Or(d - e >= s + t, e - d >= s + t))]

    def run(mem, dst, src, n):
        return lambda ar, y: z3.If(z3.And(ar == A, dst <= y, y < dst + n), op(mem(ar, y), mem(S, src + y - dst)), mem(ar, y))
    up = run(run(m, d, e, s), d + s, e + s, t)(a, b) == run(m, d, e, s + t)(a, b)
    # downwards: joined so far at d - (s - s1), the next one (size s1) in front of it
    lo, lo2 = d - s + s1, e - s + s1
    down = run(run(m, lo, lo2, s), lo - s1, lo2 - s1, s1)(a, b) == run(m, lo - s1, lo2 - s1, s + s1)(a, b)
    return [('joining: the next line behind', base, up), ('joining: the next line in front', [s >= 0, s1 >= 0, z3.Implies(A == S, z3.Or(d - e >= s + s1, e - d >= s + s1))], down)]


def lemmas():
    q, a, n, r, t, s, m, o, c_ = z3.Ints('q a n r t s m o c')
    out = [('dealing out: multiples', [n >= 1, 0 <= r, r < n, q >= 0, 0 <= m, m < n], z3.And(q * r >= 0, q * (n - r) >= 0, q * (n - r - 1) >= 0, q * (r + 1) == q * r + q, q * n == q * r + q * (n - r), q * n == q * (r + 1) + q * (n - r - 1))),
           ('dealing out: division', [n >= 1, a >= 0], z3.And(a == n * (a / n) + a % n, 0 <= a % n, a % n < n, a / n >= 0))]
    k, w = a / n, a % n
    out += [('dealing out stays inside', [n >= 1, 0 <= r, r < n, a >= 0, a == k * n + w, 0 <= w, w < n, k >= 0, k * r >= 0, k * (n - r) >= 0, k * (n - r - 1) >= 0, k * (r + 1) == k * r + k, k * n == k * r + k * (n - r), k * n == k * (r + 1) + k * (n - r - 1)], share_fact(a, n, r, REAL)),
            ('the first task starts at the beginning', [n >= 1, a >= 0], share(a, n, I(0), REAL) == 0), ('the last one ends at the end', [n >= 1, a >= 0, a == k * n + w, 0 <= w, w < n], share(a, n, n, REAL) == a)]
    p = z3.Const('p', Ptr)
    out += [('the scan is at least what it started with: end', [scan_step(p, o, c_, m), z3.Or(LN(p) <= 0, KD(p) == E['esocket_barrier'], cur(p, c_) != o)], scan_ge(p, o, c_, m)),
            ('the scan is at least what it started with: step', [scan_step(p, o, c_, m), scan_ge(padd(p, LN(p)), o, cur(p, c_), z3.If(split(p), mx(m, M('size', p)), m))], scan_ge(p, o, c_, m))]
    # pieces [min(start(r) t, s), min(start(r+1) t, s)) with start(0) = 0, start(n) = a, a t >= s: consecutive, disjoint, and together [0, s)
    out.append(('the last piece ends at the end of the work', [t >= 1, s >= 0, s <= m, s % t == 0, a == m / t, a * t >= s, share(a, n, n, REAL) == a], mn(share(a, n, n, REAL) * t, s) == s))
    for tt in (1, 4, 8):
        out.append(('the pieces in bytes stay inside the work (%d)' % tt, [share_fact(s / tt, n, r, REAL), z3.Implies(z3.And(n >= 1, 0 <= r, r < n, s >= 0), share(s / tt, n, r + 1, REAL) >= 0)], bytes_fact(s, tt, n, r, REAL)))
        out.append(('the elements cover the work (%d)' % tt, [s >= 0, s <= m, s % tt == 0, a == m / tt], a * tt >= s))
    out.append(('number of tasks', [1 <= a, a < 1 << 14, 1 <= n, n < 1 << 14], z3.And(a * n >= 1, a * n < 1 << 28)))
    return out + join_lemmas()


def units():
    return [('src/core/dummy.c', dummy(), 'ext_mpi_generate_dummy'), ('src/core/no_first_barrier.c', no_first(), 'ext_mpi_generate_no_first_barrier'), ('src/core/no_socket_barriers.c', no_socket(), 'ext_mpi_generate_no_socket_barriers'), ('src/core/no_offset.c', no_offset(), 'ext_mpi_generate_no_offset'), ('src/mpi/clean_barriers.c', clean(), 'ext_mpi_clean_barriers'), ('src/core/buffer_offset.c', layout(), 'ext_mpi_generate_buffer_offset'), ('src/core/raw_code_merge.c', merge(), 'ext_mpi_generate_raw_code_merge')] + \
           [('src/core/parallel_memcpy.c', parallel(t), 'ext_mpi_generate_parallel_memcpy') for t in D]
