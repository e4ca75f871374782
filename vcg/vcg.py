"""vcg - a small verification-condition generator for C.

It reads the real C source of /repo (preprocessed with stub system headers, parsed with pycparser),
executes one function symbolically against its contract and emits one verification condition (VC)
per obligation: precondition of a callee, loop invariant (entry / preserved), variant, frame,
memory safety, signed overflow, division by zero, postcondition.  Loops are cut at their invariants,
calls at the callee's contract (or inlined when the callee has no contract), so an accepted function
holds for every input and every number of iterations.

Values: integers are mathematical with the C type's range enforced by obligations (signed) or by
modulo (unsigned); pointers are (block, element offset); memory is one array per kind of cell
(scalar type, or struct field); floating point is uninterpreted.
"""
import os, re, subprocess, sys, itertools, time, hashlib
import z3
from pycparser import c_parser, c_ast

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Unsupported(Exception):
    pass


class AttachError(Exception):
    pass

# ----------------------------------------------------------------------------- types


class Ty:
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self):
        if self.k == 'int':
            return self.name
        if self.k == 'ptr':
            return repr(self.to) + '*'
        if self.k == 'struct':
            return 'struct ' + self.tag
        if self.k == 'arr':
            return repr(self.el) + '[]'
        return self.k


def mkint(name, bits, signed):
    return Ty('int', name=name, bits=bits, signed=signed)


CHAR = mkint('char', 8, True)
UCHAR = mkint('uchar', 8, False)
SHORT = mkint('short', 16, True)
USHORT = mkint('ushort', 16, False)
INT = mkint('int', 32, True)
UINT = mkint('uint', 32, False)
LONG = mkint('long', 64, True)
ULONG = mkint('ulong', 64, False)
DBL = Ty('flt', name='double', bits=64)
FLT = Ty('flt', name='float', bits=32)
VOID = Ty('void')


def ptrto(t):
    return Ty('ptr', to=t)


Ptr = z3.Datatype('Ptr')
Ptr.declare('mk', ('blk', z3.IntSort()), ('off', z3.IntSort()))
Ptr = Ptr.create()
FSort = z3.DeclareSort('Float')
NULLP = Ptr.mk(z3.IntVal(0), z3.IntVal(0))
I = z3.IntVal


def blk(p):
    return z3.simplify(Ptr.blk(p)) if z3.is_app(p) and p.decl().eq(Ptr.mk) else Ptr.blk(p)


def off(p):
    return z3.simplify(Ptr.off(p)) if z3.is_app(p) and p.decl().eq(Ptr.mk) else Ptr.off(p)


def padd(p, n):
    return Ptr.mk(blk(p), z3.simplify(off(p) + n))


def sort_of(t):
    if t.k == 'int':
        return z3.IntSort()
    if t.k == 'ptr' or t.k == 'func':
        return Ptr
    if t.k == 'flt':
        return FSort
    if t.k == 'ghost':
        return t.sort
    raise Unsupported('sort of %r' % t)


def rng(t):
    if t.signed:
        return -(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1
    return 0, (1 << t.bits) - 1


def in_range(t, v):
    lo, hi = rng(t)
    return z3.And(v >= lo, v <= hi)


def is_char(t):
    return t.k == 'int' and t.bits == 8


_cnt = itertools.count()
INIT = {}      # kind -> initial memory of the function being verified


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_cnt)), sort)


def as_int(v):
    if z3.is_bool(v):
        return z3.If(v, I(1), I(0))
    return v


def as_bool(v):
    if z3.is_bool(v):
        return v
    if v.sort() == Ptr:
        return v != NULLP
    if v.sort() == FSort:
        return z3.Function('f_truth', FSort, z3.BoolSort())(v)
    return v != 0

# ----------------------------------------------------------------------------- translation unit


class TU:
    cache = {}

    def __init__(self, path, defines=()):
        self.path = path
        src = preprocess(path, defines)
        self.ast = c_parser.CParser().parse(src, filename=path)
        self.typedefs, self.structs, self.funcs, self.protos, self.globals, self.enums = {}, {}, {}, {}, {}, {}
        self.typedefs['size_t'] = ULONG
        for e in self.ast.ext:
            if isinstance(e, c_ast.Typedef):
                self.typedefs[e.name] = self.ty(e.type)
            elif isinstance(e, c_ast.FuncDef):
                self.funcs[e.decl.name] = e
                self.protos[e.decl.name] = e.decl.type
            elif isinstance(e, c_ast.Decl):
                if isinstance(e.type, c_ast.FuncDecl):
                    self.protos.setdefault(e.name, e.type)
                elif e.name is None:
                    self.ty(e.type)
                else:
                    t = self.ty(e.type)
                    old = self.globals.get(e.name)
                    if old is None or e.init is not None or (old[0].k == 'arr' and old[0].n is None):
                        self.globals[e.name] = (t, e.init, 'extern' in e.storage, 'static' in e.storage)

    @classmethod
    def get(cls, path, defines=()):
        key = (path, tuple(defines))
        if key not in cls.cache:
            cls.cache[key] = TU(path, defines)
        return cls.cache[key]

    # types from the AST
    def ty(self, n):
        if isinstance(n, c_ast.TypeDecl):
            t = self.ty(n.type)
            if 'volatile' in (n.quals or []) and t.k == 'int':
                t = Ty('int', name=t.name, bits=t.bits, signed=t.signed, vol=True)
            return t
        if isinstance(n, c_ast.Typename):
            return self.ty(n.type)
        if isinstance(n, c_ast.PtrDecl):
            return ptrto(self.ty(n.type))
        if isinstance(n, c_ast.ArrayDecl):
            return Ty('arr', el=self.ty(n.type), n=n.dim)
        if isinstance(n, c_ast.FuncDecl):
            return Ty('func', decl=n)
        if isinstance(n, c_ast.IdentifierType):
            return self.idtype(n.names)
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            if isinstance(n, c_ast.Union):
                raise Unsupported('union')
            tag = n.name or 'anon%d' % id(n)
            st = self.structs.get(tag)
            if st is None:
                st = self.structs[tag] = Ty('struct', tag=tag, fields=None)
            if n.decls is not None:
                st.fields = [(d.name, self.ty(d.type)) for d in n.decls]
            return st
        if isinstance(n, c_ast.Enum):
            if n.values:
                v = -1
                for e in n.values.enumerators:
                    v = self.constexpr(e.value) if e.value is not None else v + 1
                    self.enums[e.name] = v
                return UINT if all(x >= 0 for x in self.enums.values()) else INT
            return UINT
        raise Unsupported('type %s' % type(n).__name__)

    def idtype(self, names):
        s = set(names)
        if len(names) == 1 and names[0] in self.typedefs:
            return self.typedefs[names[0]]
        if 'void' in s:
            return VOID
        if 'double' in s:
            return DBL
        if 'float' in s:
            return FLT
        u = 'unsigned' in s
        if 'char' in s:
            return UCHAR if u else CHAR
        if 'short' in s:
            return USHORT if u else SHORT
        if 'long' in s:
            return ULONG if u else LONG
        if 'int' in s or 'signed' in s or u:
            return UINT if u else INT
        if '_Bool' in s:
            return UCHAR
        raise Unsupported('type name %s' % names)

    def constexpr(self, n):
        if isinstance(n, c_ast.Constant):
            return int(re.sub(r'[uUlL]+$', '', n.value), 0)
        if isinstance(n, c_ast.UnaryOp):
            v = self.constexpr(n.expr)
            return {'-': -v, '+': v, '~': ~v}[n.op]
        if isinstance(n, c_ast.BinaryOp):
            a, b = self.constexpr(n.left), self.constexpr(n.right)
            return {'+': a + b, '-': a - b, '*': a * b, '<<': a << b, '|': a | b}[n.op]
        if isinstance(n, c_ast.ID) and n.name in self.enums:
            return self.enums[n.name]
        raise Unsupported('constant expression')

    def sizeof(self, t):
        if t.k in ('int', 'flt'):
            return t.bits // 8
        if t.k in ('ptr', 'func'):
            return 8
        if t.k == 'struct':
            if t.fields is None:
                raise Unsupported('sizeof incomplete')
            o = 0
            al = 1
            for _, ft in t.fields:
                a = self.align(ft)
                al = max(al, a)
                o = (o + a - 1) // a * a + self.sizeof(ft)
            return (o + al - 1) // al * al
        if t.k == 'arr':
            return self.sizeof(t.el) * self.constexpr(t.n)
        if t.k == 'void':
            return 1
        raise Unsupported('sizeof %r' % t)

    def align(self, t):
        if t.k == 'struct':
            return max([self.align(f) for _, f in t.fields] + [1])
        if t.k == 'arr':
            return self.align(t.el)
        return self.sizeof(t)


def preprocess(path, defines=()):
    cmd = ['gcc', '-E', '-nostdinc', '-I', HERE + '/fakeinc', '-I', REPO + '/include/core', '-I', REPO + '/include/mpi',
           '-I', os.path.dirname(path), '-DDEBUG', '-DM_MAP', '-D__inline=', '-D__attribute__(x)='] + list(defines) + [path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AttachError('cannot preprocess %s: %s' % (path, r.stderr[:400]))
    return r.stdout

# ----------------------------------------------------------------------------- state


class State:
    __slots__ = ('env', 'mem', 'facts', 'nb', 'alive', 'bsz')

    def __init__(self):
        self.env, self.mem, self.facts = {}, {}, []
        self.nb = self.alive = self.bsz = None

    def copy(self):
        s = State()
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), list(self.facts)
        s.nb, s.alive, s.bsz = self.nb, self.alive, self.bsz
        return s

    def setmem(self, kind, term):
        """memories are named so that specifications can use them in patterns"""
        n = fresh('M_' + kind, term.sort())
        self.facts.append(n == term)
        self.mem[kind] = n

    def assume(self, f):
        if not z3.is_true(f):
            self.facts.append(f)


def ite(c, a, b):
    if a is b or a.eq(b):
        return a
    if z3.is_bool(a) != z3.is_bool(b):
        a, b = as_int(a), as_int(b)
    return z3.If(c, a, b)


def merge(a, b, cond=None):
    """join two states; cond holds in a and not in b, or a fresh selector"""
    if a is None:
        return b
    if b is None:
        return a
    if cond is None:
        cond = fresh('sel', z3.BoolSort())
    s = State()
    n = 0
    for x, y in zip(a.facts, b.facts):
        if x is not y and not x.eq(y):
            break
        n += 1
    s.facts = a.facts[:n]
    if a.facts[n:]:
        s.facts.append(z3.Implies(cond, z3.And(*a.facts[n:])))
    if b.facts[n:]:
        s.facts.append(z3.Implies(z3.Not(cond), z3.And(*b.facts[n:])))
    def j(name, x, y):
        if x is y or x.eq(y):
            return x
        if z3.is_bool(x) or z3.is_bool(y) or (x.sort() == z3.IntSort() and name != 'nb'):
            return ite(cond, x, y)
        n = fresh(name, x.sort())
        s.facts.append(z3.Implies(cond, n == x))
        s.facts.append(z3.Implies(z3.Not(cond), n == y))
        return n
    for k in a.env:
        if k in b.env:
            s.env[k] = (a.env[k][0], j(k, a.env[k][1], b.env[k][1]))
    for k in sorted(set(a.mem) | set(b.mem)):
        x, y = a.mem.get(k), b.mem.get(k)
        s.mem[k] = j('M_' + k, x if x is not None else INIT[k], y if y is not None else INIT[k])
    s.nb, s.alive, s.bsz = j('nb', a.nb, b.nb), j('alive', a.alive, b.alive), j('bsz', a.bsz, b.bsz)
    return s


def merge_all(l):
    l = [x for x in l if x is not None]
    r = None
    for x in l:
        r = merge(r, x)
    return r

# ----------------------------------------------------------------------------- contracts


class Loop:
    """inv: invariant; steps: what one iteration does (clauses over c.prev, the state at the loop head, and c); mark: ghosts set at the loop head"""

    def __init__(self, inv, modifies=lambda c: [], decreases=None, hints=None, exit_hints=None, frees=False, steps=None, mark=None, ghosts=()):
        self.frees = frees
        self.steps, self.mark = steps, mark
        self.ghosts = ghosts            # set by mark
        self.inv, self.modifies, self.decreases = inv, modifies, decreases
        self.hints, self.exit_hints = hints, exit_hints


class Unroll:
    """complete unrolling: at most n iterations, checked"""

    def __init__(self, n):
        self.n = n


class Contract:
    def __init__(self, name, pre=None, post=None, modifies=None, loops=None, globals_modified=(), hints=None,
                 trusted=False, effect=None, noreturn=False, allocates=False, frees=None):
        self.allocates, self.frees = allocates, frees
        self.name = name
        self.pre = pre or (lambda c: [])
        self.post = post or (lambda c: [])
        self.modifies = modifies or (lambda c: [])
        self.loops = loops or {}
        self.globals_modified = globals_modified
        self.hints = hints
        self.trusted = trusted
        self.effect = effect
        self.noreturn = noreturn


class Ctx:
    """what a specification sees: one state, plus the entry state and the result"""

    def __init__(self, ex, st, names=None, old=None, ret=None, args=None, entry=None):
        self.ex, self.st, self.names, self.old, self.ret = ex, st, names or {}, old, ret
        self.args = args
        self.entry = entry          # state at loop entry

    def __getitem__(self, n):
        if self.args is not None and n in self.args:
            return self.args[n]
        v = self.names.get(n, n)
        if v in self.st.env:
            t, x = self.st.env[v]
            if t.k == '#block':         # addressed local: its cell; array or struct: its address
                if t.ty.k in ('arr', 'struct'):
                    return Ptr.mk(x, I(0))
                return self.ex.rd_cell(self.st, t.kind, Ptr.mk(x, I(0)), t.ty)
            return as_int(x) if z3.is_bool(x) else x
        raise AttachError('specification refers to %s, which the code does not have' % n)

    def top(self, n):
        """parameter of the function under verification, at its entry"""
        return self.ex.old[n]

    def has(self, n):
        return (self.args is not None and n in self.args) or self.names.get(n, n) in self.st.env

    def arr(self, kind, p):
        return z3.Select(self.ex.memk(self.st, kind), blk(p))

    def at(self, kind, p, i=0):
        return z3.Select(self.arr(kind, p), z3.simplify(off(p) + i))

    def i4(self, p, i=0):
        return self.at('int', p, i)

    def ch(self, p, i=0):
        return self.at('char', p, i)

    def pp(self, p, i=0):
        return self.at('ptr', p, i)

    def valid(self, p, n, size):
        return z3.And(blk(p) != 0, z3.Select(self.st.alive, blk(p)), off(p) >= 0, (off(p) + n) * size <= z3.Select(self.st.bsz, blk(p)),
                      blk(p) < self.st.nb)

    def allocated(self, p):
        return z3.And(blk(p) < self.st.nb, z3.Select(self.st.alive, blk(p)))

    def bsz(self, p):
        return z3.Select(self.st.bsz, blk(p))


class VC:
    __slots__ = ('fn', 'name', 'line', 'facts', 'goal', 'kind')

    def __init__(self, fn, name, line, facts, goal, kind):
        self.fn, self.name, self.line, self.facts, self.goal, self.kind = fn, name, line, facts, goal, kind

# ----------------------------------------------------------------------------- symbolic execution


def keep_list(fr, b):
    if callable(fr):
        return [z3.Not(fr(b))]
    return [b != blk(p) for p in fr]


class Frame:
    def __init__(self, regions, nb, what, flag=None):
        self.regions, self.nb, self.what, self.flag = regions, nb, what, flag


NMUL, NDIV, NMOD = (z3.Function('nl_' + x, z3.IntSort(), z3.IntSort(), z3.IntSort()) for x in ('mul', 'div', 'mod'))


class LoopCtl:
    def __init__(self):
        self.brk, self.cont = [], []


class Exec:
    def __init__(self, tu, contracts, fname, overflow=True, max_vcs=4000):
        self.tu, self.contracts, self.fname = tu, contracts, fname
        self.vcs = []
        self.kinds = {}
        self.frames = []
        self.assumptions = set()
        self.ctl = []
        self.init_mem = {}
        self.overflow = overflow
        self.loop_no = 0
        self.calls = set()
        self.inlined = set()
        self.depth = 0
        self.static_blocks = {}
        self.rename = {}

    # ---- memory kinds
    def kind_sort(self, kind):
        if kind in ('int', 'uint', 'char', 'uchar', 'long', 'ulong', 'short', 'ushort'):
            return z3.IntSort()
        if kind == 'ptr':
            return Ptr
        if kind in ('double', 'float'):
            return FSort
        return self.kinds[kind]

    def memk(self, st, kind):
        if kind not in st.mem:
            if kind not in self.init_mem:
                if '.' in kind and kind not in self.kinds:
                    tag, f = kind.split('.', 1)
                    t = self.tu.structs.get(tag)
                    if t is None or t.fields is None:
                        raise AttachError('no struct ' + tag)
                    d = dict(t.fields)
                    if f not in d:
                        raise AttachError('no field ' + kind)
                    self.kinds[kind] = sort_of(d[f])
                self.init_mem[kind] = INIT[kind] = z3.Const('M_' + kind, z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), self.kind_sort(kind))))
            st.mem[kind] = self.init_mem[kind]
        return st.mem[kind]

    def kind_of(self, t):
        if t.k == 'int':
            return t.name
        if t.k in ('ptr', 'func'):
            return 'ptr'
        if t.k == 'flt':
            return t.name
        raise Unsupported('cell of %r' % t)

    # ---- obligations
    def oblige(self, st, goal, name, node=None, kind='safety'):
        line = node.coord.line if node is not None and getattr(node, 'coord', None) else 0
        g = z3.simplify(goal) if kind == 'safety' else goal
        self.vcs.append(VC(self.fname, name, line, list(st.facts), g, kind))
        if not z3.is_true(g):
            st.assume(goal)

    def well_typed(self, st, t, v):
        if t.k == 'int':
            st.assume(in_range(t, v))
        elif t.k == 'ptr':
            st.assume(blk(v) < st.nb)

    # ---- blocks
    def new_block(self, st, nbytes):
        b = st.nb
        st.nb = z3.simplify(st.nb + 1)
        al, bs = fresh('alive', st.alive.sort()), fresh('bsz', st.bsz.sort())
        st.assume(al == z3.Store(st.alive, b, z3.BoolVal(True)))
        st.assume(bs == z3.Store(st.bsz, b, nbytes))
        st.alive, st.bsz = al, bs
        st.assume(b > 0)
        for k in list(st.mem):
            st.setmem(k, z3.Store(st.mem[k], b, fresh('new_' + k, z3.ArraySort(z3.IntSort(), self.kind_sort(k)))))
        return b

    def check_access(self, st, p, size, node, what):
        self.oblige(st, z3.And(blk(p) != 0, z3.Select(st.alive, blk(p)), off(p) >= 0,
                               (off(p) + 1) * size <= z3.Select(st.bsz, blk(p))), 'memory: valid %s' % what, node)

    def rd_cell(self, st, kind, p, t):
        return z3.Select(z3.Select(self.memk(st, kind), blk(p)), off(p))

    def write_ok(self, st, kind, p, node):
        for fr in self.frames:
            if any(r[0] == kind and r[1] is None for r in fr.regions):
                continue
            alts = [blk(p) >= fr.nb]
            for r in fr.regions:
                k, b = r[0], r[1]
                if k != kind:
                    continue
                c = [blk(p) == b]
                if len(r) > 2:
                    c += [off(p) >= r[2], off(p) < r[3]]
                alts.append(z3.And(*c))
            self.frame_check(st, fr, z3.Or(*alts), 'frame: write of %s inside %s' % (kind, fr.what), node)

    def frame_check(self, st, fr, ok, name, node):
        """function frame: an obligation here; loop frame: remembered, due when the path comes back to the loop head"""
        if fr.flag is None:
            self.oblige(st, ok, name, node, 'frame')
        else:
            ok = z3.simplify(ok)
            if not z3.is_true(ok):
                t, v = st.env[fr.flag]
                st.env[fr.flag] = (t, z3.And(v, ok))

    def wr_cell(self, st, kind, p, v, node, check=True):
        if check:
            self.write_ok(st, kind, p, node)
        m = self.memk(st, kind)
        st.setmem(kind, z3.Store(m, blk(p), z3.Store(z3.Select(m, blk(p)), off(p), v)))

    # ---- conversions
    def conv(self, st, t, v, frm, node=None):
        """value v of type frm to type t"""
        if t.k == 'void':
            return v
        if t.k == 'int':
            if frm.k == 'flt':
                f = z3.Function('f2i_' + t.name, FSort, z3.IntSort())
                r = f(v)
                st.assume(in_range(t, r))
                return r
            if frm.k in ('ptr', 'arr', 'func'):
                f = z3.Function('p2i_' + t.name, Ptr, z3.IntSort())
                r = f(v)
                st.assume(in_range(t, r))
                return r
            if z3.is_bool(v):
                return v
            lo, hi = rng(t)
            flo, fhi = rng(frm)
            if flo >= lo and fhi <= hi:
                return v
            sv = z3.simplify(v)
            if z3.is_int_value(sv) and lo <= sv.as_long() <= hi:
                return sv
            m = 1 << t.bits
            if not t.signed:
                if frm.signed and flo >= -m and fhi <= hi:
                    return z3.If(v >= 0, v, v + m)
                return z3.If(z3.And(v >= 0, v <= hi), v, v % m)
            if not frm.signed and fhi < m:
                return z3.If(v <= hi, v, v - m)
            return z3.If(z3.And(v >= lo, v <= hi), v, (v + (m >> 1)) % m - (m >> 1))
        if t.k == 'flt':
            if frm.k == 'flt':
                return v if frm.bits == t.bits else z3.Function('f2f_%d_%d' % (frm.bits, t.bits), FSort, FSort)(v)
            return z3.Function('i2f_' + t.name, z3.IntSort(), FSort)(as_int(v))
        if t.k in ('ptr', 'func'):
            if frm.k in ('ptr', 'arr', 'func'):
                a, b = t.to if t.k == 'ptr' else None, (frm.to if frm.k == 'ptr' else frm.el if frm.k == 'arr' else None)
                if a is not None and b is not None and a.k != 'void' and b.k != 'void':
                    try:
                        sa, sb = self.tu.sizeof(a), self.tu.sizeof(b)
                    except Unsupported:
                        sa = sb = 0
                    if sa != sb and repr(a) in self.contracts.get('#reads_through', ()):
                        # values of this type kept inside raw memory: read as an object of its own (content arbitrary)
                        q = z3.Function('inside_' + repr(a), z3.IntSort(), z3.IntSort(), z3.IntSort())(blk(v), off(v))
                        st.assume(z3.And(q > 0, q < st.nb, z3.Select(st.alive, q), z3.Select(st.bsz, q) == sa))
                        self.assumptions.add('%s values kept in raw memory are read as they are (content arbitrary)' % repr(a))
                        return Ptr.mk(q, I(0))
                    if sa != sb:
                        self.oblige(st, off(v) == 0, 'cast between pointer types at offset 0', node)
                return v
            if z3.is_int_value(z3.simplify(as_int(v))):
                n = z3.simplify(as_int(v)).as_long()
                if n == 0:
                    return NULLP
                return Ptr.mk(I(-1000000 - n), I(0))
            return z3.Function('i2p', z3.IntSort(), Ptr)(as_int(v))
        if t.k == 'struct':
            return v
        raise Unsupported('conversion to %r' % t)

    # ---- expression evaluation: returns (type, term); mutates st
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        if n.type == 'string':
            p = Ptr.mk(I(-500000 - abs(hash(n.value)) % 400000), I(0))
            return ptrto(CHAR), p
        if n.type == 'char':
            c = n.value[1:-1]
            c = {'\\n': '\n', '\\0': '\0', '\\t': '\t', '\\r': '\r', "\\'": "'", '\\\\': '\\'}.get(c, c)
            return INT, I(ord(c))
        if 'float' in n.type or 'double' in n.type:
            return DBL, z3.Const('fc_%s' % float(n.value.rstrip('fFlL')), FSort)
        v = n.value
        suf = re.search(r'[uUlL]+$', v)
        suf = suf.group(0).lower() if suf and not (v.lower().startswith('0x') and False) else ''
        i = int(re.sub(r'[uUlL]+$', '', v), 0) if not re.fullmatch(r'0[0-7]+', v) else int(v, 8)
        if 'u' in suf:
            t = ULONG if 'l' in suf or i > 0xffffffff else UINT
        elif 'l' in suf or i > 0x7fffffff:
            t = LONG
            if v.lower().startswith('0x') and i <= 0xffffffff and 'l' not in suf:
                t = UINT
        else:
            t = INT
        return t, I(i)

    def e_ID(self, n, st):
        if n.name in self.tu.enums:
            return INT, I(self.tu.enums[n.name])
        name = self.rename.get(n.name, n.name)
        if name in st.env:
            t, v = st.env[name]
            if t.k == '#block':
                if t.ty.k == 'arr':
                    return ptrto(t.ty.el), Ptr.mk(v, I(0))
                if t.ty.k == 'struct':
                    return t.ty, Ptr.mk(v, I(0))
                return t.ty, self.rd_cell(st, t.kind, Ptr.mk(v, I(0)), t.ty)
            return t, v
        if n.name in self.tu.protos:
            return Ty('func', decl=self.tu.protos[n.name], name=n.name), z3.Const('fn_' + n.name, Ptr)
        raise Unsupported('identifier ' + n.name)

    # lvalues
    def lv(self, n, st):
        """('var', name, ty) | ('cell', kind, ptr, ty) | ('agg', prefix, ptr, ty)"""
        if isinstance(n, c_ast.ID):
            name = self.rename.get(n.name, n.name)
            if name not in st.env:
                raise Unsupported('assignment to ' + n.name)
            t, v = st.env[name]
            if t.k == '#block':
                if t.ty.k == 'struct':
                    return ('agg', t.ty.tag, Ptr.mk(v, I(0)), t.ty)
                return ('cell', t.kind, Ptr.mk(v, I(0)), t.ty)
            return ('var', name, t)
        if isinstance(n, c_ast.UnaryOp) and n.op == '*':
            t, p = self.ev(n.expr, st)
            return self.deref(t, p, n, st)
        if isinstance(n, c_ast.ArrayRef):
            t, p = self.ev(n.name, st)
            ti, i = self.ev(n.subscript, st)
            if t.k != 'ptr':
                raise Unsupported('subscript of %r' % t)
            return self.deref(t, padd(p, as_int(i)), n, st)
        if isinstance(n, c_ast.StructRef):
            f = n.field.name
            if n.type == '->':
                t, p = self.ev(n.name, st)
                if t.k != 'ptr' or t.to.k != 'struct':
                    raise Unsupported('-> on %r' % t)
                base, pre, stt = p, t.to.tag, t.to
                self.check_access(st, p, self.tu.sizeof(stt), n, '->' + f)
            else:
                l = self.lv(n.name, st)
                if l[0] != 'agg':
                    raise Unsupported('. on non-aggregate')
                base, pre, stt = l[2], l[1], l[3]
            for fn, ft in stt.fields:
                if fn == f:
                    kind = pre + '.' + f
                    if ft.k == 'struct':
                        return ('agg', kind, base, ft)
                    if ft.k == 'arr':
                        raise Unsupported('array field')
                    self.kinds[kind] = sort_of(ft)
                    return ('cell', kind, base, ft)
            raise Unsupported('field ' + f)
        if isinstance(n, c_ast.Cast):
            raise Unsupported('cast as lvalue')
        raise Unsupported('lvalue %s' % type(n).__name__)

    def deref(self, t, p, n, st):
        if t.k == 'arr':
            t = ptrto(t.el)
        if t.k != 'ptr':
            raise Unsupported('dereference of %r' % t)
        to = t.to
        if to.k == 'struct':
            self.check_access(st, p, self.tu.sizeof(to), n, 'struct access')
            return ('agg', to.tag, p, to)
        if to.k == 'arr':
            raise Unsupported('pointer to array')
        if to.k == 'void':
            raise Unsupported('dereference of void*')
        self.check_access(st, p, self.tu.sizeof(to), n, 'access')
        return ('cell', self.kind_of(to), p, to)

    def load(self, l, st):
        if l[0] == 'var':
            return l[2], st.env[l[1]][1]
        if l[0] == 'cell':
            if l[3].k == 'arr':
                return ptrto(l[3].el), l[2]
            if getattr(l[3], 'vol', False):
                return l[3], self.volatile_load(l, st)
            v = self.rd_cell(st, l[1], l[2], l[3])
            self.well_typed(st, l[3], v)
            return l[3], v
        if l[0] == 'agg':
            return l[3], (l[1], l[2])
        raise Unsupported('load')

    def volatile_load(self, l, st):
        """another thread may have written: any value; memory then holds the value last observed"""
        v = fresh('vol', z3.IntSort())
        st.assume(in_range(l[3], v))
        self.wr_cell(st, l[1], l[2], v, None)
        h = self.contracts.get('#vload')
        if h:
            c = Ctx(self, st, {}, self.old)
            for g, nv in h(c, l[2], v):
                st.env[g] = (st.env[g][0], nv)
            for f in (self.contracts['#rely'](c, l[2], v) if '#rely' in self.contracts else ()):
                st.assume(f)
        return v

    def store(self, l, t, v, st, node):
        if l[0] == 'agg':
            pre, p = v if isinstance(v, tuple) else (t.tag, v)
            for fn, ft in l[3].fields:
                if ft.k in ('struct', 'arr'):
                    raise Unsupported('nested struct copy')
                self.kinds[l[1] + '.' + fn] = sort_of(ft)
                self.kinds[pre + '.' + fn] = sort_of(ft)
                self.wr_cell(st, l[1] + '.' + fn, l[2], self.rd_cell(st, pre + '.' + fn, p, ft), node)
            return v
        v = self.conv(st, l[-1], v, t, node)
        if l[0] == 'var':
            st.env[l[1]] = (st.env[l[1]][0], v)
        else:
            if getattr(l[3], 'vol', False) and '#vwrite' in self.contracts:
                for nm, g in self.contracts['#vwrite'](Ctx(self, st, dict(self.rename), self.old), l[2], v):
                    self.oblige(st, g, 'write of a shared location: ' + nm, node, 'post')
            self.wr_cell(st, l[1], l[2], as_int(v) if z3.is_bool(v) else v, node)
        return v

    def e_ArrayRef(self, n, st):
        return self.load(self.lv(n, st), st)

    def e_StructRef(self, n, st):
        return self.load(self.lv(n, st), st)

    def e_Cast(self, n, st):
        t = self.tu.ty(n.to_type)
        if isinstance(n.expr, c_ast.FuncCall) and isinstance(n.expr.name, c_ast.ID) and n.expr.name.name in ('malloc', 'calloc', 'realloc'):
            return t, self.ev(n.expr, st)[1]
        f, v = self.ev(n.expr, st)
        return t, self.conv(st, t, v, f, n)

    def e_Assignment(self, n, st):
        if n.op == '=':
            t, v = self.ev(n.rvalue, st)
            l = self.lv(n.lvalue, st)
            v2 = self.store(l, t, v, st, n)
            return l[-1], v2
        t2, v2 = self.ev(n.rvalue, st)
        l = self.lv(n.lvalue, st)
        t1, v1 = self.load(l, st)
        t, v = self.arith(n.op[:-1], t1, v1, t2, v2, st, n)
        v = self.store(l, t, v, st, n)
        return l[-1], v

    def e_UnaryOp(self, n, st):
        op = n.op
        if op == 'sizeof':
            if isinstance(n.expr, c_ast.Typename):
                return ULONG, I(self.tu.sizeof(self.tu.ty(n.expr)))
            if isinstance(n.expr, c_ast.ID) and self.rename.get(n.expr.name, n.expr.name) in st.env:
                t = st.env[self.rename.get(n.expr.name, n.expr.name)][0]
                if t.k == '#block':
                    t = t.ty
                return ULONG, I(self.tu.sizeof(t))
            s2 = st.copy()
            k = len(self.vcs)
            t, _ = self.ev(n.expr, s2)
            del self.vcs[k:]
            return ULONG, I(self.tu.sizeof(t))
        if op in ('++', '--', 'p++', 'p--'):
            l = self.lv(n.expr, st)
            t, v = self.load(l, st)
            t2, v2 = self.arith('+' if '+' in op else '-', t, v, INT, I(1), st, n)
            nv = self.store(l, t2, v2, st, n)
            return t, (v if op[0] == 'p' else nv)
        if op == '&':
            l = self.lv(n.expr, st)
            if l[0] == 'cell':
                if l[1] != self.kind_of(l[3]):      # opaque: may be handed to a contract, not dereferenced here
                    return ptrto(l[3]), Ptr.mk(z3.Function('field_' + l[1], z3.IntSort(), z3.IntSort())(blk(l[2])), off(l[2]))
                return ptrto(l[3]), l[2]
            if l[0] == 'agg':
                if '.' in l[1]:
                    raise Unsupported('address of nested struct')
                return ptrto(l[3]), l[2]
            raise Unsupported('address of register variable')
        if op == '*':
            return self.load(self.lv(n, st), st)
        t, v = self.ev(n.expr, st)
        if op == '!':
            return INT, z3.Not(as_bool(v))
        if op == '-':
            if t.k == 'flt':
                return t, z3.Function('f_neg', FSort, FSort)(v)
            return self.arith('-', INT, I(0), t, as_int(v), st, n)
        if op == '+':
            return t, v
        if op == '~':
            v = as_int(v)
            if t.signed:
                return t, -v - 1
            return t, rng(t)[1] - v
        raise Unsupported('unary ' + op)

    def promote(self, t):
        if t.k == 'int' and t.bits < 32:
            return INT
        return t

    def usual(self, a, b):
        a, b = self.promote(a), self.promote(b)
        if a.bits == b.bits:
            return a if not a.signed else b
        return a if a.bits > b.bits else b

    def arith(self, op, t1, v1, t2, v2, st, n):
        if t1.k == 'arr':
            t1 = ptrto(t1.el)
        if t2.k == 'arr':
            t2 = ptrto(t2.el)
        if t1.k == 'ptr' or t2.k == 'ptr' or t1.k == 'func' or t2.k == 'func':
            if op in ('+', '-') and t1.k == 'ptr' and t2.k == 'int':
                k = as_int(v2)
                return t1, padd(v1, k if op == '+' else -k)
            if op == '+' and t2.k == 'ptr' and t1.k == 'int':
                return t2, padd(v2, as_int(v1))
            if op == '-' and t1.k == 'ptr' and t2.k == 'ptr':
                self.oblige(st, blk(v1) == blk(v2), 'pointer difference within one object', n)
                return LONG, off(v1) - off(v2)
            if op in ('==', '!='):
                a = v1 if t1.k in ('ptr', 'func') else self.conv(st, t2, v1, t1, n)
                b = v2 if t2.k in ('ptr', 'func') else self.conv(st, t1, v2, t2, n)
                r = a == b
                return INT, (r if op == '==' else z3.Not(r))
            if op in ('<', '<=', '>', '>=') and t1.k == 'ptr' and t2.k == 'ptr':
                self.oblige(st, blk(v1) == blk(v2), 'pointer comparison within one object', n)
                a, b = off(v1), off(v2)
                return INT, {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            raise Unsupported('pointer arithmetic ' + op)
        if t1.k == 'flt' or t2.k == 'flt':
            t = DBL if (t1.k == 'flt' and t1.bits == 64) or (t2.k == 'flt' and t2.bits == 64) else FLT
            a, b = self.conv(st, t, v1, t1, n), self.conv(st, t, v2, t2, n)
            if op in ('==', '!=', '<', '<=', '>', '>='):
                nm = {'==': 'eq', '!=': 'eq', '<': 'lt', '>': 'lt', '<=': 'le', '>=': 'le'}[op]
                f = z3.Function('f_' + nm, FSort, FSort, z3.BoolSort())
                r = f(b, a) if op in ('>', '>=') else f(a, b)
                return INT, (z3.Not(r) if op == '!=' else r)
            return t, z3.Function('f%d_%s' % (t.bits, {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op]), FSort, FSort, FSort)(a, b)
        a, b = as_int(v1), as_int(v2)
        if op in ('<<', '>>'):
            t = self.promote(t1)
            sb = z3.simplify(b)
            if not z3.is_int_value(sb):
                if z3.is_int_value(z3.simplify(a)) and op == '<<':
                    p = z3.Function('pow2', z3.IntSort(), z3.IntSort())
                    st.assume(p(b) > 0)
                    return t, a * p(b)
                raise Unsupported('symbolic shift')
            k = 1 << sb.as_long()
            if op == '<<':
                r = a * k
                if t.signed:
                    if self.overflow:
                        self.oblige(st, in_range(t, r), 'no signed overflow in <<', n)
                    return t, r
                return t, self.wrap(t, r)
            return t, a / I(k)
        t = self.usual(t1, t2)
        a, b = self.conv(st, t, a, t1, n), self.conv(st, t, b, t2, n)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return INT, {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if op in ('&', '|', '^'):
            sa, sb = z3.simplify(a), z3.simplify(b)
            for x, y in ((a, sb), (b, sa)):
                if op == '&' and z3.is_int_value(y) and y.as_long() >= 0 and (y.as_long() & (y.as_long() + 1)) == 0:
                    return t, x % I(y.as_long() + 1)
            if z3.is_int_value(sa) and z3.is_int_value(sb):
                x, y = sa.as_long(), sb.as_long()
                return t, I({'&': x & y, '|': x | y, '^': x ^ y}[op])
            r = z3.Function('bit_%s_%s' % ({'&': 'and', '|': 'or', '^': 'xor'}[op], t.name), z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
            st.assume(in_range(t, r))
            return t, r
        if op in ('/', '%'):
            self.oblige(st, b != 0, 'no division by zero', n)
            if '#nonlinear' in self.contracts and not z3.is_int_value(z3.simplify(b)):
                # uninterpreted here; the specification states the facts it needs, proved as lemmas over real arithmetic
                if t.signed and self.overflow:
                    self.oblige(st, z3.Not(z3.And(a == rng(t)[0], b == -1)), 'no signed overflow in division', n)
                r = (NDIV if op == '/' else NMOD)(a, b)
                st.assume(in_range(t, r))
                return t, r
            if t.signed:
                if self.overflow:
                    lo = rng(t)[0]
                    self.oblige(st, z3.Not(z3.And(a == lo, b == -1)), 'no signed overflow in division', n)
                # truncation towards zero, from the Euclidean div/mod of SMT-LIB
                q = a / b
                r = a % b
                tq = z3.If(z3.Or(a >= 0, r == 0), q, z3.If(b > 0, q + 1, q - 1))
                tr = z3.If(z3.Or(a >= 0, r == 0), r, z3.If(b > 0, r - b, r + b))
                return t, (tq if op == '/' else tr)
            return t, (a / b if op == '/' else a % b)
        if op == '*' and '#nonlinear' in self.contracts and not z3.is_int_value(z3.simplify(a)) and not z3.is_int_value(z3.simplify(b)):
            r = NMUL(a, b)
            if t.signed:
                if self.overflow:
                    self.oblige(st, in_range(t, r), 'no signed overflow in *', n)
                return t, r
            return t, self.wrap(t, r)
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}.get(op)
        if r is None:
            raise Unsupported('operator ' + op)
        r = r()
        if t.signed:
            if self.overflow:
                self.oblige(st, in_range(t, r), 'no signed overflow in %s' % op, n)
            return t, r
        if op in '+-' and not z3.is_int_value(z3.simplify(r)):      # operands are in range: once around at most
            m = rng(t)[1] + 1
            return t, (z3.If(r < m, r, r - m) if op == '+' else z3.If(r >= 0, r, r + m))
        return t, self.wrap(t, r)

    def wrap(self, t, r):
        lo, hi = rng(t)
        s = z3.simplify(r)
        if z3.is_int_value(s) and 0 <= s.as_long() <= hi:
            return s
        return z3.If(z3.And(r >= 0, r <= hi), r, r % (hi + 1))

    def e_BinaryOp(self, n, st):
        if n.op in ('&&', '||'):
            _, a = self.ev(n.left, st)
            a = as_bool(a)
            s2 = st.copy()
            s2.assume(a if n.op == '&&' else z3.Not(a))
            _, b = self.ev(n.right, s2)
            b = as_bool(b)
            s1 = st.copy()
            s1.assume(z3.Not(a) if n.op == '&&' else a)
            m = merge(s2, s1, a if n.op == '&&' else z3.Not(a))
            self.become(st, m)
            return INT, (z3.And(a, b) if n.op == '&&' else z3.Or(a, b))
        t1, v1 = self.ev(n.left, st)
        t2, v2 = self.ev(n.right, st)
        return self.arith(n.op, t1, v1, t2, v2, st, n)

    def become(self, st, m):
        st.env, st.mem, st.facts, st.nb, st.alive, st.bsz = m.env, m.mem, m.facts, m.nb, m.alive, m.bsz

    def e_TernaryOp(self, n, st):
        _, c = self.ev(n.cond, st)
        c = as_bool(c)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(z3.Not(c))
        t1, a = self.ev(n.iftrue, s1)
        t2, b = self.ev(n.iffalse, s2)
        if t1.k == 'int' and t2.k == 'int':
            t = self.usual(t1, t2)
            a, b = self.conv(s1, t, as_int(a), t1, n), self.conv(s2, t, as_int(b), t2, n)
        elif t1.k == 'ptr' and t2.k == 'ptr':
            t = t1 if t1.to.k != 'void' else t2
        elif t1.k == 'ptr':
            t, b = t1, self.conv(s2, t1, b, t2, n)
        elif t2.k == 'ptr':
            t, a = t2, self.conv(s1, t2, a, t1, n)
        else:
            t = DBL
            a, b = self.conv(s1, t, a, t1, n), self.conv(s2, t, b, t2, n)
        m = merge(s1, s2, c)
        self.become(st, m)
        return t, z3.If(c, a, b)

    def e_ExprList(self, n, st):
        r = None
        for e in n.exprs:
            r = self.ev(e, st)
        return r

    # ---- calls
    def e_FuncCall(self, n, st):
        if not isinstance(n.name, c_ast.ID):
            return self.call_fp(n, st)
        f = n.name.name
        args_n = n.args.exprs if n.args else []
        if self.rename.get(f, f) in st.env:
            return self.call_fp(n, st)
        self.calls.add(f)
        b = getattr(self, 'b_' + f, None)
        if b is not None and f not in self.contracts:
            return b(n, args_n, st)
        if f in self.contracts:
            return self.apply_contract(self.contracts[f], n, args_n, st)
        if f in self.tu.funcs:
            return self.inline(f, n, args_n, st)
        raise Unsupported('call of %s without contract' % f)

    def call_fp(self, n, st):
        nm = n.name.name if isinstance(n.name, c_ast.ID) else None
        if nm and ('*' + nm) in self.contracts:
            return self.apply_contract(self.contracts['*' + nm], n, n.args.exprs if n.args else [], st)
        raise Unsupported('call through a pointer')

    def proto(self, f):
        d = self.tu.protos.get(f)
        if d is None:
            return None, []
        ret = self.tu.ty(d.type)
        ps = []
        for p in (d.args.params if d.args else []):
            if isinstance(p, c_ast.EllipsisParam):
                ps.append(('...', None))
            elif isinstance(p, c_ast.Typename):
                t = self.tu.ty(p.type)
                if t.k == 'arr':
                    t = ptrto(t.el)
                if t.k != 'void':
                    ps.append((p.name or 'arg%d' % len(ps), t))
            else:
                t = self.tu.ty(p.type)
                if t.k == 'arr':
                    t = ptrto(t.el)
                ps.append((p.name, t))
        return ret, ps

    def apply_contract(self, k, n, args_n, st):
        ret, ps = self.proto(k.name if not k.name.startswith('*') else k.proto)
        args, argv = {}, []
        variadic = bool(ps) and ps[-1][0] == '...'
        for i, a in enumerate(args_n):
            t, v = self.ev(a, st)
            if i < len(ps) and ps[i][1] is not None:
                v = self.conv(st, ps[i][1], v, t, n)
                args[ps[i][0]] = as_int(v) if z3.is_bool(v) else v
                argv.append((ps[i][1], args[ps[i][0]]))
            else:
                argv.append((t, as_int(v) if (z3.is_bool(v) if not isinstance(v, tuple) else False) else v))
        for i, (t, v) in enumerate(argv):
            args['#%d' % i] = v
        pre = Ctx(self, st.copy(), self.globmap(), None, None, args)
        pre.argv = argv
        pre.node = n
        for nm, g in k.pre(pre):
            self.oblige(st, g, 'precondition of %s: %s' % (k.name, nm), n, 'pre')
            pre.st.assume(g)
        if k.noreturn:
            st.assume(z3.BoolVal(False))
            return VOID, I(0)
        # effects
        nb0 = st.nb
        if k.effect is not None:
            r = k.effect(self, st, pre)
            if r is not None:
                return ret, r
        for r in k.modifies(pre):
            kind, b = r[0], r[1]
            if len(r) > 2:
                self.check_region(st, kind, b, r[2], r[3], n)
            else:
                self.check_region(st, kind, b, None, None, n)
            self.havoc_region(st, r)
        if k.allocates or k.frees is not None:
            oa, ob, on = st.alive, st.bsz, st.nb
            b = z3.Int('b!c%d' % next(_cnt))
            keep = [b < on]
            if k.frees is not None:
                keep += keep_list(k.frees(pre), b)
            st.alive, st.bsz = fresh('alive', oa.sort()), fresh('bsz', ob.sort())
            st.assume(z3.ForAll([b], z3.Implies(z3.And(*keep), z3.Select(st.alive, b) == z3.Select(oa, b)), patterns=[z3.Select(st.alive, b)]))
            st.assume(z3.ForAll([b], z3.Implies(b < on, z3.Select(st.bsz, b) == z3.Select(ob, b)), patterns=[z3.Select(st.bsz, b)]))
            if k.allocates:
                st.nb = fresh('nb', z3.IntSort())
                st.assume(st.nb >= on)
        for g in k.globals_modified:
            if g in st.env:
                t, v = st.env[g]
                nv = fresh(g, sort_of(t))
                st.env[g] = (t, nv)
                self.well_typed(st, t, nv)
        rv = None
        if ret is not None and ret.k != 'void':
            rv = fresh('ret_' + k.name, sort_of(ret))
            self.well_typed(st, ret, rv)
        post = Ctx(self, st, self.globmap(), pre, rv, args)
        post.argv = argv
        for nm, g in k.post(post):
            st.assume(g)
        return (ret or VOID), (rv if rv is not None else I(0))

    def globmap(self):
        return {}

    def check_region(self, st, kind, b, lo, hi, node):
        for fr in self.frames:
            if any(r[0] == kind and r[1] is None for r in fr.regions):
                continue
            if b is None:
                self.frame_check(st, fr, z3.BoolVal(False), 'frame: callee writes any %s inside %s' % (kind, fr.what), node)
                continue
            alts = [b >= fr.nb]
            for r in fr.regions:
                if r[0] != kind:
                    continue
                c = [b == r[1]]
                if len(r) > 2:
                    if lo is None:
                        continue
                    c += [lo >= r[2], hi <= r[3]]
                alts.append(z3.And(*c))
            if lo is not None:
                alts.append(lo >= hi)
            self.frame_check(st, fr, z3.Or(*alts), 'frame: callee writes %s inside %s' % (kind, fr.what), node)

    def havoc_region(self, st, r):
        kind, b = r[0], r[1]
        m = self.memk(st, kind)
        if b is None:
            st.mem[kind] = fresh('hv_' + kind, m.sort())
            return
        na = fresh('hv_' + kind, z3.ArraySort(z3.IntSort(), self.kind_sort(kind)))
        if len(r) > 2:
            i = z3.Int('i!h%d' % next(_cnt))
            oldarr = z3.Select(m, b)
            st.assume(z3.ForAll([i], z3.Implies(z3.Or(i < r[2], i >= r[3]), z3.Select(na, i) == z3.Select(oldarr, i)), patterns=[z3.Select(na, i)]))
        st.setmem(kind, z3.Store(m, b, na))

    # builtins
    def _args(self, args_n, st):
        return [self.ev(a, st) for a in args_n]

    def b_printf(self, n, a, st):
        self._args(a[1:], st)
        return INT, fresh('printf', z3.IntSort())

    def b_fprintf(self, n, a, st):
        self._args(a[2:], st)
        return INT, fresh('printf', z3.IntSort())

    def b_exit(self, n, a, st):
        self._args(a, st)
        st.assume(z3.BoolVal(False))
        return VOID, I(0)

    def b_abs(self, n, a, st):
        t, v = self.ev(a[0], st)
        v = self.conv(st, INT, v, t, n)
        v = as_int(v)
        if self.overflow:
            self.oblige(st, v > -(1 << 31), 'no signed overflow in abs', n)
        return INT, z3.If(v < 0, -v, v)

    def alloc(self, st, t, nbytes, n):
        self.assumptions.add('malloc does not fail')
        b = self.new_block(st, nbytes)
        return Ptr.mk(b, I(0))

    def b_malloc(self, n, a, st):
        t, v = self.ev(a[0], st)
        v = self.conv(st, ULONG, v, t, n)
        return ptrto(VOID), self.alloc(st, VOID, as_int(v), n)

    def b_free(self, n, a, st):
        t, v = self.ev(a[0], st)
        self.oblige(st, z3.Or(v == NULLP, z3.And(off(v) == 0, z3.Select(st.alive, blk(v)), blk(v) > 0)), 'free of a live heap block', n)
        al = fresh('alive', st.alive.sort())
        st.assume(al == z3.Store(st.alive, blk(v), z3.BoolVal(False)))      # block 0 is never alive
        st.alive = al
        return VOID, I(0)

    def b_sqrt(self, n, a, st):
        t, v = self.ev(a[0], st)
        v = self.conv(st, DBL, v, t, n)
        return DBL, z3.Function('f_sqrt', FSort, FSort)(v)

    def b_log(self, n, a, st):
        t, v = self.ev(a[0], st)
        return DBL, z3.Function('f_log', FSort, FSort)(self.conv(st, DBL, v, t, n))

    def b_ceil(self, n, a, st):
        t, v = self.ev(a[0], st)
        return DBL, z3.Function('f_ceil', FSort, FSort)(self.conv(st, DBL, v, t, n))

    def b_floor(self, n, a, st):
        t, v = self.ev(a[0], st)
        return DBL, z3.Function('f_floor', FSort, FSort)(self.conv(st, DBL, v, t, n))

    def b_memset(self, n, a, st):
        t, p = self.ev(a[0], st)
        tv, c = self.ev(a[1], st)
        tn, nb = self.ev(a[2], st)
        nb = as_int(nb)
        if t.k != 'ptr':
            raise Unsupported('memset on %r' % t)
        to = t.to
        sc = z3.simplify(as_int(c))
        if to.k == 'struct':
            kinds = [(to.tag + '.' + f, ft) for f, ft in to.fields]
        else:
            kinds = [(self.kind_of(to), to)]
        sz = self.tu.sizeof(to)
        if not (z3.is_int_value(sc) and sc.as_long() == 0) and sz != 1:
            raise Unsupported('memset non-zero')
        cnt = nb / I(sz) if sz > 1 else nb
        self.oblige(st, z3.And(blk(p) != 0, z3.Select(st.alive, blk(p)), off(p) >= 0, off(p) * sz + nb <= z3.Select(st.bsz, blk(p))), 'memory: valid memset', n)
        for kind, ft in kinds:
            if '.' in kind:
                self.kinds[kind] = sort_of(ft)
            zero = NULLP if ft.k == 'ptr' else (sc if ft.k == 'int' else z3.Const('fc_0.0', FSort))
            self.check_region(st, kind, blk(p), off(p), off(p) + cnt, n)
            m = self.memk(st, kind)
            na = fresh('ms_' + kind, z3.ArraySort(z3.IntSort(), self.kind_sort(kind)))
            i = z3.Int('i!m%d' % next(_cnt))
            old = z3.Select(m, blk(p))
            st.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= off(p), i < off(p) + cnt), zero, z3.Select(old, i)), patterns=[z3.Select(na, i)]))
            st.setmem(kind, z3.Store(m, blk(p), na))
        return ptrto(VOID), p

    # ---- inlining of a callee without contract (e.g. a newly extracted helper)
    def inline(self, f, n, args_n, st):
        if self.depth > 4:
            raise Unsupported('inline depth')
        fd = self.tu.funcs[f]
        ret, ps = self.proto(f)
        if any(p[0] == '...' for p in ps):
            raise Unsupported('variadic inline')
        self.inlined.add(f)
        vals = []
        for (pn, pt), a in zip(ps, args_n):
            t, v = self.ev(a, st)
            vals.append((pn, pt, self.conv(st, pt, v, t, n)))
        save = (self.rename, self.ctl, getattr(self, 'rets', None), self.cur_contract, self.loop_no, self.addr_taken, self.labels, self.loop_index, self.labels_done)
        self.depth += 1
        pre = '%s@%d:' % (f, next(_cnt))
        self.rename = {}
        self.ctl = []
        self.rets = []
        self.labels = {}
        self.cur_contract = self.contracts.get('inline:' + f) or Contract(f)
        self.loop_no = 0
        self.prefix_stack.append(pre)
        self.addr_taken = addr_taken(fd)
        for pn, pt, v in vals:
            self.declare(pn, pt, st, v)
        end = self.run_body(fd.body, st)
        rets = self.rets
        self.prefix_stack.pop()
        self.depth -= 1
        self.rename, self.ctl, self.rets, self.cur_contract, self.loop_no, self.addr_taken, self.labels, self.loop_index, self.labels_done = save
        outs = []
        for s, v in rets:
            s.env['#ret'] = (ret, v if v is not None else I(0))
            outs.append(s)
        if end is not None:
            if ret.k == 'void':
                end.env['#ret'] = (VOID, I(0))
                outs.append(end)
            else:
                end.env['#ret'] = (ret, fresh('noret', sort_of(ret)))
                outs.append(end)
        m = merge_all(outs)
        if m is None:
            st.assume(z3.BoolVal(False))
            return ret, fresh('dead', sort_of(ret)) if ret.k != 'void' else I(0)
        r = m.env.pop('#ret')
        for k in [k for k in m.env if k.startswith(pre)]:
            del m.env[k]
        self.become(st, m)
        return r

    # ---- declarations
    def declare(self, name, t, st, v=None):
        full = (self.prefix_stack[-1] if self.prefix_stack else '') + name
        self.rename[name] = full
        if t.k == 'struct' or name in self.addr_taken:
            size = self.tu.sizeof(t)
            b = self.new_block(st, I(size))
            kind = t.tag if t.k == 'struct' else self.kind_of(t)
            st.env[full] = (Ty('#block', ty=t, kind=kind), b)
            if v is not None:
                if t.k == 'struct':
                    self.store(('agg', t.tag, Ptr.mk(b, I(0)), t), t, v, st, None)
                else:
                    self.wr_cell(st, kind, Ptr.mk(b, I(0)), as_int(v) if z3.is_bool(v) else v, None, check=False)
            return
        if v is None:
            v = fresh(name, sort_of(t))
            self.well_typed(st, t, v)
        st.env[full] = (t, v)

    def s_Decl(self, n, st):
        if isinstance(n.type, (c_ast.Struct, c_ast.Enum)) and n.name is None:
            self.tu.ty(n.type)
            return st
        t = self.tu.ty(n.type)
        if 'static' in n.storage:
            full = 'static:' + n.name
            self.rename[n.name] = full
            if full not in st.env:
                st.env[full] = (t, fresh(n.name, sort_of(t)))
                self.well_typed(st, t, st.env[full][1])
            return st
        if t.k == 'arr':
            full = (self.prefix_stack[-1] if self.prefix_stack else '') + n.name
            self.rename[n.name] = full
            el = t.el
            if t.n is None:
                if isinstance(n.init, c_ast.InitList):
                    cnt = I(len(n.init.exprs))
                else:
                    raise Unsupported('array without size')
            else:
                _, cnt = self.ev(t.n, st)
                cnt = as_int(cnt)
            self.oblige(st, cnt >= 0, 'array size not negative', n)
            b = self.new_block(st, z3.simplify(cnt * self.tu.sizeof(el)))
            st.env[full] = (Ty('#block', ty=t, kind=el.tag if el.k == 'struct' else self.kind_of(el)), b)
            if n.init is not None:
                if not isinstance(n.init, c_ast.InitList):
                    raise Unsupported('array initialiser')
                for i, e in enumerate(n.init.exprs):
                    te, v = self.ev(e, st)
                    self.wr_cell(st, self.kind_of(el), Ptr.mk(b, I(i)), as_int(self.conv(st, el, v, te, n)) if el.k == 'int' else self.conv(st, el, v, te, n), n, check=False)
            return st
        if n.init is not None and not isinstance(n.init, c_ast.InitList):
            te, v = self.ev(n.init, st)
            if t.k != 'struct':
                v = self.conv(st, t, v, te, n)
            self.declare(n.name, t, st, v)
        else:
            if n.init is not None:
                raise Unsupported('initialiser list')
            self.declare(n.name, t, st)
        return st

    # ---- statements: return the state after, or None
    def ex(self, n, st):
        if st is None:
            return None
        if n is None:
            return st
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is not None:
            return m(n, st)
        self.ev(n, st)
        if st.facts and z3.is_false(st.facts[-1]):
            return None
        return st

    def s_DeclList(self, n, st):
        for d in n.decls:
            st = self.ex(d, st)
        return st

    def s_Typedef(self, n, st):
        return st

    def s_Pragma(self, n, st):
        return st

    def s_Compound(self, n, st):
        save = dict(self.rename)
        for s in (n.block_items or []):
            if st is None and not has_label(s):
                continue
            st = self.ex_lab(s, st)
        self.rename = save
        return st

    def ex_lab(self, s, st):
        if isinstance(s, c_ast.Label):
            return self.s_Label(s, st)
        return self.ex(s, st)

    def s_Label(self, n, st):
        pend = self.labels.pop(n.name, [])
        st = merge_all([st] + pend)
        self.labels_done.add(n.name)
        return self.ex(n.stmt, st)

    def s_Goto(self, n, st):
        if n.name in self.labels_done:
            raise Unsupported('backward goto')
        self.labels.setdefault(n.name, []).append(st)
        return None

    def s_EmptyStatement(self, n, st):
        return st

    def s_If(self, n, st):
        _, c = self.ev(n.cond, st)
        c = z3.simplify(as_bool(c))
        pr = self.contracts.get('#prune')
        if pr and not z3.is_true(c) and not z3.is_false(c):     # branches the case under verification excludes
            s = z3.Solver()
            s.set('timeout', 200)
            s.add(*pr)
            if s.check(c) == z3.unsat:
                c = z3.BoolVal(False)
            elif s.check(z3.Not(c)) == z3.unsat:
                c = z3.BoolVal(True)
        if z3.is_true(c):
            return self.ex(n.iftrue, st)
        if z3.is_false(c):
            return self.ex(n.iffalse, st) if n.iffalse is not None else st
        a, b = st.copy(), st.copy()
        a.assume(c)
        b.assume(z3.Not(c))
        a = self.ex(n.iftrue, a)
        b = self.ex(n.iffalse, b) if n.iffalse is not None else b
        return merge(a, b, c)

    def s_Return(self, n, st):
        v = None
        if n.expr is not None:
            t, v = self.ev(n.expr, st)
            rt = self.ret_ty()
            if rt.k != 'void':
                v = self.conv(st, rt, v, t, n)
        if st.facts and z3.is_false(st.facts[-1]):
            return None
        self.rets.append((st, as_int(v) if v is not None and z3.is_bool(v) else v))
        return None

    def ret_ty(self):
        return self.proto(self.cur_contract.name)[0]

    def s_Break(self, n, st):
        self.ctl[-1].brk.append(st)
        return None

    def s_Continue(self, n, st):
        for c in reversed(self.ctl):
            if not getattr(c, 'switch', False):
                c.cont.append(st)
                return None
        raise Unsupported('continue')

    def s_Switch(self, n, st):
        t, v = self.ev(n.cond, st)
        v = as_int(v)
        ctl = LoopCtl()
        ctl.switch = True
        self.ctl.append(ctl)
        items = n.stmt.block_items if isinstance(n.stmt, c_ast.Compound) else [n.stmt]
        seen = []
        cur = None
        # default reached when no case matches
        consts = []
        for it in items:
            while isinstance(it, c_ast.Case):
                consts.append(z3.simplify(as_int(self.ev(it.expr, st.copy())[1])))
                it = it.stmts[0] if it.stmts and isinstance(it.stmts[0], c_ast.Case) else None
        has_def = False
        for it in items:
            if isinstance(it, (c_ast.Case, c_ast.Default)):
                conds, stm = [], it
                while True:
                    if isinstance(stm, c_ast.Case):
                        conds.append(v == z3.simplify(as_int(self.ev(stm.expr, st.copy())[1])))
                    else:
                        has_def = True
                        conds.append(z3.And(*[v != c for c in consts]))
                    if stm.stmts and isinstance(stm.stmts[0], (c_ast.Case, c_ast.Default)):
                        stm = stm.stmts[0]
                        continue
                    break
                e = st.copy()
                e.assume(z3.Or(*conds))
                cur = merge(cur, e)
                for s in (stm.stmts or []):
                    if cur is not None:
                        cur = self.ex(s, cur)
            elif cur is not None:
                cur = self.ex(it, cur)
        outs = [cur] + ctl.brk
        if not has_def:
            e = st.copy()
            e.assume(z3.And(*[v != c for c in consts]))
            outs.append(e)
        self.ctl.pop()
        return merge_all(outs)

    # ---- loops
    def s_While(self, n, st):
        return self.loop(n, st, None, n.cond, None, n.stmt)

    def s_For(self, n, st):
        save = dict(self.rename)
        if n.init is not None:
            st = self.ex(n.init, st)
        r = self.loop(n, st, None, n.cond, n.next, n.stmt)
        self.rename = save
        return r

    def s_DoWhile(self, n, st):
        return self.loop(n, st, True, n.cond, None, n.stmt)

    def loop(self, n, st, do, cond, nxt, body):
        if st is None:
            return None
        idx = self.loop_index[id(n)]
        spec = self.cur_contract.loops.get(idx)
        if spec is None:
            spec = self.auto_unroll(idx)
        if isinstance(spec, Unroll):
            return self.unroll(n, st, do, cond, nxt, body, spec.n)
        tag = 'loop %d' % idx
        mods = assigned_vars(n)
        names = dict(self.rename)
        entry = Ctx(self, st.copy(), names, self.old)
        entry_ctx = Ctx(self, st, names, self.old, entry=entry)
        if spec.hints is not None:
            for h in spec.hints(entry_ctx):
                st.assume(h)
        for nm, g in spec.inv(entry_ctx):
            self.oblige(st, g, '%s: invariant on entry: %s' % (tag, nm), n, 'inv')
        regions = spec.modifies(entry_ctx)
        # havoc
        h = st.copy()
        for v in mods:
            full = self.rename.get(v, v)
            if full in h.env:
                t, _ = h.env[full]
                if t.k == '#block':
                    if t.ty.k in ('arr', 'struct'):
                        continue
                    self.havoc_region(h, (t.kind, h.env[full][1]))
                    regions = list(regions) + [(t.kind, h.env[full][1])]
                    continue
                nv = fresh(v, sort_of(t))
                h.env[full] = (t, nv)
        for k in self.globals_in(n):
            if k in h.env and h.env[k][0].k != '#block':
                h.env[k] = (h.env[k][0], fresh(k, sort_of(h.env[k][0])))
        for r in regions:
            self.havoc_region(h, r)
        nb_entry = st.nb
        if allocates(n):
            h.nb = fresh('nb', z3.IntSort())
            h.assume(h.nb >= nb_entry)
            oa, ob = h.alive, h.bsz
            h.alive = fresh('alive', oa.sort())
            h.bsz = fresh('bsz', ob.sort())
            b = z3.Int('b!a%d' % next(_cnt))
            if not spec.frees:
                h.assume(z3.ForAll([b], z3.Implies(b < nb_entry, z3.Select(h.alive, b) == z3.Select(oa, b)), patterns=[z3.Select(h.alive, b)]))
            h.assume(z3.ForAll([b], z3.Implies(b < nb_entry, z3.Select(h.bsz, b) == z3.Select(ob, b)), patterns=[z3.Select(h.bsz, b)]))
        for v in mods:
            full = self.rename.get(v, v)
            if full in h.env and h.env[full][0].k != '#block':
                self.well_typed(h, *h.env[full])
        hc = Ctx(self, h, names, self.old, entry=entry)
        for nm, g in spec.inv(hc):
            h.assume(g)
        if spec.hints is not None:
            for x in spec.hints(hc):
                h.assume(x)
        if spec.mark is not None:
            for g, v in spec.mark(hc).items():
                h.env[g] = (h.env[g][0], v)
        head = Ctx(self, h.copy(), names, self.old, entry=entry)
        var0 = spec.decreases(hc) if spec.decreases else None
        if var0 is None:
            self.assumptions.add('termination of %s, %s is not proved' % (self.cur_contract.name, tag))
        ctl = LoopCtl()
        self.ctl.append(ctl)
        flag = '#frame%d' % next(_cnt)
        h.env[flag] = (Ty('flag'), z3.BoolVal(True))
        self.frames.append(Frame(list(regions), nb_entry, tag, flag))
        alive_h = h.alive
        exits = []
        cur = h
        if not do and cond is not None:
            _, c = self.ev(cond, cur)
            c = as_bool(c)
            e = cur.copy()
            e.assume(z3.Not(c))
            exits.append(e)
            cur = cur.copy()
            cur.assume(c)
        cur = self.ex(body, cur)
        cur = merge_all([cur] + ctl.cont)
        if cur is not None and nxt is not None:
            self.ev(nxt, cur)
        if cur is not None and spec.steps is not None:
            sc = Ctx(self, cur, names, self.old, entry=entry)
            sc.prev = head
            for nm, g in spec.steps(sc):
                self.oblige(cur, g, '%s: one iteration: %s' % (tag, nm), n, 'post')
        if cur is not None and do:
            _, c = self.ev(cond, cur)
            c = as_bool(c)
            e = cur.copy()
            e.assume(z3.Not(c))
            exits.append(e)
            cur.assume(c)
        if cur is not None:
            cc = Ctx(self, cur, names, self.old, entry=entry)
            cc.prev = head
            if spec.hints is not None:
                for x in spec.hints(cc):
                    cur.assume(x)
            for nm, g in spec.inv(cc):
                self.oblige(cur, g, '%s: invariant preserved: %s' % (tag, nm), n, 'inv')
            self.oblige(cur, cur.env[flag][1], '%s: writes stay inside the loop frame' % tag, n, 'frame')
            if not spec.frees and not cur.alive.eq(alive_h):
                b = fresh('blk', z3.IntSort())
                self.oblige(cur, z3.Implies(b < nb_entry, z3.Select(cur.alive, b) == z3.Select(alive_h, b)), '%s: frees nothing allocated before' % tag, n, 'frame')
            if var0 is not None:
                v1 = spec.decreases(cc)
                self.oblige(cur, z3.And(var0 >= 0, v1 < var0), '%s: variant decreases' % tag, n, 'variant')
        self.frames.pop()
        self.ctl.pop()
        for b in ctl.brk:
            exits.append(b)
        out = merge_all(exits)
        if out is not None and spec.exit_hints is not None:
            for x in spec.exit_hints(Ctx(self, out, names, self.old, entry=entry)):
                out.assume(x)
        return out

    def auto_unroll(self, idx):
        raise AttachError('loop %d of %s has no invariant' % (idx, self.cur_contract.name))

    def unroll(self, n, st, do, cond, nxt, body, k):
        exits = []
        cur = st
        first = True
        for it in range(k + 1):
            if cur is None:
                break
            if not (do and first) and cond is not None:
                _, c = self.ev(cond, cur)
                c = z3.simplify(as_bool(c))
                e = cur.copy()
                e.assume(z3.Not(c))
                if not z3.is_true(c):
                    exits.append(e)
                if z3.is_false(c):
                    cur = None
                    break
                cur.assume(c)
            first = False
            if it == k:
                self.oblige(cur, z3.BoolVal(False), 'loop unrolled completely in %d iterations' % k, n, 'inv')
                cur = None
                break
            ctl = LoopCtl()
            self.ctl.append(ctl)
            cur = self.ex(body, cur)
            self.ctl.pop()
            cur = merge_all([cur] + ctl.cont)
            exits += ctl.brk
            if cur is not None and nxt is not None:
                self.ev(nxt, cur)
        return merge_all(exits)

    def globals_in(self, n):
        """globals changed in the loop: assigned there, or through calls"""
        out, todo, seen = set(self.contracts.get('#vghosts', ())), [n], set()
        for x in walk(n):       # marks set at the heads of this loop and the ones inside it
            l = self.cur_contract.loops.get(self.loop_index.get(id(x)))
            out |= set(getattr(l, 'ghosts', ()))
        while todo:
            for c in walk(todo.pop()):
                if isinstance(c, c_ast.FuncCall) and isinstance(c.name, c_ast.ID):
                    f = c.name.name
                    if f in self.contracts:
                        out |= set(self.contracts[f].globals_modified)
                    elif '*' + f in self.contracts:
                        out |= set(self.contracts['*' + f].globals_modified)
                    elif f in self.tu.funcs and f not in seen:
                        seen.add(f)
                        todo.append(self.tu.funcs[f])
                elif isinstance(c, c_ast.Assignment) and isinstance(c.lvalue, c_ast.ID):
                    out.add(c.lvalue.name)
                elif isinstance(c, c_ast.UnaryOp) and c.op in ('++', '--', 'p++', 'p--') and isinstance(c.expr, c_ast.ID):
                    out.add(c.expr.name)
        return {g for g in out if g in self.tu.globals or g in self.ghosts}

    def run_body(self, body, st):
        self.labels_done = set()
        self.loop_index = {}      # source order
        for i, l in enumerate(x for x in walk(body) if isinstance(x, (c_ast.For, c_ast.While, c_ast.DoWhile))):
            self.loop_index[id(l)] = i
        r = self.ex(body, st)
        if r is not None and any(self.labels.values()):
            raise Unsupported('goto out of scope')
        return r

    # ---- a whole function
    def verify(self):
        global _cnt
        _cnt = itertools.count()      # names do not depend on what was generated before
        name = self.fname
        fd = self.tu.funcs.get(name)
        if fd is None:
            raise AttachError('function %s not found in %s' % (name, self.tu.path))
        k = self.contracts[name]
        self.cur_contract = k
        self.prefix_stack = []
        self.addr_taken = addr_taken(fd)
        self.labels, self.rets = {}, []
        st = State()
        st.nb = z3.Int('nb0')
        st.alive = z3.Const('alive0', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        st.bsz = z3.Const('bsz0', z3.ArraySort(z3.IntSort(), z3.IntSort()))
        st.assume(st.nb > 0)
        st.assume(z3.Not(z3.Select(st.alive, I(0))))
        glob_used = {x.name for f in [fd] + [self.tu.funcs[g] for g in self.tu.funcs] for x in walk(f) if isinstance(x, c_ast.ID)}
        taken = set()
        for f in self.tu.funcs.values():
            taken |= addr_escaping(f)
        gi = 0
        for g, (t, init, ext, static) in self.tu.globals.items():
            if g not in glob_used:
                continue
            gi += 1
            if t.k in ('arr', 'struct') or g in taken:
                b = I(-gi)
                el = t.el if t.k == 'arr' else t
                try:
                    size = self.tu.sizeof(t)
                except Unsupported:
                    continue
                if el.k == 'arr':
                    continue
                st.env[g] = (Ty('#block', ty=t, kind=el.tag if el.k == 'struct' else self.kind_of(el)), b)
                st.assume(z3.Select(st.alive, b))
                st.assume(z3.Select(st.bsz, b) == size)
                continue
            try:
                v = z3.Const('G_' + g, sort_of(t))
            except Unsupported:
                continue
            st.env[g] = (t, v)
            self.well_typed(st, t, v)
        self.ghosts = self.contracts.get('#ghosts', {})
        for g, so in self.ghosts.items():
            st.env[g] = (Ty('ghost', sort=so), z3.Const('G_' + g, so))
        ret, ps = self.proto(name)
        args0 = {}
        for pn, pt in ps:
            v = z3.Const(pn, sort_of(pt))
            self.well_typed(st, pt, v)
            args0[pn] = v
            args0['#%d' % (len(args0) // 2)] = v
            self.rename[pn] = pn
        old = Ctx(self, st.copy(), {}, None, None, dict(args0))
        self.old = old
        for nm, g in k.pre(old):
            st.assume(g)
        old.st = st.copy()
        self.pre_facts = list(st.facts)
        for pn, pt in ps:
            self.declare(pn, pt, st, args0[pn])
        self.frames = [Frame(list(k.modifies(old)), old.st.nb, 'the function')]
        if k.hints:
            for h in k.hints(Ctx(self, st, dict(self.rename), old)):
                st.assume(h)
        end = self.run_body(fd.body, st)
        outs = list(self.rets)
        if end is not None:
            outs.append((end, None))
        for s, v in outs:
            c = Ctx(self, s, {}, old, v, dict(args0))
            if k.hints:
                for h in k.hints(Ctx(self, s, dict(self.rename), old, v, dict(args0))):
                    s.assume(h)
            gm = set(k.globals_modified)
            for g in list(self.tu.globals) + list(self.ghosts):
                if g in s.env and g in old.st.env and s.env[g][0].k != '#block' and g not in gm and not s.env[g][1].eq(old.st.env[g][1]):
                    self.oblige(s, s.env[g][1] == old.st.env[g][1], 'frame: global %s unchanged' % g, fd, 'frame')
            if not s.alive.eq(old.st.alive):
                b = fresh('blk', z3.IntSort())
                keep = [b < old.st.nb] + (keep_list(k.frees(old), b) if k.frees is not None else [])
                self.oblige(s, z3.Implies(z3.And(*keep), z3.Select(s.alive, b) == z3.Select(old.st.alive, b)), 'frame: frees nothing else', fd, 'frame')
            if not k.allocates and not s.nb.eq(old.st.nb):
                if v is not None and v.sort() == Ptr:
                    self.oblige(s, blk(v) < old.st.nb, 'result is not a new object', fd, 'frame')
                for r in k.modifies(old):
                    if self.kind_sort(r[0]) == Ptr and r[1] is not None:
                        i = fresh('i', z3.IntSort())
                        g = blk(z3.Select(z3.Select(self.memk(s, r[0]), r[1]), i)) < old.st.nb
                        if len(r) > 2:
                            g = z3.Implies(z3.And(r[2] <= i, i < r[3]), g)
                        s2 = s.copy()
                        s2.assume(blk(z3.Select(z3.Select(self.memk(old.st, r[0]), r[1]), i)) < old.st.nb)
                        self.oblige(s2, g, 'stores no new object in %s' % r[0], fd, 'frame')
            for nm, g in k.post(c):
                self.oblige(s.copy(), g, 'postcondition: %s' % nm, fd, 'post')
        self.n_returns = len(outs)
        # reachability (vacuity) probes: each must NOT be provable
        self.probes = [('precondition satisfiable', self.pre_facts)] + [('a return is reachable (%d)' % i, s.facts) for i, (s, v) in enumerate(outs)]
        return self.vcs


def walk(n):
    yield n
    for _, c in n.children():
        yield from walk(c)


def has_label(n):
    return any(isinstance(x, c_ast.Label) for x in walk(n))


def addr_escaping(fd):
    """addr_taken without addresses that are only stored in a parameter the function never reads"""
    dead = [p.name for p in fd.decl.type.args.params if getattr(p, 'name', None)] if fd.decl.type.args else []
    stores = [x for x in walk(fd.body) if isinstance(x, c_ast.Assignment) and x.op == '=' and isinstance(x.lvalue, c_ast.ID) and x.lvalue.name in dead
              and isinstance(x.rvalue, c_ast.UnaryOp) and x.rvalue.op == '&' and isinstance(x.rvalue.expr, c_ast.ID)]
    dead = [n for n in dead if sum(1 for x in walk(fd.body) if isinstance(x, c_ast.ID) and x.name == n) == sum(1 for x in stores if x.lvalue.name == n)]
    only = [x.rvalue.expr.name for x in stores if x.lvalue.name in dead]
    return {n for n in addr_taken(fd) if sum(1 for x in walk(fd) if isinstance(x, c_ast.UnaryOp) and x.op == '&' and any(isinstance(y, c_ast.ID) and y.name == n for y in walk(x.expr))) != only.count(n)}


def addr_taken(fd):
    out = set()
    for x in walk(fd):
        if isinstance(x, c_ast.UnaryOp) and x.op == '&':
            e = x.expr
            if isinstance(e, c_ast.ID):
                out.add(e.name)
    return out


def assigned_vars(n):
    out = set()
    for x in walk(n):
        if isinstance(x, c_ast.Assignment):
            l = x.lvalue
            if isinstance(l, c_ast.ID):
                out.add(l.name)
        elif isinstance(x, c_ast.UnaryOp) and x.op in ('++', '--', 'p++', 'p--'):
            if isinstance(x.expr, c_ast.ID):
                out.add(x.expr.name)
        elif isinstance(x, c_ast.Decl) and x.name:
            out.add(x.name)
        elif isinstance(x, c_ast.UnaryOp) and x.op == '&' and isinstance(x.expr, c_ast.ID):
            out.add(x.expr.name)
    return out


def allocates(n):
    return any(isinstance(x, c_ast.FuncCall) for x in walk(n)) or any(isinstance(x, c_ast.Decl) for x in walk(n))
