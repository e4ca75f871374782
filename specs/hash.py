"""contracts for hash_table.c / hash_table_blocking.c: a finite map from key to handle"""
from vcg import *

H = z3.Function('H', Ptr, z3.IntSort())          # hashCode as a function of the key value


def null_key(c, G):
    return c[G['null']]


def table(c):
    return c['hashArray'], c['hashSize'], c['dummyItem']


def slot(c, s):
    return c.pp(c['hashArray'], s)


def key_of(c, p):
    return c.at('DataItem.key', p)


def data_of(c, p):
    return c.at('DataItem.data', p)


def is_item(c, p, G):
    """a live entry (not empty, not the tombstone)"""
    return z3.And(p != NULLP, p != c['dummyItem'])


def cyc(h, s, j):
    """j on the cyclic probe path from h up to and including s"""
    return z3.If(h <= s, z3.And(h <= j, j <= s), z3.Or(j >= h, j <= s))


def dist(h, s, n):
    return z3.If(s >= h, s - h, s - h + n)


def base(c, G):
    T, n, d = table(c)
    s, t = z3.Ints('s t')
    ps, pt = slot(c, s), slot(c, t)
    ins = z3.And(0 <= s, s < n)
    return [
        ('table size at least 256', z3.And(n >= 256, n <= (1 << 29))),
        ('table array valid', z3.And(off(T) == 0, blk(T) > 0, c.valid(T, n, 8))),
        ('tombstone valid', z3.And(off(d) == 0, blk(d) > 0, blk(d) != blk(T), c.valid(d, 1, 16))),
        ('tombstone content', z3.And(key_of(c, d) == null_key(c, G), data_of(c, d) == -1)),
        ('slots hold NULL, the tombstone or a valid item', z3.ForAll([s], z3.Implies(z3.And(ins, is_item(c, ps, G)),
            z3.And(off(ps) == 0, blk(ps) > 0, blk(ps) != blk(T), blk(ps) != blk(d), c.valid(ps, 1, 16), key_of(c, ps) != null_key(c, G), data_of(c, ps) >= 0)), patterns=[ps])),
        ('items are distinct objects with distinct keys', z3.ForAll([s, t], z3.Implies(z3.And(ins, 0 <= t, t < n, s != t, is_item(c, ps, G), is_item(c, pt, G)),
            z3.And(blk(ps) != blk(pt), key_of(c, ps) != key_of(c, pt))), patterns=[z3.MultiPattern(ps, pt)])),
    ]


def reach(c, G):
    T, n, d = table(c)
    s, j = z3.Ints('s j')
    ps, pj = slot(c, s), slot(c, j)
    return [('every item reachable by probing', z3.ForAll([s, j], z3.Implies(z3.And(0 <= s, s < n, 0 <= j, j < n, is_item(c, ps, G),
             cyc(H(key_of(c, ps)), s, j)), pj != NULLP), patterns=[z3.MultiPattern(ps, pj)]))]


def wf(c, G):
    return base(c, G) + reach(c, G) + haxiom()


def haxiom():
    p = z3.Const('p', Ptr)
    return [('hash range', z3.ForAll([p], z3.And(0 <= H(p), H(p) < 256), patterns=[H(p)]))]


def table_inv(c, G):
    return wf(c, G)


def same_map(c, o, G):
    X = z3.Const('X_any', Ptr)
    V = z3.Int('V_any')
    return haskey(c, X, V, G) == haskey(o, X, V, G)


def same_items(c, o, G):
    """the items of the new table are those of the old one"""
    s = z3.Int('s')
    t = z3.Int('t')
    ps = slot(c, s)
    return z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < c['hashSize'], is_item(c, ps, G)), z3.Exists([t], z3.And(0 <= t, t < o['hashSize'], is_item(o, slot(o, t), G), slot(o, t) == ps))), patterns=[ps])


def has_empty(c):
    s = z3.Int('s')
    return z3.Exists([s], z3.And(0 <= s, s < c['hashSize'], slot(c, s) == NULLP))


def unfreed(c, o):
    b = z3.Int('b')
    return z3.ForAll([b], z3.Implies(z3.And(b < o.st.nb, b != blk(o['hashArray'])), z3.Select(c.st.alive, b) == z3.Select(o.st.alive, b)), patterns=[z3.Select(c.st.alive, b)])


def nokey(c, K, G):
    """K is not in the table"""
    n = c['hashSize']
    s = z3.Int('s')
    ps = slot(c, s)
    return z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < n, is_item(c, ps, G)), key_of(c, ps) != K), patterns=[ps])


def haskey(c, K, v, G):
    n = c['hashSize']
    s = z3.Int('s')
    ps = slot(c, s)
    return z3.Exists([s], z3.And(0 <= s, s < n, is_item(c, ps, G), key_of(c, ps) == K, data_of(c, ps) == v))


def same_others(c, o, K, G):
    """for an arbitrary key X other than K the entry is unchanged (skolem constant X, both directions)"""
    X = z3.Const('X_any', Ptr)
    V = z3.Int('V_any')
    return z3.Implies(X != K, haskey(c, X, V, G) == haskey(o, X, V, G))


def keyval(c):
    return c.pp(c['key'])


def keyvalid(c):
    k = c['key']
    return z3.And(c.valid(k, 1, 8), blk(k) != blk(c['hashArray']))


S_, T_ = z3.Ints('s t')
PA = z3.ArraySort(z3.IntSort(), Ptr)
CNT = z3.Function('cnt', PA, z3.IntSort(), z3.IntSort())        # non-NULL slots among the first n
FREE = z3.Function('free', PA, z3.IntSort(), z3.IntSort())      # index of a NULL slot when there is one


def cnt_def(A, k):
    return z3.And(CNT(A, I(0)) == 0, z3.ForAll([k], z3.Implies(k >= 0, CNT(A, k + 1) == CNT(A, k) + z3.If(z3.Select(A, k) != NULLP, 1, 0)), patterns=[CNT(A, k + 1)]))


def lemma_full(A, n):
    j = z3.Int('j')
    f = FREE(A, n)
    return z3.Implies(z3.And(n >= 0, CNT(A, n) < n), z3.And(0 <= f, f < n, z3.Select(A, f) == NULLP))


def lemma_set(A, B, s, n):
    j = z3.Int('j')
    same = z3.ForAll([j], z3.Implies(j != s, z3.Select(A, j) == z3.Select(B, j)), patterns=[z3.Select(B, j)])
    return z3.Implies(z3.And(0 <= s, s < n, z3.Select(A, s) == NULLP, z3.Select(B, s) != NULLP, same), CNT(B, n) == CNT(A, n) + 1)


def lemma_zero(A, n):
    j = z3.Int('j')
    return z3.Implies(z3.And(n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(A, j) == NULLP), patterns=[z3.Select(A, j)])), CNT(A, n) == 0)


def lemmas():
    """inductions behind the counting facts: base and step are obligations of their own"""
    A, B = z3.Const('A', PA), z3.Const('B', PA)
    k, n, s, q = z3.Ints('k n s q')
    out = []
    D = [cnt_def(A, q), cnt_def(B, q)]
    # the skolem function FREE: it names a NULL slot when one exists (definition)
    ex = lambda m: z3.Exists([z3.Int('j')], z3.And(0 <= z3.Int('j'), z3.Int('j') < m, z3.Select(A, z3.Int('j')) == NULLP))
    P = lambda m: z3.Implies(CNT(A, m) < m, ex(m))
    out.append(('a count below n leaves a NULL slot: base', D, P(I(0))))
    out.append(('a count below n leaves a NULL slot: step', D + [k >= 0, P(k)], P(k + 1)))
    j = z3.Int('j')
    same = z3.ForAll([j], z3.Implies(j != s, z3.Select(A, j) == z3.Select(B, j)))
    H0 = [0 <= s, z3.Select(A, s) == NULLP, z3.Select(B, s) != NULLP, same]
    Q = lambda m: CNT(B, m) == CNT(A, m) + z3.If(m > s, 1, 0)
    out.append(('filling one slot adds one: base', D + H0, Q(I(0))))
    out.append(('filling one slot adds one: step', D + H0 + [k >= 0, Q(k)], Q(k + 1)))
    Z = lambda m: z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Select(A, j) == NULLP), patterns=[z3.Select(A, j)]), CNT(A, m) == 0)
    out.append(('an empty array counts zero: base', D, Z(I(0))))
    out.append(('an empty array counts zero: step', D + [k >= 0, Z(k), z3.Select(A, k) == z3.Select(A, k)], Z(k + 1)))
    return out


def newarr(c):
    T, o = c['hashArray'], c.old
    return z3.And(c['hashSize'] == 2 * o['hashSize'], c['oldSize'] == o['hashSize'], c['oldArray'] == o['hashArray'], c['dummyItem'] == o['dummyItem'],
                  off(T) == 0, blk(T) >= o.st.nb, c.valid(T, c['hashSize'], 8))


def grow_inv(c, G):
    T, n, d, i, o = c['hashArray'], c['hashSize'], c['dummyItem'], c['i'], c.old
    s, t = S_, T_
    ps, pt = slot(c, s), slot(c, t)
    os = c.pp(c['oldArray'], s)
    ot = c.pp(c['oldArray'], t)
    W = z3.Function('W_new', z3.IntSort(), z3.IntSort())
    return [('range', z3.And(0 <= i, i <= c['oldSize'])), ('array', newarr(c)),
            ('old table alive and unchanged', z3.And(table_unchanged(c, o))),
            ('entries come from the old table', z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < n, ps != NULLP), z3.Exists([t], z3.And(0 <= t, t < i, ps == ot))), patterns=[ps])),
            ('entries so far are in the new table', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < i), z3.Exists([s], z3.And(0 <= s, s < n, ps == ot))), patterns=[ot])),
            ('distinct', z3.ForAll([s, t], z3.Implies(z3.And(0 <= s, s < n, 0 <= t, t < n, s != t, ps != NULLP, pt != NULLP), blk(ps) != blk(pt)), patterns=[z3.MultiPattern(ps, pt)])),
            ('count', CNT(c.arr('ptr', T), n) == i)] + reach(c, G) + haxiom()


def table_unchanged(c, o):
    b = z3.Int('b')
    return [z3.ForAll([b], z3.Implies(z3.And(b > 0, b < o.st.nb), z3.Select(c.st.alive, b) == z3.Select(o.st.alive, b)), patterns=[z3.Select(c.st.alive, b)]),
            z3.ForAll([b], z3.Implies(z3.And(b > 0, b < o.st.nb), z3.Select(c.st.bsz, b) == z3.Select(o.st.bsz, b)), patterns=[z3.Select(c.st.bsz, b)])]


def probe_inv(c):
    n, h = c['hashSize'], H(c['key'])
    j = z3.Int('j')
    pj = slot(c, j)
    return [('index', z3.And(0 <= c['hashIndex'], c['hashIndex'] < n)),
            ('slots passed are occupied', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, dist(h, j, n) < dist(h, c['hashIndex'], n)), pj != NULLP), patterns=[pj]))]


def grow_hints(c):
    """instances of the lemmas for the arrays of this state"""
    A = c.arr('ptr', c['hashArray'])
    n = c['hashSize']
    out = [lemma_full(A, n), lemma_zero(A, n)]
    p = getattr(c, 'prev', None)
    if p is not None:
        out.append(lemma_set(p.arr('ptr', p['hashArray']), A, c['hashIndex'], n))
    return out


def contracts(suf, null, G):
    C = {}
    C['hashCode'] = Contract('hashCode', trusted=True,
        pre=lambda c: [('key readable', c.valid(c['key'], 1, 8))],
        post=lambda c: [('depends on the key only, in 0..255', z3.And(c.ret == H(c.pp(c['key'])), 0 <= c.ret, c.ret <= 255))])

    def scan_inv(c):
        """probed: the slots from H(key) up to hashIndex are occupied by other keys"""
        n = c['hashSize']
        K = c.pp(c['key'])
        h = H(K)
        j = z3.Int('j')
        pj = slot(c, j)
        return [('index', z3.And(0 <= c['hashIndex'], c['hashIndex'] < n, 0 <= c['probes'], c['probes'] <= n,
                                 z3.If(c['probes'] == n, c['hashIndex'] == h, dist(h, c['hashIndex'], n) == c['probes']))),
                ('slots passed hold other keys', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, dist(h, j, n) < c['probes']),
                    z3.And(pj != NULLP, key_of(c, pj) != K)), patterns=[pj]))]
    S = 'ext_mpi_hash_search' + suf
    C[S] = Contract(S, pre=lambda c: wf(c, G) + [('key valid', keyvalid(c)), ('key not null', keyval(c) != null_key(c, G))],
        post=lambda c: [('result is the stored handle, -1 exactly when absent',
                         z3.Or(z3.And(c.ret >= 0, haskey(c.old, keyval(c.old), c.ret, G)), z3.And(c.ret == -1, nokey(c.old, keyval(c.old), G))))],
        loops={0: Loop(scan_inv, decreases=lambda c: c['hashSize'] - c['probes'])})
    D = 'ext_mpi_hash_delete' + suf
    C[D] = Contract(D, pre=lambda c: wf(c, G) + [('key valid', keyvalid(c)), ('key not null', keyval(c) != null_key(c, G)),
                                               ('key object is not an item', z3.Not(inside(c, c['key'], G)))],
        modifies=lambda c: [('ptr', blk(c['hashArray']))], frees=lambda c: DEL(c, G),
        post=lambda c: wf(c, G) + [('absent afterwards', nokey(c, keyval(c.old), G)),
                        ('result', z3.Or(z3.And(c.ret >= 0, haskey(c.old, keyval(c.old), c.ret, G)), z3.And(c.ret == -1, nokey(c.old, keyval(c.old), G)))),
                        ('every other key unchanged', same_others(c, c.old, keyval(c.old), G))],
        loops={0: Loop(scan_inv, decreases=lambda c: c['hashSize'] - c['probes'])})
    INS = 'ext_mpi_hash_insert' + suf

    def ins_inv(c):
        n = c['hashSize']
        K = keyval(c.old)
        h = H(K)
        j = z3.Int('j')
        pj = slot(c, j)
        it = c['item']
        return table_inv(c, G) + [
            ('index', z3.And(0 <= c['hashIndex'], c['hashIndex'] < n, 0 <= c['probes'], c['probes'] < n, dist(h, c['hashIndex'], n) == c['probes'])),
            ('slots passed are live', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, dist(h, j, n) < c['probes']), is_item(c, pj, G)), patterns=[pj])),
            ('same map as on entry', same_map(c, c.old, G)),
            ('key still absent', nokey(c, K, G)),
            ('no or one growth', z3.Or(z3.And(n == c.old['hashSize'], c['hashArray'] == c.old['hashArray'], c['dummyItem'] == c.old['dummyItem']),
                                z3.And(n == 2 * c.old['hashSize'], blk(c['hashArray']) >= c.old.st.nb, blk(c['hashArray']) != blk(it), has_empty(c)))),
            ('key valid', z3.And(keyvalid(c), keyval(c) == K, z3.Not(inside(c, c['key'], G)), c['key'] == c.old['key'], c['data'] == c.old['data'])),
            ('frees at most the old array', unfreed(c, c.old)),
            ('new item untouched', z3.And(it == c.entry['item'] if c.entry else z3.BoolVal(True), blk(it) != blk(c['hashArray']), off(it) == 0, c.valid(it, 1, 16),
                 key_of(c, it) == K, data_of(c, it) == c.old['data'], z3.Not(inside(c, it, G)), blk(it) >= c.old.st.nb))]
    C[INS] = Contract(INS, pre=lambda c: table_inv(c, G) + [('key valid', keyvalid(c)), ('key not null', keyval(c) != null_key(c, G)),
                                    ('key object is not an item', z3.Not(inside(c, c['key'], G))), ('key absent', nokey(c, keyval(c), G)), ('handle not negative', c['data'] >= 0),
                                    ('room', c['hashSize'] < (1 << 28))],
        modifies=lambda c: [('ptr', blk(c['hashArray']))], allocates=True, frees=lambda c: [c['hashArray']],
        globals_modified=['hashArray', 'hashSize'],
        post=lambda c: table_inv(c, G) + [('key maps to the handle', haskey(c, keyval(c.old), c.old['data'], G)),
                        ('every other key unchanged', same_others(c, c.old, keyval(c.old), G))],
        loops={0: Loop(ins_inv, frees=True, decreases=lambda c: z3.If(c['hashSize'] == c.old['hashSize'], 4 * c.old['hashSize'] + c['hashSize'] - c['probes'], c['hashSize'] - c['probes']))})

    def full(c):
        n = c['hashSize']
        s = z3.Int('s')
        return z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < n), is_item(c, slot(c, s), G)), patterns=[slot(c, s)])
    C['hashGrow'] = Contract('hashGrow', pre=lambda c: table_inv(c, G) + [('table full', full(c)), ('room', c['hashSize'] < (1 << 28))],
        allocates=True, frees=lambda c: [c['hashArray']], globals_modified=['hashArray', 'hashSize'],
        post=lambda c: table_inv(c, G) + [('size doubled', c['hashSize'] == 2 * c.old['hashSize']), ('new array', blk(c['hashArray']) >= c.old.st.nb),
                        ('same map', same_map(c, c.old, G)), ('same map (keys)', same_items(c, c.old, G)), ('has an empty slot', has_empty(c))],
        loops={0: Loop(lambda c: [('range', z3.And(0 <= c['i'], c['i'] <= c['hashSize'])), ('array', newarr(c)),
                     ('cleared', z3.ForAll([S_], z3.Implies(z3.And(0 <= S_, S_ < c['i']), slot(c, S_) == NULLP), patterns=[slot(c, S_)]))],
                     modifies=lambda c: [('ptr', blk(c['hashArray']))], decreases=lambda c: c['hashSize'] - c['i']),
               1: Loop(lambda c: grow_inv(c, G), modifies=lambda c: [('ptr', blk(c['hashArray']))], decreases=lambda c: c['oldSize'] - c['i'], hints=grow_hints, exit_hints=grow_hints),
               2: Loop(lambda c: probe_inv(c), decreases=lambda c: dist(c['hashIndex'], FREE(c.arr('ptr', c['hashArray']), c['hashSize']), c['hashSize']), hints=grow_hints)})
    C['ext_mpi_hash_init' + suf] = Contract('ext_mpi_hash_init' + suf, pre=lambda c: haxiom(), allocates=True,
        globals_modified=['hashArray', 'hashSize', 'dummyItem'],
        post=lambda c: table_inv(c, G) + [('returns 0', c.ret == 0), ('empty map', z3.ForAll([z3.Int('s')], z3.Implies(z3.And(0 <= z3.Int('s'), z3.Int('s') < c['hashSize']), slot(c, z3.Int('s')) == NULLP), patterns=[slot(c, z3.Int('s'))]))],
        loops={0: Loop(lambda c: [('range', z3.And(0 <= c['i'], c['i'] <= c['hashSize'])), ('array', z3.And(off(c['hashArray']) == 0, blk(c['hashArray']) > 0, c.valid(c['hashArray'], c['hashSize'], 8), c['hashSize'] == 256)),
                     ('cleared', z3.ForAll([z3.Int('s')], z3.Implies(z3.And(0 <= z3.Int('s'), z3.Int('s') < c['i']), slot(c, z3.Int('s')) == NULLP), patterns=[slot(c, z3.Int('s'))]))],
                     modifies=lambda c: [('ptr', blk(c['hashArray']))], decreases=lambda c: c['hashSize'] - c['i'])})
    def done_inv(c):
        n, i, d, T = c['hashSize'], c['i'], c['dummyItem'], c['hashArray']
        s = S_
        b = z3.Int('b')
        ps = slot(c, s)
        return [('range', z3.And(0 <= i, i <= n)), ('table and tombstone alive', z3.And(c.st.alive[blk(T)], c.st.alive[blk(d)], c.st.nb == c.old.st.nb)),
                ('entries not reached yet are alive', z3.ForAll([s], z3.Implies(z3.And(i <= s, s < n, is_item(c, ps, G)), c.st.alive[blk(ps)]), patterns=[ps])),
                ('entries passed are released', z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < i, is_item(c, ps, G)), z3.Not(c.st.alive[blk(ps)])), patterns=[ps])),
                ('nothing else released', z3.ForAll([b], z3.Implies(z3.And(b < c.old.st.nb, z3.Not(isitemblk(c, b, G))), c.st.alive[b] == c.old.st.alive[b]), patterns=[c.st.alive[b]]))]
    DN = 'ext_mpi_hash_done' + suf
    C[DN] = Contract(DN, pre=lambda c: table_inv(c, G), frees=lambda c: (lambda b: z3.Or(b == blk(c['hashArray']), b == blk(c['dummyItem']), isitemblk(c, b, G))),
        post=lambda c: [('everything released', z3.And(z3.Not(c.st.alive[blk(c.old['hashArray'])]), z3.Not(c.st.alive[blk(c.old['dummyItem'])]),
                          z3.ForAll([S_], z3.Implies(z3.And(0 <= S_, S_ < c.old['hashSize'], is_item(c.old, slot(c.old, S_), G)), z3.Not(c.st.alive[blk(slot(c.old, S_))])), patterns=[slot(c.old, S_)])))],
        loops={0: Loop(done_inv, decreases=lambda c: c['hashSize'] - c['i'], frees=True)})
    return C


def isitemblk(c, b, G):
    s = z3.Int('s')
    ps = slot(c, s)
    return z3.Exists([s], z3.And(0 <= s, s < c['hashSize'], is_item(c, ps, G), b == blk(ps)))


def DEL(c, G):
    """deleting may free the item that holds the key, nothing else"""
    s = z3.Int('s')
    ps = slot(c, s)
    K = keyval(c)
    return lambda b: z3.Exists([s], z3.And(0 <= s, s < c['hashSize'], is_item(c, ps, G), key_of(c, ps) == K, b == blk(ps)))


def inside(c, p, G):
    s = z3.Int('s')
    ps = slot(c, s)
    return z3.Or(blk(p) == blk(c['dummyItem']), z3.Exists([s], z3.And(0 <= s, s < c['hashSize'], is_item(c, ps, G), blk(p) == blk(ps))))


def units():
    out = []
    for f, suf, null in (('src/mpi/hash_table.c', '', 'MPI_REQUEST_NULL'), ('src/mpi/hash_table_blocking.c', '_blocking', 'MPI_COMM_NULL')):
        C = contracts(suf, null, {'null': null})
        for fn in C:
            if not C[fn].trusted:
                out.append((f, C, fn))
    return out
