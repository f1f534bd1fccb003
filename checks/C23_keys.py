"""C23: keys, keyed arrays, scattering maps and the queue behave as what they label.

Every object is compared with a plain python model: a frequency key with an integer vector, a field key
with a dict, a keyed vector or matrix with a dict of entries, an SRE triple with a dense matrix, the queue
with a sorted list.
"""
from collections import defaultdict
from vlib.core import *

R = Registry('C23', 'keys and keyed algebra')

NF = 3
coef = st.one_of(st.sampled_from([0, 1, -1]), st.integers(-3, 3))
fvec = st.lists(coef, min_size=NF, max_size=NF)


# ------------------------------------------------------------------ frequency keys

@st.composite
def fexpr(draw, depth=3):
    if depth == 0 or draw(chance(0.3)):
        return ['key', draw(fvec), draw(st.booleans())]
    k = draw(st.sampled_from(['add', 'add', 'sub', 'sub', 'neg', 'mul']))
    if k == 'neg':
        return [k, draw(fexpr(depth - 1))]
    if k == 'mul':
        return [k, draw(st.integers(-3, 3)), draw(fexpr(depth - 1))]
    return [k, draw(fexpr(depth - 1)), draw(fexpr(depth - 1))]


def f_model(e):
    if e[0] == 'key':
        return list(e[1])
    if e[0] == 'neg':
        return [-x for x in f_model(e[1])]
    if e[0] == 'mul':
        return [e[1] * x for x in f_model(e[2])]
    a, b = f_model(e[1]), f_model(e[2])
    return [x + y if e[0] == 'add' else x - y for x, y in zip(a, b)]


def f_lib(e, Fs, seen):
    from phasor.base.dictionary_keys import FrequencyKey
    if e[0] == 'key':
        #some leaves name only the frequencies they contain, some also write the zeros
        v = FrequencyKey(dict((F, n) for F, n in zip(Fs, e[1]) if n or e[2]))
    elif e[0] == 'neg':
        v = -f_lib(e[1], Fs, seen)
    elif e[0] == 'mul':
        v = e[1] * f_lib(e[2], Fs, seen)
    elif e[0] == 'add':
        v = f_lib(e[1], Fs, seen) + f_lib(e[2], Fs, seen)
    else:
        v = f_lib(e[1], Fs, seen) - f_lib(e[2], Fs, seen)
    seen.append((v, f_model(e)))
    return v


def freqs(vals):
    from phasor.system import BGSystem
    from phasor import base
    s = BGSystem()
    out = []
    for i, v in enumerate(vals):
        setattr(s.own, 'F%d' % i, base.Frequency(F_Hz=v))
        out.append(getattr(s, 'F%d' % i))
    return out


@R.law(st.tuples(st.lists(fexpr(), min_size=2, max_size=4), st.lists(logf(0, 8), min_size=NF, max_size=NF)), n=350, thorough=8000,
       rule='a key of several frequencies arises')
def frequency_keys(case):
    """sums, differences, multiples and signs of frequency keys are those of integer combinations; equal combinations are the same key"""
    from phasor.base.dictionary_keys import FrequencyKey, DictKey
    exprs, vals = case
    Fs = freqs(vals)
    seen = []
    for e in exprs:
        f_lib(e, Fs, seen)
    snap = [dict(k.F_dict) for k, v in seen]
    for k, v in seen:
        fresh = FrequencyKey(dict((F, n) for F, n in zip(Fs, v) if n))
        require(k == fresh and fresh == k, 'the key %r differs from the key of the same combination %r', k, v)
        require(hash(k) == hash(fresh), 'equal keys with different hashes: %r', v)
        require(k.DC_is() == (not any(v)), 'constant or not: %r', v)
        ref = sum(n * f for n, f in zip(v, vals))
        close(float(k.frequency()), ref, 'frequency of %r' % (v,), rtol=1e-12, scale=sum(abs(n) * f for n, f in zip(v, vals)))
    for k, v in seen:
        for k2, v2 in seen:
            require((k == k2) == (v == v2), 'keys %r and %r compare as %r', v, v2, k == k2)
            require((DictKey({'f': k}) == DictKey({'f': k2})) == (v == v2), 'field keys of %r and %r', v, v2)
    #as the labels of a table
    tab = {}
    for k, v in seen:
        tab.setdefault(k, tuple(v))
    require(len(tab) == len(set(tuple(v) for k, v in seen)), 'a table keyed by frequency has %d entries for %d frequencies',
            len(tab), len(set(tuple(v) for k, v in seen)))
    for (k, v), sn in zip(seen, snap):
        require(dict(k.F_dict) == sn, 'a key changed while it was used', v)
    return any(sum(1 for n in v if n) > 1 for k, v in seen)


# ------------------------------------------------------------------ field keys

names = ['a', 'b', 'c', 'd']
dmap = st.dictionaries(st.sampled_from(names), st.integers(0, 2), max_size=4)


@R.law(st.tuples(dmap, dmap, dmap, st.lists(st.sampled_from(names), max_size=3, unique=True)), n=600, thorough=15000,
       rule='the keys share an entry and differ in another')
def field_keys(case):
    """field keys are immutable sets of labelled values"""
    from phasor.base.dictionary_keys import DictKey
    a, b, c, drop = case
    A, B, D = DictKey(a), DictKey(b), DictKey(**c)

    def same(k, d, what):
        require(isinstance(k, DictKey) and dict(k.items()) == d, what + ': got %r expected %r', k, d)
        fresh = DictKey(dict(reversed(list(d.items()))))
        require(k == fresh and hash(k) == hash(fresh), what + ': equality or hash of %r', d)
    for k, d in ((A, a), (B, b), (D, c)):
        same(k, d, 'key')
        require(len(k) == len(d) and sorted(k) == sorted(d), 'length and iteration', d)
        for n in names:
            require(k.get(n, 'none') == d.get(n, 'none'), 'get', d, n)
            require((n in k) == (n in d), 'membership', d, n)
            for v in range(3):
                require(bool(k.kv_contains(n, v)) == (d.get(n, None) == v), 'kv_contains', d, n, v)
    same(A | B, dict(a, **b), 'union')
    same((A | B) | D, dict(dict(a, **b), **c), 'union of three')
    same(A & B, dict((k, v) for k, v in a.items() if b.get(k, None) == v), 'intersection')
    same(B & A, dict((k, v) for k, v in a.items() if b.get(k, None) == v), 'intersection')
    sub = all(a.get(k, None) == v for k, v in b.items())
    require(bool(A.contains(B)) == sub, 'contains', a, b)
    require(bool(A.subkey_has(B)) == sub, 'subkey_has', a, b)
    require((A == B) == (a == b) and (A != B) == (a != b), 'comparison', a, b)
    if sub:
        same(A - B, dict((k, v) for k, v in a.items() if k not in b), 'difference')
        same((A - B) | B, a, 'difference and union')
    else:
        expect_raises(lambda: A - B, (AssertionError, KeyError), 'difference of a key that is not contained')
    same(A.purge_keys(*drop), dict((k, v) for k, v in a.items() if k not in drop), 'purge')
    if all(k in a for k in drop):
        same(A.without_keys(*drop), dict((k, v) for k, v in a.items() if k not in drop), 'without')
    else:
        expect_raises(lambda: A.without_keys(*drop), KeyError, 'without an absent label')
    same(A.replace_keys(B), dict(a, **b), 'replace')
    same(A.replace_keys(B, D), dict(dict(a, **b), **c), 'replace by two')
    same(A.replace_keys(b), dict(a, **b), 'replace from a dict')
    same(A.copy_update(**b), dict(a, **b), 'update of a copy')
    same(A, a, 'the key after its use')
    same(B, b, 'the key after its use')
    return bool(set(a.items()) & set(b.items())) and a != b


# ------------------------------------------------------------------ keyed vectors and matrices

ks = st.sampled_from(['p', 'q', 'r', 's'])
val = st.sampled_from([1.0, -2.0, 0.5, 3.0, 0.0, -0.25])
vops = st.lists(st.one_of(
    st.tuples(st.just('set'), ks, val), st.tuples(st.just('add'), ks, val), st.tuples(st.just('del'), ks), st.tuples(st.just('arr'),)), max_size=12)
mops = st.lists(st.one_of(
    st.tuples(st.just('set'), ks, ks, val), st.tuples(st.just('mul'), ks, ks, val), st.tuples(st.just('del'), ks, ks),
    st.tuples(st.just('arr'),), st.tuples(st.just('null'), ks, ks, val)), max_size=12)


def asarr(x):
    return np.asarray(x, dtype=float)


@R.law(st.tuples(vops, st.lists(ks, min_size=4, max_size=4)), n=400, thorough=8000, rule='the array is read between changes')
def keyed_vectors(case):
    """a keyed vector is the table of its entries; its array always shows the current entries in the order of the space"""
    from phasor.math.key_matrix import KVSpace, KeyVector
    ops, _ = case
    sp = KVSpace('s', keys=['p', 'q', 'r', 's'], dtype=np.float64)
    sp.freeze()
    order = [sp.idx_map(i) for i in range(len(sp))]
    require(sorted(order) == ['p', 'q', 'r', 's'] and all(sp.key_map(k) == i for i, k in enumerate(order)), 'order of the space', order)
    v = KeyVector(sp)
    m = {}
    reads = 0
    for op in list(ops) + [('arr',)]:
        if op[0] == 'set':
            v[op[1]] = op[2]
            m[op[1]] = op[2]
        elif op[0] == 'add':
            v.add_by(op[1], op[2])
            m[op[1]] = m.get(op[1], 0) + op[2]
        elif op[0] == 'del':
            if op[1] in m:
                del v[op[1]]
                del m[op[1]]
        else:
            reads += len(m) > 0
            close(asarr(v.array), [m.get(k, 0.0) for k in order], 'array', rtol=1e-12)
        require(dict(v.items()) == m and len(v) == len(m), 'entries %r expected %r', dict(v.items()), m)
        for k in 'pqrs':
            require(v.get(k, 'none') == m.get(k, 'none'), 'entry', k)
    back = v.backmap_vector(v.array)
    require(dict((k, float(x)) for k, x in back.items()) == dict((k, x) for k, x in m.items() if x), 'entries of the array', m)
    expect_raises(lambda: v.__setitem__('zz', 1.0), RuntimeError, 'a label outside the frozen space')
    return reads > 1 and len(m) > 1


def build_m(ops, sa, sb):
    from phasor.math.key_matrix import KeyMatrix
    m = {}
    M = KeyMatrix(sa, sb)
    oa = [sa.idx_map(i) for i in range(len(sa))]
    ob = [sb.idx_map(i) for i in range(len(sb))]
    reads = 0
    for op in list(ops) + [('arr',)]:
        if op[0] == 'arr':
            reads += len(m) > 0
            close(asarr(M.array), [[m.get((a, b), 0.0) for a in oa] for b in ob], 'array', rtol=1e-12)
            continue
        a, b = op[1], op[2].upper()
        if op[0] == 'null':
            inside = a in oa and b in ob
            require(bool(M.set_nullable(b, a, op[3])) == inside, 'optional entry', a, b)
            if inside:
                m[a, b] = op[3]
            continue
        if a not in oa or b not in ob:
            continue
        if op[0] == 'set':
            M[a, b] = op[3]
            m[a, b] = op[3]
        elif op[0] == 'mul':
            M.multiply_by(a, b, op[3])
            m[a, b] = m[a, b] * op[3] if (a, b) in m else op[3]
        elif (a, b) in m:
            del M[a, b]
            del m[a, b]
        require(dict(M.items()) == m and len(M) == len(m), 'entries', m)
        require(dict(((f, t), v) for f, t, v in M) == m, 'iteration', m)
    return M, m, oa, ob, reads


@R.law(st.tuples(mops, mops, st.integers(2, 4), st.integers(2, 4)), n=400, thorough=8000, rule='a rectangular matrix and entries in both')
def keyed_matrices(case):
    """a keyed matrix is the table of its entries; sums, differences and arrays of it are those of the dense matrix"""
    from phasor.math.key_matrix import KVSpace
    o1, o2, na, nb = case
    sa = KVSpace('a', keys='pqrs'[:na], dtype=np.float64)
    sb = KVSpace('b', keys='PQRS'[:nb], dtype=np.float64)
    sa.freeze()
    sb.freeze()
    M1, m1, oa, ob, r1 = build_m(o1, sa, sb)
    M2, m2, _, _, r2 = build_m(o2, sa, sb)
    for M, sign, what in ((M1 + M2, 1, 'sum'), (M1 - M2, -1, 'difference')):
        want = dict(m1)
        for k, v in m2.items():
            want[k] = want.get(k, 0) + sign * v
        got = dict(M.items())
        require(sorted(got) == sorted(want) and all(abs(got[k] - want[k]) < 1e-12 for k in want), what + ' has %r expected %r', got, want)
        close(asarr(M.array), [[want.get((a, b), 0.0) for a in oa] for b in ob], 'array of the ' + what, rtol=1e-12)
    require(dict(M1.items()) == m1 and dict(M2.items()) == m2, 'operands changed')
    back = dict((k, float(v)) for k, v in M1.backmap_array(M1.array).items())
    require(back == dict((k, v) for k, v in m1.items() if v), 'entries of the array: %r expected %r', back, m1)
    if na == nb:
        inv = M1.backmap_array_inv(M1.array)       #any array of the shape of the inverse: rows are the labels it leads to
        want = dict(((b, a), m1.get((oa[j], ob[i]), 0.0)) for i, a in enumerate(oa) for j, b in enumerate(ob))
        require(dict((k, float(v)) for k, v in inv.items()) == dict((k, v) for k, v in want.items() if v), 'entries of the inverse array', dict(inv.items()))
        close(asarr(inv.array), asarr(M1.array), 'array of the inverse', rtol=1e-12)
    return bool(m1) and bool(m2)


stackval = st.one_of(val, st.lists(val, min_size=3, max_size=3))


@R.law(st.tuples(st.lists(st.tuples(ks, stackval), max_size=5), st.lists(st.tuples(ks, ks, stackval), max_size=6), st.integers(2, 4), st.integers(2, 4)),
       n=300, thorough=5000, rule='some entries are arrays, some numbers')
def stacked_entries(case):
    """keyed vectors and matrices with arrays for entries are the stack of those with numbers"""
    from phasor.math.key_matrix import KVSpace, KeyVector, KeyMatrix
    ve, me, na, nb = case
    sa = KVSpace('a', keys='pqrs'[:na], dtype=np.float64)
    sb = KVSpace('b', keys='PQRS'[:nb], dtype=np.float64)
    sa.freeze()
    sb.freeze()
    v, M, dv, dm = KeyVector(sa), KeyMatrix(sa, sb), {}, {}
    put = lambda x: np.array(x) if isinstance(x, list) else x
    for k, x in ve:
        if k in sa:
            v[k] = put(x)
            dv[k] = x
    for a, b, x in me:
        if a in sa and b.upper() in sb:
            M[a, b.upper()] = put(x)
            dm[a, b.upper()] = x
    at = lambda x, i: x[i] if isinstance(x, list) else x
    stacked = lambda d: any(isinstance(x, list) for x in d.values())
    va, Ma = asarr(v.array), asarr(M.array)
    require(va.shape == ((3,) if stacked(dv) else ()) + (na,), 'shape of the array of a vector', va.shape)
    require(Ma.shape == ((3,) if stacked(dm) else ()) + (nb, na), 'shape of the array of a matrix', Ma.shape)
    for i in range(3):
        close(va[i] if stacked(dv) else va, [at(dv.get(sa.idx_map(j), 0.0), i) for j in range(na)], 'slice of a vector', rtol=1e-12)
        close(Ma[i] if stacked(dm) else Ma, [[at(dm.get((sa.idx_map(j), sb.idx_map(k)), 0.0), i) for j in range(na)] for k in range(nb)],
              'slice of a matrix', rtol=1e-12)
    close(asarr(v.backmap_vector(va).array), va if np.any(va) else 0 * va.reshape(-1, na)[0], 'vector read back', rtol=1e-12)
    close(asarr(M.backmap_array(Ma).array), Ma if np.any(Ma) else 0 * Ma.reshape(-1, nb, na)[0], 'matrix read back', rtol=1e-12)
    return any(stacked(d) and not all(isinstance(x, list) for x in d.values()) for d in (dv, dm))


@R.law(st.tuples(st.lists(st.integers(0, 2), min_size=2, max_size=2), st.lists(st.sampled_from(['absent', 'zero']), min_size=2, max_size=2),
                 linf(-3, 3, 60), logf(0, 6), logf(-2, 1)), n=60, thorough=1500, rule='the lasers interfere')
def lasers_of_one_frequency(case):
    """two lasers interfere exactly when their frequencies are the same combination, however it is written"""
    from phasor.system import BGSystem
    from phasor import base, optics as O, readouts as RO
    mult, style, ph, f, P2 = case
    s = BGSystem()
    s.own.F = base.Frequency(F_Hz=f, order=4)
    fd = [{s.F: m} if m or w == 'zero' else {} for m, w in zip(mult, style)]
    s.own.l1 = O.Laser(F=s.F_carrier_1064, power_W=1.0, classical_fdict=fd[0])
    s.own.l2 = O.Laser(F=s.F_carrier_1064, power_W=P2, phase_rad=ph, classical_fdict=fd[1])
    s.own.bs = O.Mirror(T_hr=0.5, AOI_deg=45)
    s.own.pa, s.own.pb = O.PD(), O.PD()
    s.bond(s.l1.po_Fr, s.bs.po_FrA)
    s.bond(s.l2.po_Fr, s.bs.po_BkB)
    s.bond(s.bs.po_FrB, s.pa.po_Fr)
    s.bond(s.bs.po_BkA, s.pb.po_Fr)
    s.own.da = RO.DCReadout(port=s.pa.Wpd.o)
    s.own.db = RO.DCReadout(port=s.pb.Wpd.o)
    got = np.array([float(np.real(s.da.DC_readout)), float(np.real(s.db.DC_readout))])
    x = np.sqrt(P2) * np.cos(ph) if mult[0] == mult[1] else 0.0
    tot = (1 + P2) / 2
    close(got.sum(), 2 * tot, 'total power', rtol=1e-9)
    close(got, [tot + x, tot - x], 'powers behind the beamsplitter', rtol=1e-9, scale=tot)
    return mult[0] == mult[1] and style[0] != style[1]


# ------------------------------------------------------------------ scattering maps (seq, req, edge)

@st.composite
def sre_case(draw):
    n = draw(st.integers(2, 4))
    ent = st.dictionaries(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), cplx(2.0), max_size=n * n)
    return n, sorted([list(k), v] for k, v in draw(ent).items()), sorted([list(k), v] for k, v in draw(ent).items())


def sre_of(ents):
    seq, req, em = defaultdict(set), defaultdict(set), {}
    for (f, t), v in ents:
        seq['n%d' % f].add('n%d' % t)
        req['n%d' % t].add('n%d' % f)
        em['n%d' % f, 'n%d' % t] = C(v)
    return seq, req, em


def dense(em, n):
    M = np.zeros((n, n), complex)
    for (f, t), v in em.items():
        M[int(t[1:]), int(f[1:])] += v
    return M


def consistent(sre, what):
    seq, req, em = sre
    es = set((f, t) for f in seq for t in seq[f])
    er = set((f, t) for t in req for f in req[t])
    require(es == er == set(em), what + ': the lists of successors, predecessors and edges disagree: %r %r %r', es, er, set(em))


@R.law(sre_case(), n=400, thorough=8000, rule='the product has an entry with two terms')
def scattering_maps(case):
    """products and adjoints of sparse scattering maps are those of the dense matrices, in consistent bookkeeping"""
    from phasor.matrix import SRE_matrix_algorithms as S
    n, e1, e2 = case
    s1, s2 = sre_of(e1), sre_of(e2)
    A, B = dense(s1[2], n), dense(s2[2], n)
    P = S.matrix_mult_sre(s1, s2)
    consistent(P, 'product')
    close(dense(P[2], n), B @ A, 'product (second after first)', rtol=1e-12, scale=1)
    J = S.adjoint_sre(s1)
    consistent(J, 'adjoint')
    close(dense(J[2], n), A.conj().T, 'adjoint', rtol=1e-12, scale=1)
    K = S.copy_sre(s1)
    consistent(K, 'copy')
    require(K[2] == s1[2], 'copy')
    if e1:
        K[2][tuple(['n%d' % e1[0][0][0], 'n%d' % e1[0][0][1]])] = 99.0
        K[0]['n%d' % e1[0][0][0]].clear()
        consistent(s1, 'the original of an edited copy')
        close(dense(s1[2], n), A, 'the original of an edited copy', rtol=1e-12, scale=1)
        c = S.SRE_count_sparsity(s1)
        require(c.Nedges == len(e1), 'number of edges')
    return any(sum(1 for k in range(n) if A[k, f] and B[t, k]) > 1 for f in range(n) for t in range(n))


@R.law(st.integers(2, 4).flatmap(lambda n: st.tuples(st.just(n), st.lists(cplx(2.0), min_size=n * n, max_size=n * n), st.integers(1, n),
                                                     st.sets(st.integers(0, n * n - 1), max_size=n))),
       n=300, thorough=6000, rule='at least two well separated columns')
def unitary_completion(case):
    """orthonormalised columns are orthonormal and span, one after the other, what the columns spanned"""
    from phasor.matrix import SRE_matrix_algorithms as S
    n, ent, nc, zero = case
    M = np.array([0 if i in zero else C(v) for i, v in enumerate(ent)]).reshape(n, n)[:, :nc]
    sv = np.linalg.svd(M, compute_uv=False)
    if sv[-1] < 0.05:
        return False
    em = dict((('c%d' % j, 'n%d' % i), M[i, j]) for i in range(n) for j in range(nc) if M[i, j] != 0)
    out = S.edge_matrix_to_unitary_sre(em)
    require(out is not None, 'independent columns were called dependent')
    consistent(out, 'orthonormal columns')
    Q = np.zeros((n, nc), complex)
    for (f, t), v in out[2].items():
        Q[int(t[1:]), int(f[1:])] = v
    close(Q.conj().T @ Q, np.eye(nc), 'scalar products of the columns', rtol=1e-9)
    for j in range(nc):
        res = M[:, j] - Q[:, :j + 1] @ (Q[:, :j + 1].conj().T @ M[:, j])
        close(res, np.zeros(n), 'column %d outside the span' % j, atol=1e-8)
        require(abs(np.vdot(Q[:, j], M[:, j])) > 1e-6, 'column %d is not used', j)
    return nc > 1


# ------------------------------------------------------------------ the queue

qitem = st.tuples(st.integers(0, 6), st.integers(0, 3))
qops = st.lists(st.one_of(st.tuples(st.sampled_from(['push', 'push', 'pushpop', 'replace']), qitem),
                          st.tuples(st.sampled_from(['pop', 'peek']))), max_size=25)


@R.law(st.tuples(st.booleans(), st.lists(qitem, max_size=6), qops), n=400, thorough=8000, rule='items leave while others wait')
def priority_queue(case):
    """whatever the history of operations, the least waiting item leaves first"""
    from phasor.utilities.priority_queue import heap_priority_queue as H
    safe, init, ops = case
    q = (H.HeapPriorityQueueThreadsafe if safe else H.HeapPriorityQueue)(init)
    m = sorted(init)
    out = 0
    for op in ops:
        if op[0] == 'push':
            q.push(op[1])
            m = sorted(m + [op[1]])
        elif op[0] == 'pushpop':
            m = sorted(m + [op[1]])
            require(q.pushpop(op[1]) == m.pop(0), 'push and pop')
        elif op[0] == 'replace':
            if not m:
                expect_raises(lambda: q.replace(op[1]), IndexError, 'replace in an empty queue')
                continue
            require(q.replace(op[1]) == m[0], 'replace')
            m = sorted(m[1:] + [op[1]])
        elif op[0] == 'pop':
            if not m:
                expect_raises(q.pop, H.Empty, 'pop from an empty queue')
                continue
            require(q.pop() == m.pop(0), 'pop')
            out += len(m) > 1
        else:
            if not m:
                expect_raises(q.peek, H.Empty, 'peek at an empty queue')
                continue
            require(q.peek() == m[0], 'peek')
        require(q.is_empty() == (not m), 'emptiness')
        if not safe:
            require(len(q) == len(m) and bool(q) == bool(m), 'length')
    rest = []
    while not q.is_empty():
        rest.append(q.pop())
    require(rest == m, 'remaining items %r expected %r', rest, m)
    return out > 0
