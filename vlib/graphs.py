"""Generators and dense oracle for sparse directed systems of equations."""
import collections
from .core import *


@st.composite
def sparse_system(draw, max_n=9, arrays=True, contraction=False):
    n = draw(st.integers(1, max_n))
    shape = draw(st.sampled_from(['s', 's', 's', 'k', 'k1m'])) if arrays else 's'
    diag = draw(st.sampled_from(['any', 'none', 'strong']))
    density = draw(st.sampled_from([0.15, 0.3, 0.5, 0.8]))
    scale = draw(st.sampled_from([0.05, 0.5, 1.0, 3.0]))
    shift = draw(st.integers(0, n))
    perm = draw(st.booleans())
    edges = []
    for a in range(n):
        for b in range(n):
            if a == b:
                on = {'any': draw(chance(density)), 'none': False, 'strong': True}[diag]
            else:
                on = draw(chance(density)) or (perm and b == (a + shift) % n)
            if not on:
                continue
            kind = 's'
            if shape != 's':
                kind = draw(st.sampled_from(['s', 'a', 'b'] if shape == 'k1m' else ['s', 'a']))
            m = {'s': 1, 'a': 3, 'b': 2}[kind]
            v = [draw(cplx(scale)) for _ in range(m)]
            if kind == 's' and draw(chance(0.1)):
                v = [[draw(st.sampled_from([1, -1, 0, 2])), 0]]
            if m > 1 and draw(chance(0.1)):
                v[draw(st.integers(0, m - 1))] = [0, 0]    # vanishes at one point of the sweep
            edges.append([a, b, kind, v])
    ins = [i for i in range(n) if draw(st.booleans())] or [0]
    outs = [i for i in range(n) if draw(st.booleans())] or [n - 1]
    src = []
    for i in range(n):
        if draw(chance(0.4)):
            kind = draw(st.sampled_from(['s', 'a'])) if shape != 's' else 's'
            src.append([i, kind, [draw(cplx(2.0)) for _ in range({'s': 1, 'a': 3}[kind])]])
    order = draw(st.permutations(list(range(len(edges)))))
    return dict(n=n, shape=shape, edges=edges, ins=ins, outs=outs, src=src, order=list(order),
                contraction=contraction)


def value(kind, v, shape):
    if kind == 's':
        return C(v[0])
    a = np.array([C(x) for x in v])
    if shape == 'k1m' and kind == 'a':
        return a.reshape(-1, 1)
    return a


def build(case):
    n, shape = case['n'], case['shape']
    edges = collections.OrderedDict()
    for i in case['order']:
        a, b, kind, v = case['edges'][i]
        edges[a, b] = value(kind, v, shape)
    full = {'s': (), 'k': (3,), 'k1m': (3, 2)}[shape]
    if case['contraction']:
        tot = max([1e-9] + [sum(maxabs(v) for (x, y), v in edges.items() if x == a) for a in range(n)]
                  + [sum(maxabs(v) for (x, y), v in edges.items() if y == a) for a in range(n)])
        f = 0.9 / tot if tot > 0.9 else 1.0
        edges = collections.OrderedDict((k, v * f) for k, v in edges.items())
    M = np.zeros(full + (n, n), dtype=complex)
    for (a, b), v in edges.items():
        M[..., b, a] = v
    src = {}
    s = np.zeros(full + (n,), dtype=complex)
    for i, kind, v in case['src']:
        src[i] = value(kind, v, shape)
        s[..., i] = src[i]
    return edges, M, src, s


def seq_req(edges, n, key=lambda i: i):
    seq = collections.defaultdict(set)
    req = collections.defaultdict(set)
    em = {}
    for (a, b), v in edges.items():
        em[key(a), key(b)] = v
        seq[key(a)].add(key(b))
        req[key(b)].add(key(a))
    for i in range(n):
        seq[key(i)]
        req[key(i)]
    return seq, req, em
