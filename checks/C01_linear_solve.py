from vlib.core import *
from vlib import graphs
import importlib

R = Registry('C01', 'sparse linear solves')

COND = 1e6


def run(backend, case, scattering, negative, purge_in=True, purge_out=True, sources=True, key=None):
    mod = importlib.import_module('phasor.matrix.' + backend)
    edges, M, src, s = graphs.build(case)
    n = case['n']
    key = key or (lambda i: i)
    A = (np.eye(n) - M) if scattering else M
    if np.max(np.linalg.cond(A)) > COND:
        return False
    X = np.linalg.inv(A)
    if negative:
        X = -X
    seq, req, em = graphs.seq_req(edges, n, key)
    kw = {}
    if sources:
        kw['inputs_map'] = dict((key(i), v) for i, v in src.items())
    ins = set(key(i) for i in case['ins'])
    outs = set(key(i) for i in case['outs'])
    if backend != 'graph_algorithm':
        kw.update(purge_in=purge_in, purge_out=purge_out)
    r = mod.inverse_solve_inplace(
        seq=seq, req=req, edge_map=em, inputs_set=ins, outputs_set=outs,
        scattering=scattering, negative=negative, **kw)
    sc = maxabs(X)
    rt = 1e-8 if backend != 'graph_algorithm' else 1e-6
    extra = set(r.edge_map) - set((i, o) for i in ins for o in outs)
    require(not extra, 'entries for pairs that were not requested: %r', extra)
    for i in case['ins']:
        for o in case['outs']:
            close(r.edge_map.get((key(i), key(o)), 0), X[..., o, i], 'response %d->%d' % (i, o),
                  rtol=rt, scale=sc)
    if sources:
        x = np.einsum('...ij,...j->...i', X, np.broadcast_to(s, X.shape[:-1]))
        scx = max(maxabs(x), sc * maxabs(s))
        if case['src']:
            for o in case['outs']:
                close(r.outputs_map.get(key(o), 0), x[..., o], 'solution at %d' % o, rtol=rt, scale=scx)
    return dict(n=min(n, 6), arr=case['shape'], scattering=scattering)


FLAGS = st.fixed_dictionaries(dict(scattering=st.booleans(), negative=st.booleans(),
                                   purge_in=st.booleans(), purge_out=st.booleans(),
                                   sources=st.booleans()))


@R.law(st.tuples(graphs.sparse_system(), FLAGS), n=1600, thorough=30000, shards=4,
       rule='the matrix (identity minus couplings, or the couplings themselves) has condition number below 1e6')
def luq_equals_dense_inverse(case):
    sysm, fl = case
    return run('DAG_algorithm', sysm, **fl)


@R.law(st.tuples(graphs.sparse_system(max_n=16), FLAGS), n=200, thorough=6000,
       rule='as above, up to 16 nodes')
def luq_equals_dense_inverse_large(case):
    sysm, fl = case
    return run('DAG_algorithm', sysm, **fl)


@R.law(st.tuples(graphs.sparse_system(), FLAGS), n=800, thorough=15000, shards=2,
       rule='as above')
def sparse_lu_equals_dense_inverse(case):
    sysm, fl = case
    if fl['sources']:
        # that backend takes either a source vector or a set of inputs, as the system's solver gives it
        return run('scisparse_algorithm', dict(sysm, ins=[]), **fl)
    return run('scisparse_algorithm', sysm, **fl)


@R.law(st.tuples(graphs.sparse_system(contraction=True), st.booleans()), n=800, thorough=15000,
       rule='scattering systems whose row and column sums are at most 0.9, the regime of the fast solver')
def fast_graph_equals_dense_inverse(case):
    sysm, neg = case
    return run('graph_algorithm', sysm, scattering=True, negative=neg)
