from vlib.core import *
from vlib import alm

R = Registry('C19', 'optical layouts')


def paths(tr):
    return sorted(list(tr.idx) + [p for p in tr.boxes if p])


def same(got, want, what, k=1.0):
    close(np.asarray(got), want, what, rtol=1e-9, scale=max(maxabs(want), k))


def size(tr):
    return max([maxabs(m) for m in tr.cum] + [maxabs(alm.symp_inv(m)) for m in tr.cum])


@R.law(st.tuples(alm.layout(), st.lists(st.integers(0, 99), min_size=4, max_size=4)), n=900, thorough=20000, shards=6,
       rule='at least two elements and a matrix that is not the identity')
def matrices_follow_the_rays(case):
    lay, pick = case
    tr = alm.Trace(lay)
    k = size(tr)
    if k > 1e5:
        return False
    b = alm.build(lay)
    same(b.sys.matrix, tr.M, 'matrix across the layout', k)
    same(b.sys.matrix_inv, alm.symp_inv(tr.M), 'inverse matrix', k * k)
    close(b.sys.width_m, tr.width, 'width', rtol=1e-9, scale=max(tr.width, 1))
    ps = paths(tr)
    p, q = ps[pick[0] % len(ps)], ps[pick[1] % len(ps)]
    sp, sq = ['left', 'right'][pick[2] % 2], ['left', 'right'][pick[3] % 2]
    m = b.sys.measurements
    for x in (p, q):
        for s in ('left', 'right'):
            close(m.object_z(b.objs[x], direction=s), tr.z_of(x, s), 'position of %s %s' % (x, s), rtol=1e-9, scale=max(tr.width, 1))
    tp, tq = b.objs[p].as_target(sp), b.objs[q].as_target(sq)
    Mp, Mq = tr.before(p, sp), tr.before(q, sq)
    same(b.sys.matrix_between(tp, tq), Mq @ alm.symp_inv(Mp), 'matrix from %s %s to %s %s' % (p, sp, q, sq), k * k)
    from phasor.alm import TargetLeft, TargetRight
    for t, M in ((tp, Mp), (tq, Mq)):
        same(b.sys.matrix_between(TargetLeft, t), M, 'matrix from the left end', k)
        same(b.sys.matrix_between(t, TargetRight), tr.M @ alm.symp_inv(M), 'matrix to the right end', k * k)
        same(b.sys.matrix_between(TargetRight, t), M @ alm.symp_inv(tr.M), 'matrix from the right end', k * k)
        same(b.sys.matrix_between(t, TargetLeft), alm.symp_inv(M), 'matrix to the left end', k * k)
    depth = max(len(x) for x in ps)
    return dict(elements=min(len(tr.idx), 6), depth=depth, rev=any(i.rev for i in tr.items)) if len(tr.idx) > 1 and maxabs(tr.M - np.eye(2)) > 1e-3 else False


@R.law(st.tuples(alm.layout(), st.lists(st.integers(0, 99), min_size=3, max_size=3), st.lists(st.floats(0.02, 0.98), min_size=2, max_size=4)),
       n=700, thorough=15000, shards=5, rule='a position inside a space, at least two elements')
def matrices_to_any_position(case):
    lay, pick, fr = case
    tr = alm.Trace(lay)
    k = size(tr)
    wide = [it for it in tr.items if it.w > 1e-6]
    if k > 1e5 or not wide or len(tr.idx) < 2:
        return False
    b = alm.build(lay)
    from phasor.alm import TargetLeft, TargetRight
    ps = paths(tr)
    p = ps[pick[0] % len(ps)]
    side = ['left', 'right'][pick[1] % 2]
    t, Mp = b.objs[p].as_target(side), tr.before(p, side)
    for j, f in enumerate(fr):
        it = wide[(pick[2] + j) % len(wide)]
        if it.d and it.d['k'] == 'plcxm':
            f = 0.4 * f
        z = it.z + f * it.w
        M = tr.at(z)
        same(b.sys.matrix_target_to_z_single(TargetLeft, z), M, 'matrix from the left end to z=%r' % z, k)
        same(b.sys.matrix_target_to_z_single(TargetRight, z), M @ alm.symp_inv(tr.M), 'matrix from the right end to z=%r' % z, k * k)
        same(b.sys.matrix_target_to_z_single(t, z), M @ alm.symp_inv(Mp), 'matrix from %s %s to z=%r' % (p, side, z), k * k)
    return dict(elements=min(len(tr.idx), 6), depth=max(len(x) for x in ps), at=tr.span(p)[1] - tr.span(p)[0] > 1)
