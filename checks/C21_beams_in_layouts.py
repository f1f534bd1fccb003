import math, re
from vlib.core import *
from vlib import alm

R = Registry('C21', 'beams in layouts')


def cv(z):
    return complex(float(z.real), float(z.imag))


def prop(q, M):
    return (M[0, 0] * q + M[0, 1]) / (M[1, 0] * q + M[1, 1])


def eta(q1, q2):
    """power overlap of two round beams"""
    return (4 * q1.imag * q2.imag / abs(q1 - q2.conjugate()) ** 2)


def targets(tr):
    """{path: q at the target going right in the layout}, ordered by position"""
    out = []
    for it in tr.items:
        if it.d and it.d['k'] == 'tgt':
            q = complex(*it.d['q'])
            out.append((it.path, -q.conjugate() if it.rev else q))
    return out


def name(path):
    return '.'.join('c%d' % i for i in path)


def mats(tr):
    return max([maxabs(m) for m in tr.cum] + [maxabs(alm.symp_inv(m)) for m in tr.cum])


def zs(tr, pick, fr):
    """positions inside spaces"""
    wide = [it for it in tr.items if it.w > 1e-6]
    out = []
    for j, f in enumerate(fr):
        it = wide[(pick + j) % len(wide)]
        if it.d and it.d['k'] == 'plcxm':
            f = 0.4 * f
        out.append(it.z + f * it.w)
    return out


def qclose(got, want, what, tol=1e-8):
    # compare in the metric of the beam itself
    d = abs(cv(got) - want) / math.sqrt(want.imag * want.imag)
    require(d < tol * (1 + abs(want) / want.imag) ** 2, what + ' beam parameter', cv(got), want)


FR = st.lists(st.floats(0.02, 0.98), min_size=2, max_size=6)
PICK = st.lists(st.integers(0, 99), min_size=4, max_size=4)


@R.law(st.tuples(alm.layout(min_targets=1), PICK, FR, st.sampled_from(['flat', 'sorted', 'grid', 'scalar'])), n=700, thorough=15000, shards=6,
       rule='the beam is followed to another place through a matrix that is not the identity')
def beams_at_positions(case):
    lay, pick, fr, how = case
    tr = alm.Trace(lay)
    k = mats(tr)
    T = targets(tr)
    if k > 1e4 or not [it for it in tr.items if it.w > 1e-6]:
        return False
    b = alm.build(lay)
    m = b.sys.measurements
    path, q0 = T[pick[0] % len(T)]
    M0 = tr.before(path)
    z = zs(tr, pick[1], fr)
    if how == 'sorted':
        z = sorted(z)
    want = [prop(q0, tr.at(x) @ alm.symp_inv(M0)) for x in z]
    tol = 1e-9 * k * k + 1e-8
    if how == 'scalar':
        for x, w in zip(z, want):
            qclose(m.q_target_z(x, name(path)).value, w, 'at z', tol)
            qclose(m.target_q(x, name(path)).value, w, 'target_q at z', tol)
    else:
        za = np.array(z)
        if how == 'grid':
            za = za[:len(z) // 2 * 2].reshape(2, -1)
        q = m.q_target_z(za, name(path))
        got = np.asarray(q.value.real, dtype=float) + 1j * np.asarray(q.value.imag, dtype=float)
        require(got.shape == za.shape, 'shape of the beam parameters', got.shape, za.shape)
        W = np.asarray(q.W, dtype=float).ravel()
        for i, g in enumerate(got.ravel()):
            qclose(g, want[i], 'at z array', tol)
            w2 = lay['nm'] * 1e-9 / (math.pi * -(1 / want[i]).imag)
            close(W[i], math.sqrt(w2), 'width along the layout', rtol=1e-6 + tol)
        mt = np.asarray(m.mat_target_z(name(path), za)).reshape(2, 2, -1)
        for i, x in enumerate(za.ravel()):
            close(mt[:, :, i], tr.at(x) @ alm.symp_inv(M0), 'matrix to z', rtol=1e-9, scale=k * k)
    close(m.target_z(name(path)), tr.z_of(path), 'position of the target', rtol=1e-9, scale=max(tr.width, 1))
    moved = any(maxabs(tr.at(x) @ alm.symp_inv(M0) - np.eye(2)) > 1e-3 for x in z)
    return dict(how=how, depth=len(path), targets=min(len(T), 3), rev=tr.items[tr.idx[path]].rev) if moved else False


@R.law(st.tuples(alm.layout(min_targets=2), PICK, st.booleans()), n=600, thorough=15000, shards=6,
       rule='two different targets with something between them')
def beams_at_targets_and_overlaps(case):
    lay, pick, principal = case
    tr = alm.Trace(lay)
    k = mats(tr)
    T = targets(tr)
    if k > 1e4 or len(T) < 2:
        return False
    b = alm.build(lay)
    m = b.sys.measurements
    i, j = pick[0] % len(T), pick[1] % len(T)
    tol = 1e-9 * k * k + 1e-8
    (p1, q1), (p2, q2) = T[i], T[j]
    M = tr.before(p2) @ alm.symp_inv(tr.before(p1))
    require(sorted(m.beam_targets.tname) == sorted(name(p) for p, q in T), 'names of the targets', m.beam_targets.tname)
    close(m.beam_targets.z, sorted(tr.z_of(p) for p, q in T), 'positions of the targets', rtol=1e-9, scale=max(1, tr.width))
    for n, z in zip(m.beam_targets.tname, m.beam_targets.z):
        close(z, dict((name(p), tr.z_of(p)) for p, q in T)[n], 'position of target ' + n, rtol=1e-9, scale=max(1, tr.width))
    qclose(m.target_obj(name(p1)).beam_q.value, q1, 'at its target')
    w = prop(q1, M)
    qclose(m.target_q(name(p2), name(p1)).value, w, 'at the other target', tol)
    close(np.asarray(m.mat_target_between(name(p1), name(p2))), M, 'matrix between targets', rtol=1e-9, scale=k * k)
    e = eta(w, q2)
    close(abs(cv(m.overlap(name(p1), name(p2)))) ** 2, e, 'power overlap', rtol=1e-6 + 100 * tol, scale=1)
    close(abs(cv(m.overlap(name(p2), name(p1)))) ** 2, e, 'power overlap backwards', rtol=1e-6 + 100 * tol, scale=1)
    # the ends
    qclose(m.target_q(b.objs[p2].as_target('right'), name(p1)).value, w, 'at the right of the other target', tol)
    # overlaps between each pair of neighbours
    order = [dict((name(p), (p, q)) for p, q in T)[n] for n in m.beam_targets.tname]
    es = []
    for (pa, qa), (pb, qb) in zip(order, order[1:]):
        # the listing gives the fourth power of the overlap
        es.append(eta(prop(qa, tr.before(pb) @ alm.symp_inv(tr.before(pa))), qb) ** 2)
    close(m.overlap_list(), es, 'overlaps in sequence', rtol=1e-6 + 100 * tol, scale=1)
    close(m.overlap_seq(), float(np.prod(es)), 'product of the overlaps', rtol=1e-6 + 100 * tol * len(es), scale=1)
    return dict(targets=min(len(T), 4), back=i > j) if i != j and maxabs(M - np.eye(2)) > 1e-3 else False


def gouy_between(tr, path, q0, za, zb, p=None):
    """Gouy phase gathered going from za to zb (za < zb) by the beam that is q0 at path: summed over the gaps"""
    tot = 0.0
    inv0 = alm.symp_inv(tr.before(path))
    for i, it in enumerate(tr.items):
        for lo, w, M in segments(tr, i, it):
            a, c = max(za, lo), min(zb, lo + w[0])
            if c <= a:
                continue
            n = w[1]
            q = prop(q0, M @ inv0)
            qa, qb = q + (a - lo) / n, q + (c - lo) / n
            tot += math.atan2(qb.real, qb.imag) - math.atan2(qa.real, qa.imag)
    return tot


def segments(tr, i, it):
    M, z = tr.cum[i], it.z
    for w, m, n in it.parts:
        if w is None:
            M = m @ M
        else:
            if w > 0:
                yield z, (w, n), M
            M = alm.gapm(w, n) @ M
            z += w


@R.law(st.tuples(alm.layout(kinds=[x for x in alm.LEAVES if x != 'abcd'], min_targets=2), PICK, st.lists(st.floats(0.02, 0.98), min_size=2, max_size=2)),
       n=500, thorough=12000, shards=4, rule='a Gouy phase of more than a thousandth gathered between two places')
def gouy_phases(case):
    lay, pick, fr = case
    tr = alm.Trace(lay)
    k = mats(tr)
    T = targets(tr)
    if k > 300 or len(T) < 2 or not [it for it in tr.items if it.w > 1e-6]:
        return False
    b = alm.build(lay)
    m = b.sys.measurements
    (p0, q0), (p1, q1), (p2, q2) = T[pick[0] % len(T)], T[pick[1] % len(T)], T[pick[2] % len(T)]
    z1, z2 = zs(tr, pick[3], fr)
    tol = 1e-5

    def check(a, c, za, zb, what):
        got = cv(m.relative_gouy_phasor(a, c, beam_source=name(p0)))
        ph = gouy_between(tr, p0, q0, za, zb) if za <= zb else -gouy_between(tr, p0, q0, zb, za)
        close(abs(got), 1, what + ' is a phasor', rtol=1e-9)
        close(got, np.exp(1j * ph), what, rtol=tol, scale=1)
        return ph
    ph = check(name(p1), name(p2), tr.z_of(p1), tr.z_of(p2), 'Gouy phase between targets')
    check(z1, z2, z1, z2, 'Gouy phase between positions')
    check(name(p1), z2, tr.z_of(p1), z2, 'Gouy phase from a target to a position')
    check(z1, name(p2), z1, tr.z_of(p2), 'Gouy phase from a position to a target')
    return dict(targets=min(len(T), 4), sign=ph > 0) if abs(ph) > 1e-3 else False


@R.law(st.tuples(alm.layout(kinds=[x for x in alm.LEAVES if x != 'tgt'], min_targets=1), PICK), n=600, thorough=12000, shards=4,
       rule='at least one lens, mirror or waist listed')
def listings(case):
    lay, pick = case
    tr = alm.Trace(lay)
    k = mats(tr)
    if k > 1e3:
        return False
    (path, q0), = targets(tr)
    b = alm.build(lay)
    m = b.sys.measurements
    zt, it0 = tr.z_of(path), tr.idx[path]
    lens, mirr, wst = [], [], []
    inv0 = alm.symp_inv(tr.before(path))
    unsure = False
    for i, it in enumerate(tr.items):
        kk = it.d['k'] if it.d else 'gap'
        left = i >= it0
        z = it.z if left else it.z + it.w
        f = -1 / it.M[1, 0] if it.M[1, 0] else None
        if kk in ('lens', 'plcx', 'cxcx', 'mir', 'plcxm') and abs(it.M[1, 0]) < 1e-6 and it.d.get('R', 1):
            return False                    # no power at all: the focal length is infinite
        if kk in ('lens', 'plcx', 'cxcx'):
            lens.append((z, f))
        elif kk in ('mir', 'plcxm'):
            mirr.append((z, f))
        if kk in ('sp', 'gap'):
            n = it.parts[0][2]
            q = prop(q0, tr.cum[i] @ inv0)
            zw = it.z - q.real * n
            if min(abs(zw - it.z), abs(zw - it.z - it.w)) < 1e-7 * k * k:
                if it.w > 0:
                    unsure = True
            elif it.z < zw < it.z + it.w:
                wst.append((zw, q.imag))

    def match(got, want, what, tol=1e-6):
        require(len(got) == len(want), 'number of ' + what, got, want)
        for g in got:
            for w in want:
                if abs(g[0] - w[0]) < tol * max(1, tr.width) * k and (g[1] is w[1] if None in (g[1], w[1]) else abs(g[1] - w[1]) < tol * k * k * abs(w[1])):
                    break
            else:
                require(False, what + ' not expected', g, want)
    match([(float(x.z), float(x.f_m)) for x in m.lens_descriptions()], lens, 'lenses')
    match([(float(x.z), float(x.f_m) if 'f_m' in x else None) for x in m.mirror_descriptions()], mirr, 'mirrors')
    if not unsure:
        # composites list no inner waists; theirs are inside the glass
        match([(float(x.z), float(x.ZR)) for x in m.waist_descriptions()], wst, 'waists')
    t = m.target_descriptions()
    require(len(t) == 1, 'one target listed', len(t))
    close(t[0].z, zt, 'position of the listed target', rtol=1e-9, scale=max(tr.width, 1))
    qclose(t[0].q.value, q0, 'of the listed target')
    return dict(waists=min(len(wst), 3), lenses=min(len(lens), 3), mirrors=min(len(mirr), 2)) if lens or mirr or wst else False


@st.composite
def cavity(draw):
    """a round trip written as a train of elements, with a return to the start"""
    n = draw(st.integers(1, 3))
    ch, gaps = [], []
    for i in range(n):
        ch.append(draw(st.sampled_from(['lens', 'mir'])))
        f = draw(logf(-0.7, 0.7)) * draw(st.sampled_from([1, 1, 1, -1]))
        u = draw(st.sampled_from(['m', 'mm', 'in']))
        ch[-1] = dict(k=ch[-1], f=[f, u], R=[2 * f, u])
        gaps.append([draw(st.sampled_from([0, draw(logf(-2, 0.3))])) if i == 0 else draw(logf(-2, 0.3)), 'm'])
    ch.append(dict(k='nop'))
    gaps.append([draw(logf(-2, 0.3)), 'm'])
    ch.insert(0, dict(k='nop'))
    gaps.insert(0, [0, 'm'])
    return dict(k='sys', ch=ch, gaps=gaps, rev=False, perm=draw(st.permutations(range(len(ch)))))


@R.law(st.tuples(alm.layout(kinds=['lens', 'nop', 'sp', 'plcx', 'mir'], width=3), cavity(), PICK, st.booleans()), n=800, thorough=15000, shards=4,
       rule='a stable cavity')
def cavity_modes(case):
    lay, cav, pick, outer = case
    if outer:                 # the source is in an inner system
        root = dict(lay['root'])
        root['ch'] = root['ch'] + [dict(k='sys', ch=[dict(k='ctgt', cav=cav)], gaps=[[0, 'm']], perm=[0], rev=bool(pick[0] % 2))]
    else:
        root = dict(lay['root'])
        root['ch'] = root['ch'] + [dict(k='ctgt', cav=cav)]
    root['gaps'] = root['gaps'] + [[0.3, 'm']]
    root['perm'] = list(root['perm']) + [len(root['perm'])]
    lay = dict(lay, root=root)
    tr = alm.Trace(lay)
    path = (len(root['ch']) - 1,) + ((0,) if outer else ())
    rev = tr.items[tr.idx[path]].rev
    sub = alm.Trace(dict(lay, root=dict(cav, rev=rev)))
    M = sub.M
    s = M[0, 0] + M[1, 1]
    if not -1.95 < s < 1.95 or abs(M[1, 0]) < 1e-3 or mats(tr) > 1e4:
        return False
    # the fixed point of q -> (A q + B) / (C q + D) in the upper half plane
    want = complex((M[0, 0] - M[1, 1]) / (2 * M[1, 0]), math.sqrt(4 - s * s) / (2 * abs(M[1, 0])))
    b = alm.build(lay)
    t = b.objs[path]
    q = cv(t.beam_q.value)
    qclose(q, want, 'of the cavity', 1e-7)
    close(np.asarray(t.q_system.matrix), M, 'round trip matrix', rtol=1e-9, scale=max(1, maxabs(M)))
    qclose(prop(q, np.asarray(t.q_system.matrix)), q, 'after a round trip', 1e-6)
    close(float(t.beam_q.wavelen), lay['nm'] * 1e-9, 'wavelength of the beam', rtol=1e-12)
    m = b.sys.measurements
    x = m.target_q(b.objs[path].as_target('left'), name(path))
    qclose(x.value, want, 'at the cavity target', 1e-7)
    ps = sorted(tr.idx, key=str)
    ps = [p for p in ps if p]
    p = ps[pick[1] % len(ps)]
    k = mats(tr)
    qclose(m.target_q(b.objs[p].as_target('left'), name(path)).value, prop(want, tr.before(p) @ alm.symp_inv(tr.before(path))),
           'of the cavity at another element', 1e-8 * k * k + 1e-7)
    return dict(rev=rev, outer=outer, g=s > 0)


@R.law(st.tuples(cavity(), st.sampled_from([0.1, 1, 2.5]), logf(-2, 0)), n=300, thorough=5000, shards=2, rule='a stable cavity')
def replicated_cavities(case):
    """a cavity copied into the layout has the matrix of the original and keeps its mode"""
    cav, zc, gap = case
    from phasor import alm as A
    lay = dict(root=dict(k='sys', ch=[dict(k='ctgt', cav=cav)], gaps=[[0, 'm']], perm=[0], rev=False), env='vacuum', nm=1064)
    sub = alm.Trace(dict(lay, root=cav))
    M = sub.M
    s = M[0, 0] + M[1, 1]
    if not -1.95 < s < 1.95 or abs(M[1, 0]) < 1e-3:
        return False
    b = alm.build(lay)
    t = b.sys.c0
    b.sys.own.cav = t.q_system.replica_generate(loc_m=1e-9)
    b.sys.own.end = A.NoP(loc_m=sub.width + gap)
    close(np.asarray(b.sys.cav.matrix), M, 'matrix of the copy', rtol=1e-9, scale=max(1, maxabs(M)))
    close(np.asarray(t.q_system.matrix), M, 'matrix of the original', rtol=1e-9, scale=max(1, maxabs(M)))
    m = b.sys.measurements
    q0 = cv(t.beam_q.value)
    for side in ('left', 'right'):
        qclose(m.target_q(b.sys.cav.as_target(side), 'c0').value, q0, 'at the %s of the copy' % side, 1e-6 * max(1, maxabs(M)) ** 2)
    close(m.object_z(b.sys.end), sub.width + gap, 'position after the copy', rtol=1e-9)
    return True


PREF = dict(k=1e3, c=1e-2, m=1e-3, n=1e-9, p=1e-12, f=1e-15, a=1e-18, z=1e-21)
PREF[u'\u03bc'] = 1e-6


@R.law(st.tuples(st.one_of(logf(-20.9, 6, signed=True), st.just(0.0)), st.integers(1, 6), st.booleans()), n=500, thorough=10000, rule='a number other than 0')
def printed_lengths(case):
    """a printed length reads back as the length, to its printed digits"""
    from phasor.alm.utils import unit_str
    v, d, c = case
    s = unit_str(v, 'm', d=d, use_c=c)
    g = re.match(u'^(-?[0-9]+)(\\.[0-9]+)?([kcmnpfaz\u03bc]?)m$', s)
    require(g, 'printed length', v, s)
    unit = PREF[g.group(3)] if g.group(3) else 1.0
    digits = len(g.group(2)) - 1 if g.group(2) else 0
    x = float(g.group(1) + (g.group(2) or ''))
    require(abs(x * unit - v) <= 0.5001 * 10 ** -digits * unit, 'printed length', v, s)
    return v != 0


DETUNE = ['lens', 'lens', 'nop', 'sp', 'plcx', 'cxcx', 'mir', 'plcxm']


@R.law(st.tuples(alm.layout(kinds=DETUNE, min_targets=1), st.lists(st.floats(-1, 1), min_size=3, max_size=3), st.integers(0, 5)), n=500, thorough=12000, shards=4,
       rule='at least one element behind the target')
def detunings(case):
    """the listed couplings of displaced elements give the mode mismatch of moving them, one by one and together

    An element moved by d lengthens the gap before it and shortens the one behind it; a mirror shortens both.
    """
    lay, amp, first = case
    # the target early in the layout, so that elements stand behind it
    root = lay['root']
    root = dict(root, ch=[root['ch'][-1]] + root['ch'][:-1], gaps=[root['gaps'][-1]] + root['gaps'][:-1], rev=root['rev'] and first > 3)
    lay = dict(lay, root=root, env='vacuum')
    tr = alm.Trace(lay)
    k = mats(tr)
    if k > 100:
        return False
    (path, q0), = targets(tr)
    b = alm.build(lay)
    it0 = tr.idx[path]
    order = [i for i, it in enumerate(tr.items) if i > it0 and it.d and it.d['k'] in ('lens', 'plcx', 'cxcx', 'mir', 'plcxm')]
    L = sorted(b.sys.measurements.detune_descriptions(), key=lambda x: x.z)
    require(len(L) == len(order), 'number of elements listed', len(L), len(order))
    zs_ = [tr.items[i].z for i in order]
    if min([b_ - a_ for a_, b_ in zip(zs_, zs_[1:])] or [1]) < 1e-9:
        return False
    cp = []
    for i, x in zip(order, L):
        close(x.z, tr.items[i].z, 'position of the element', rtol=1e-9, scale=max(tr.width, 1))
        c = cv(x.cplg02)
        close(x.mag, abs(c), 'magnitude listed', rtol=1e-9)
        close(np.exp(1j * math.radians(x.deg)) * abs(c), c, 'angle listed', rtol=1e-9, scale=abs(c) + 1e-12)
        cp.append(c)

    def end(move):
        M = np.eye(2)
        for i in range(it0, len(tr.items)):
            m = tr.items[i].M
            if i in move:
                s = 1 if tr.items[i].d['k'] in ('mir', 'plcxm') else -1
                m = alm.gapm(-move[i], 1) @ m @ alm.gapm(-s * move[i], 1)
            M = m @ M
        return prop(q0, M)
    q = end({})

    def mismatch(move):
        # signed differences cancel the terms of second order
        o = [end(dict((i, s * d) for i, d in move.items())) for s in (1, -1)]
        return abs((o[0] - o[1]) / (2 * q.imag)) / 2
    h = [1e-5 / max(abs(c), 1e-2) for c in cp]
    for i, d, c in zip(order, h, cp):
        close(mismatch({i: d}), abs(d * c) / 2, 'mismatch from displacing one element', rtol=1e-4, scale=abs(d * c) / 2 + 1e-9 * k * k)
    if len(order) > 1:
        h = [d * amp[j % 3] for j, d in enumerate(h)]
        tot = sum(abs(d * c) for d, c in zip(h, cp)) / 2
        close(mismatch(dict(zip(order, h))), abs(sum(d * c for d, c in zip(h, cp))) / 2, 'mismatch from displacing all elements', rtol=1e-4, scale=tot + 1e-9 * k * k)
    return dict(n=min(len(order), 4), mir=any(tr.items[i].d['k'] in ('mir', 'plcxm') for i in order)) if order and max(map(abs, cp)) > 1e-3 else False


@R.law(st.tuples(alm.layout(kinds=[x for x in alm.LEAVES if x not in ('abcd',)], min_targets=1), PICK, st.floats(0.01, 0.5)), n=400, thorough=8000, shards=2,
       rule='two steering points or more')
def alignment_excursions(case):
    """the alignment matrices are the overlap lost at the last target when the beam is tilted or shifted at the steering points"""
    lay, pick, red = case
    tr = alm.Trace(lay)
    k = mats(tr)
    if k > 1e3:
        return False
    T = targets(tr)
    b = alm.build(lay)
    m = b.sys.measurements
    tg = list(m.beam_targets.tname)
    pe, qe = [t for t in T if name(t[0]) == tg[-1]][0]
    steer = sorted(set(j % len(tr.idx) for j in pick[:3]))
    paths = [sorted(tr.idx)[j] for j in steer]
    objs = [b.objs[p] for p in paths]
    kw = 2 * math.pi / (lay['nm'] * 1e-9)
    Ms = [tr.before(pe) @ alm.symp_inv(tr.before(p)) for p in paths]
    # a beam shifted by x and tilted by s keeps exp(-k|x + ...|^2 / 4 Im q) of its amplitude
    loss = lambda r: kw / (4 * qe.imag) * ((r[0] - qe.real * r[1]) ** 2 + (qe.imag * r[1]) ** 2)
    for f, col in ((m.target_excursions_angle, 1), (m.target_excursions_displacement, 0)):
        S = -np.asarray(f(objs, matrix_output=True))
        require(S.shape == (len(objs),) * 2, 'shape of the alignment matrix', S.shape)
        close(S, S.T, 'symmetry of the alignment matrix', rtol=1e-6, scale=maxabs(S))
        for a, (ia, ib) in ((1.0, (0, 0)), (1.0, (0, len(objs) - 1)), (-0.7, (0, len(objs) - 1)), (0.4, (len(objs) - 1, len(objs) // 2))):
            v = np.zeros(len(objs))
            v[ia] += 1
            v[ib] += a
            r = sum(x * M[:, col] for x, M in zip(v, Ms))
            close(v @ S @ v, loss(r), 'overlap lost to the excursions', rtol=1e-6, scale=maxabs(S) * len(objs))
        if len(objs) == 1 and S[0, 0] > 1e-9:
            close(float(np.ravel(f(objs, overlap_reduction=red, excursions_output=True))[0]), (red / S[0, 0]) ** 0.5, 'excursion allowed', rtol=1e-6)
    return dict(n=len(objs)) if len(objs) > 1 else False
