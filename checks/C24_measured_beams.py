"""C24: beams fitted to width data, and beams projected through a layout, are the beams that were measured or projected.

Oracle: widths W(z) = W0 sqrt(1 + ((z - zw)/zR)^2) written down directly, the ray tracer of vlib.alm for layouts,
and for noisy data the optimality of least squares.
"""
import math
from vlib.core import *
from vlib import alm

R = Registry('C24', 'measured and projected beams')


def cv(z):
    return complex(float(z.real), float(z.imag))


def prop(q, M):
    return (M[0, 0] * q + M[0, 1]) / (M[1, 0] * q + M[1, 1])


def width(nm, zr, z):
    """1/e^2 radius at distance z from the waist"""
    return np.sqrt(nm * 1e-9 / (math.pi * zr) * (np.asarray(z) ** 2 + zr ** 2))


@st.composite
def profile(draw):
    """samples on both sides of the waist, in units of the Rayleigh range from the waist"""
    n = draw(st.integers(6, 10))
    lo, hi = -draw(st.floats(0.7, 2.5)), draw(st.floats(0.7, 2.5))
    fr = [(i + (draw(st.floats(-0.3, 0.3)) if 0 < i < n - 1 else 0)) / (n - 1.0) for i in range(n)]
    return dict(x=[lo + f * (hi - lo) for f in fr], zr=draw(logf(-2, 0.5)), perm=draw(st.permutations(range(n))),
                nm=draw(st.sampled_from([1064, 1064, 532])), given=[draw(st.sampled_from(['D_um', 'R_m', 'both'])), draw(st.sampled_from(['Z_in', 'Z_m', 'both']))])


def fit(p, zw, noise=None, **kw):
    """the fit of the profile of a beam with its waist at zw"""
    from phasor import alm as A
    z = zw + p['zr'] * np.array([p['x'][i] for i in p['perm']])
    w = width(p['nm'], p['zr'], z - zw)
    if noise:
        w = w * (1 + np.array([noise[i % len(noise)] for i in range(len(w))]))
    if p['given'][0] != 'R_m':
        kw['D_um'] = 2e6 * w
    if p['given'][0] != 'D_um':
        kw['R_m'] = w
    if p['given'][1] != 'Z_m':
        kw['Z_in'] = z / 0.0254
    if p['given'][1] != 'Z_in':
        kw['Z_m'] = z
    return A.QFit(wavelen_nm=float(p['nm']), **kw), z, w


def spread(p):
    x = sorted(p['x'])
    return min(b - a for a, b in zip(x, x[1:]))


@R.law(st.tuples(profile(), st.one_of(st.just(0.0), logf(-2, 0.7, signed=True)), st.lists(st.floats(-3, 3), min_size=1, max_size=3)), n=400, thorough=8000,
       shards=2, rule='the waist is away from the origin')
def fitted_beam_is_the_measured_one(case):
    p, zw, at = case
    if spread(p) < 0.02:
        return False
    f, z, w = fit(p, zw)
    q, want = f.q_fit, complex(-zw, p['zr'])
    require(abs(cv(q.value) - want) < 1e-4 * p['zr'] + 1e-9, 'fitted beam parameter at the origin', cv(q.value), want, p, zw)
    close(float(q.wavelen), p['nm'] * 1e-9, 'wavelength of the fitted beam', rtol=1e-12)
    close(float(q.W0), width(p['nm'], p['zr'], 0), 'waist', rtol=1e-4)
    for x in at:
        zz = zw + x * p['zr']
        ww = width(p['nm'], p['zr'], x * p['zr'])
        close(f.waist_func_fit(zz), ww, 'width of the fitted profile', rtol=1e-3)
        close(float(q.propagate_distance(zz).W), ww, 'width of the fitted beam', rtol=1e-3)
        close(f.waist_func(zz, -zw, p['zr']), ww, 'width function', rtol=1e-9)
    return dict(given='-'.join(p['given'])) if zw else False


@R.law(st.tuples(profile(), logf(-2, 0.7, signed=True), st.lists(st.floats(-0.05, 0.05), min_size=5, max_size=9)), n=250, thorough=6000,
       rule='noise above one percent on five points or more')
def fits_are_least_squares(case):
    """no nearby beam is closer to noisy data than the fitted one"""
    p, zw, noise = case
    if spread(p) < 0.02 or len(p['x']) < 5:
        return False
    f, z, w = fit(p, zw, noise)
    q = cv(f.q_fit.value)
    ssr = lambda zw_, zr_: float(np.sum((width(p['nm'], zr_, z - zw_) - w) ** 2))
    got, true = ssr(-q.real, abs(q.imag)), ssr(zw, p['zr'])
    require(got <= true * (1 + 1e-6) + 1e-20, 'the fit is worse than the beam that was measured', got, true, q, (zw, p))
    for dz, dr in ((1e-2, 0), (-1e-2, 0), (0, 1e-2), (0, -1e-2)):
        near = ssr(-q.real + dz * abs(q.imag), abs(q.imag) * (1 + dr))
        require(got <= near * (1 + 1e-6), 'a nearby beam fits better', got, near, q)
    return dict(n=len(p['x'])) if max(map(abs, noise[:len(p['x'])])) > 0.01 else False


# ---------------------------------------------------------------- in layouts

def places(tr):
    """gaps a target can be put into: (path of the system, location there, room, position of that location, +-1)"""
    out = []

    def go(d, path, rev):
        rev = rev ^ bool(d['rev'])
        loc = d['gaps'][0][0]
        for i, c in enumerate(d['ch']):
            w = tr.span(path + (i,))[3]
            if i:
                g = d['gaps'][i][0]
                if g > 0:
                    prev = path + (i - 1,)
                    out.append((path, loc, g, tr.z_of(prev, 'left' if rev else 'right'), -1 if rev else 1))
                    loc += g
            loc += w
            if c['k'] == 'sys':
                go(c, path + (i,), rev)
    go(tr.lay['root'], (), False)
    return out


def targets(tr):
    out = []
    for it in tr.items:
        if it.d and it.d['k'] == 'tgt':
            q = complex(*it.d['q'])
            out.append((it.path, -q.conjugate() if it.rev else q))
    return out


def qclose(got, want, what, tol):
    d = abs(cv(got) - want) / want.imag
    require(d < tol * (1 + abs(want) / want.imag) ** 2, what, cv(got), want)


def cond(tr):
    return max([maxabs(m) for m in tr.cum] + [maxabs(alm.symp_inv(m)) for m in tr.cum])


FR = st.lists(st.floats(0.05, 0.95), min_size=3, max_size=5)
PICK = st.lists(st.integers(0, 99), min_size=4, max_size=4)


@R.law(st.tuples(alm.layout(min_targets=1), profile(), FR, PICK, st.booleans(), st.sampled_from(['', 'm', 'in', 'mm', 'ft']), logf(-2, 0.3, signed=True),
                 logf(-1, 0.3, signed=True)),
       n=500, thorough=10000, shards=4, rule='the beam is followed to another place through a matrix that is not the identity')
def measured_targets_in_layouts(case):
    """a target made of a fit starts the fitted beam where it stands, or with a reference, where the data were referred to"""
    lay, p, fr, pick, rev, unit, off, zw = case
    tr = alm.Trace(lay)
    k = cond(tr)
    pl = places(tr)
    if k > 1e3 or not pl or spread(p) < 0.02:
        return False
    if unit and lay['env'] != 'vacuum':
        unit = ''
    p = dict(p, nm=lay['nm'])
    f, z, w = fit(p, zw)
    path, loc, g, z0, sgn = pl[pick[0] % len(pl)]
    b = alm.build(lay)
    node = b.objs[path] or b.sys
    x = fr[0] * g
    kw = dict(loc_m=loc + x)
    if rev:
        kw['reversed'] = True
    q = complex(-zw, p['zr'])
    if unit:
        ref = loc + x - off
        kw['ref_' + unit] = ref / alm.UNITS[unit]
        q += -off if rev else off
    if rev ^ (sgn < 0):
        q = -q.conjugate()
    setattr(node.own, 'meas', f.as_target(**kw))
    zt = z0 + sgn * x
    m = b.sys.measurements
    close(b.sys.matrix, tr.M, 'matrix of the layout with the target', rtol=1e-8, scale=k)
    close(m.object_z(node.meas), zt, 'position of the target', rtol=1e-9, scale=max(tr.width, 1))
    tol = 1e-8 * k * k + 1e-4
    qclose(node.meas.beam_q.value, q, 'beam at the target', tol)
    wide = [it for it in tr.items if it.w > 1e-6]
    M0 = tr.at(zt)
    n = 0
    for j, f_ in enumerate(fr[1:]):
        it = wide[(pick[1] + j) % len(wide)]
        if it.d and it.d['k'] == 'plcxm':
            f_ = 0.4 * f_
        zz = it.z + f_ * it.w
        M = tr.at(zz) @ alm.symp_inv(M0)
        qclose(m.q_target_z(zz, beam_source=node.meas.name_system).value, prop(q, M), 'beam at z=%r' % zz, tol * 3)
        n += maxabs(M - np.eye(2)) > 1e-3
    T = targets(tr)
    tp, qt = T[pick[2] % len(T)]
    M = tr.before(tp) @ alm.symp_inv(M0)
    got = m.target_q('.'.join('c%d' % i for i in tp), beam_source=node.meas.name_system)
    qclose(got.value, prop(q, M), 'beam at the other target', tol * 3)
    a, c = prop(q, M), qt
    eta = 4 * a.imag * c.imag / abs(a - c.conjugate()) ** 2
    ov = m.overlap(node.meas.name_system, '.'.join('c%d' % i for i in tp))
    close(abs(complex(ov)) ** 2, eta, 'overlap with the other target', rtol=0.02, scale=1)
    #incarnations
    s2 = b.sys.regenerate()
    t2 = s2
    for y in node.meas.name_system.split('.'):
        t2 = getattr(t2, y)
    qclose(t2.beam_q.value, q, 'beam at the target of the next incarnation', tol)
    return dict(ref=unit or 'none', rev=rev, depth=len(path), frame=sgn) if n else False


@R.law(st.tuples(alm.layout(min_targets=1), FR, PICK, st.lists(st.tuples(st.integers(0, 99), logf(-0.3, 1)), max_size=2), st.booleans()),
       n=500, thorough=10000, shards=4, rule='the beam is projected through a matrix that is not the identity')
def projected_targets(case):
    """a projected target has the beam its original sends there, overlaps it fully, and keeps that beam when the layout is regenerated with edits"""
    lay, fr, pick, edits, first = case
    tr = alm.Trace(lay)
    k = cond(tr)
    pl = places(tr)
    if k > 1e3 or not pl:
        return False
    from phasor import alm as A
    b = alm.build(lay)
    T = targets(tr)
    tp, qt = T[pick[1] % len(T)]
    path, loc, g, z0, sgn = pl[pick[0] % len(pl)]
    node = b.objs[path] or b.sys
    x = fr[0] * g
    setattr(node.own, 'proj', A.BeamTargetProjected(loc_m=loc + x, target_original=b.objs[tp]))
    zt = z0 + sgn * x
    M = tr.at(zt) @ alm.symp_inv(tr.before(tp))
    q = prop(qt, M)
    tol = 1e-9 * k * k + 1e-8
    tn = '.'.join('c%d' % i for i in tp)
    m = b.sys.measurements
    if first:
        qclose(node.proj.beam_q.value, q, 'projected beam', tol)
        close(m.object_z(node.proj), zt, 'position of the target', rtol=1e-9, scale=max(tr.width, 1))
    ov = m.overlap(tn, node.proj.name_system)
    close(abs(complex(ov)) ** 2, 1, 'overlap of the original with its projection', rtol=1e-5)
    qclose(m.target_q(tn, beam_source=node.proj.name_system).value, qt, 'projected beam sent back', tol * k)
    s = b.sys
    cand = [pth for pth, i in sorted(tr.idx.items()) if tr.items[i].d['k'] == 'lens']
    for e in [None] + edits:
        if e is None or not cand:
            s = s.regenerate()
        else:
            t = s.ctree_shadow()
            o = t
            for y in b.objs[cand[e[0] % len(cand)]].name_system.split('.'):
                o = o[y]
            o['focal_length'].val, o['focal_length'].units = e[1], 'meter'
            s = s.regenerate(t)
        o = s
        for y in node.proj.name_system.split('.'):
            o = getattr(o, y)
        qclose(o.beam_q.value, q, 'projected beam of a later incarnation', tol)
        if edits and e is not None:
            break
    return dict(depth=len(path), frame=sgn, edited=bool(edits and cand), back=zt < tr.z_of(tp)) if maxabs(M - np.eye(2)) > 1e-3 else False
