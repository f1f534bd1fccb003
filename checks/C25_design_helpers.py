"""C25: controllers, filter prototypes, resonator geometry and data helpers compute what they name."""
import math, cmath
from vlib.core import *

R = Registry('C25', 'design helpers')


def tf(zpk, f):
    """k prod(i f - z)/prod(i f - p)"""
    z, p, k = zpk
    v = complex(k)
    z, p = list(z), list(p)
    # interleaved to stay in range
    for i in range(max(len(z), len(p))):
        if i < len(z):
            v *= 1j * f - z[i]
        if i < len(p):
            v /= 1j * f - p[i]
    return v


def relclose(got, want, what, tol):
    require(abs(got - want) <= tol * abs(want), what, got, want)


root = st.one_of(st.tuples(logf(-3, 3, signed=True), st.just(0.0)), st.tuples(logf(-3, 3, signed=True), logf(-3, 3, signed=True)),
                 st.tuples(st.just(0.0), logf(-3, 3, signed=True)), st.just((0.0, 0.0)))
zpk = st.tuples(st.lists(root, max_size=4), st.lists(root, max_size=4), logf(-2, 2, signed=True))


def mk(d):
    return (np.array([complex(*x) for x in d[0]], dtype=complex), np.array([complex(*x) for x in d[1]], dtype=complex), d[2])


@R.law(st.tuples(st.lists(zpk, min_size=1, max_size=4), zpk, logf(-3, 3, signed=True)), n=400, thorough=8000, rule='roots in several factors')
def products_and_quotients(case):
    ds, den, f = case
    from phasor.signals.power_loops import zpk_mult, zpk_div
    f = f * 1.0137
    try:
        hs = [tf(mk(d), f) for d in ds]
        hd = tf(mk(den), f)
    except ZeroDivisionError:
        return False
    w = 1
    for h in hs:
        w *= h
    relclose(tf(zpk_mult(*[mk(d) for d in ds]), f), w, 'product', 1e-9)
    if hd != 0 and not any(abs(1j * f - complex(*x)) == 0 for x in den[0]):
        relclose(tf(zpk_div(mk(ds[0]), mk(den)), f), hs[0] / hd, 'quotient', 1e-9)
    return dict(n=len(ds)) if sum(bool(d[0] or d[1]) for d in ds) > 1 or (den[0] or den[1]) else False


@R.law(st.tuples(st.lists(root, max_size=5), st.lists(root, max_size=5), logf(-2, 2, signed=True), logf(-3, 3)), n=400, thorough=8000,
       rule='real and complex roots')
def real_and_complex_roots(case):
    """the real-coefficient form holds each real root and one of each conjugate pair"""
    zs, ps, k, f = case
    from phasor.signals.power_loops import zpk2rcpz_dict
    full = lambda rs: [x for r in rs for x in ([complex(*r)] if r[1] == 0 else [complex(*r), complex(r[0], -r[1])])]
    z, p = full(zs), full(ps)
    if any(r[1] and abs(r[1]) < 1e-7 * abs(r[0]) for r in zs + ps):
        return False
    d = zpk2rcpz_dict((np.array(z, dtype=complex), np.array(p, dtype=complex), k))
    require(d['gain'] == k, 'gain', d['gain'], k)
    for key, rs in (('zeros', zs), ('poles', ps)):
        got = sorted(float(np.real(x)) for x in d[key + '_r'])
        require(all(np.imag(x) == 0 for x in d[key + '_r']), 'real %s' % key, d[key + '_r'])
        require(got == sorted(r[0] for r in rs if r[1] == 0), 'real %s' % key, got, rs)
        got = sorted((complex(x) for x in d[key + '_c']), key=lambda x: (x.real, x.imag))
        want = sorted((complex(r[0], abs(r[1])) for r in rs if r[1] != 0), key=lambda x: (x.real, x.imag))
        require(got == want, 'complex %s' % key, got, want)
    return any(r[1] for r in zs + ps) and any(not r[1] for r in zs + ps)


SHAPES = ['cheby_boost', 'cheby_boost_7', 'ledge_boost', 'ledge_controller']


def in_pairs(rs):
    rs = sorted((complex(r) for r in rs), key=lambda x: (x.real, abs(x.imag), x.imag))
    cs = sorted((r.conjugate() for r in rs), key=lambda x: (x.real, abs(x.imag), x.imag))
    return all(abs(a - b) <= 1e-6 * abs(a) for a, b in zip(rs, cs))


@R.law(st.tuples(st.sampled_from(SHAPES), logf(-2, 5), logf(-0.5, 1.6), st.sampled_from([None, 2, 3, 4, 5]), logf(-2, 2)), n=300, thorough=6000,
       rule='a frequency and shift other than the defaults')
def boosts_scale_and_cross_at_their_frequency(case):
    """unit magnitude at the frequency asked for, the same shape at any frequency, real, stable"""
    name, F, shift, N, x = case
    import phasor.signals.power_loops as pl
    kw = dict(N=N) if N and name.startswith('ledge') else {}
    fn = getattr(pl, name)
    h = fn(F_center=F, shift=shift, **kw)
    relclose(abs(tf(h, F)), 1.0, 'magnitude at the centre', 1e-6)
    ref = fn(F_center=1., shift=1., **kw)
    a = abs(tf(ref, shift))
    if not 1e-12 < a < 1e12:
        return False
    relclose(abs(tf(h, x * F)), abs(tf(ref, x * shift)) / a, 'magnitude of the shape scaled in frequency', 1e-5)
    u, v = tf(h, x * F) / tf(h, F), tf(ref, x * shift) / tf(ref, shift)
    require(abs(u - v) < 1e-5 * abs(v), 'phase of the shape scaled in frequency', u, v)
    require(all(complex(r).real < 0 for r in h[1]), 'unstable poles', h[1])
    require(all(complex(r).real < 0 for r in h[0]), 'zeros of a minimum-phase shape', h[0])
    require(len(h[0]) <= len(h[1]), 'more zeros than poles', h)
    require(in_pairs(h[0]) and in_pairs(h[1]), 'roots not in conjugate pairs', h)
    relclose(tf(h, -x * F), tf(h, x * F).conjugate(), 'response at the negative frequency', 1e-5)
    return dict(shape=name, N=N or 0)


CTRL = ['controller_10x1e3_20x1e8', 'controller_20x1e9', 'controller_fast_2p5x1e1']


@R.law(st.tuples(st.sampled_from(CTRL), logf(-1, 3), st.lists(logf(-2, 2), min_size=1, max_size=4), st.booleans()), n=120, thorough=2500, shards=2,
       rule='a controller inside a system, at two frequencies or more')
def controllers_as_filters(case):
    """a controller built as a filter has the response of its roots, magnitude one where asked, and a negative sign"""
    name, F, xs, loop = case
    import phasor.signals.power_loops as pl
    from phasor import signals, readouts, system
    fn = getattr(pl, name)
    z = fn(F, out='zpk')
    kw = fn(F, out='SRationalFilter')
    fs = np.array([F] + [x * F for x in xs])
    db = system.BGSystem(F_AC=fs)
    db.own.X = signals.SRationalFilter(**kw)
    db.own.G = signals.Gain(gain=0.5)
    db.X.ps_Out.bond(db.G.ps_In)
    if loop:
        db.G.ps_Out.bond(db.X.ps_In)
    db.own.R = readouts.ACReadout(portD=db.X.ps_In.i, portN=db.X.ps_Out.o)
    got = np.asarray(db.R.AC_sensitivity) * np.ones(len(fs))
    ref = [tf(z, f) for f in fs]
    want = np.array([h / abs(ref[0]) for h in ref])
    dc = tf(z, 0).real
    want = -want * np.sign(dc)
    cl = want / (1 - 0.5 * want) if loop else want
    if loop and min(abs(1 - 0.5 * want)) < 1e-3:
        return False
    for g, w, f in zip(got, cl, fs):
        relclose(g, w, 'response at %r Hz of a controller for %r Hz' % (f, F), 1e-4)
    if not loop:
        relclose(abs(got[0]), 1.0, 'magnitude at the unity-gain frequency', 1e-9)
    return dict(c=name, loop=loop) if len(fs) > 1 else False


@R.law(st.tuples(st.integers(1, 14), st.lists(logf(-2, 1.5), min_size=2, max_size=6)), n=120, thorough=1500, rule='order above two')
def optimum_filters(case):
    """monotonic, half power at one, all poles stable and in pairs, steeper at cut-off than any Butterworth of the order"""
    N, ws = case
    from phasor.signals.filters.legendre_filters import legendreap, optimum_poly
    z, p, k = legendreap(N)
    require(len(z) == 0 and len(p) == N, 'numbers of roots', len(z), len(p))
    require(all(x.real < 0 for x in p) and in_pairs(p), 'poles', list(p))
    h2 = lambda w: abs(tf((z, p, k), w)) ** 2
    relclose(h2(0.0), 1.0, 'power at zero frequency', 1e-9)
    relclose(h2(1.0), 0.5, 'power at the cut-off', 1e-6)
    a = optimum_poly(N)
    require(len(a) == 2 * N + 1 and sum(a) == 1 and a[-1] == 0, 'coefficients of the polynomial', a)
    for w in ws:
        # exact arithmetic, as the integers are large
        from fractions import Fraction as Fr
        W, L = Fr(w), Fr(0)
        for c in a:
            L = L * W + int(c)
        relclose(h2(w), 1 / (1 + float(L)), 'power against the polynomial at %r' % w, 1e-5)
    s = sorted(ws)
    for u, v in zip(s, s[1:]):
        require(h2(u) >= h2(v) * (1 - 1e-7), 'power rises from %r to %r' % (u, v), h2(u), h2(v))
    slope = sum(c * (2 * N - i) for i, c in enumerate(a))
    if N > 2:
        require(slope > 2 * N, 'slope at the cut-off', slope, N)
    return dict(N=N) if N > 2 else False


# ---------------------------------------------------------------- geometry of ring resonators

def rot(ax, an):
    ax = np.array(ax) / np.linalg.norm(ax)
    K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    return np.eye(3) + math.sin(an) * K + (1 - math.cos(an)) * K.dot(K)


@R.law(st.tuples(st.integers(3, 7), st.lists(st.lists(st.floats(-1, 1), min_size=3, max_size=3), min_size=7, max_size=7), st.booleans(),
                 st.tuples(st.lists(st.floats(-1, 1), min_size=3, max_size=3), st.floats(-3, 3)), logf(-2, 2)), n=400, thorough=8000,
       rule='a ring out of one plane')
def polarization_around_a_ring(case):
    """the round trip of a ring of mirrors: reflections followed one by one, independent of the place and size of the ring"""
    n, pts, flat, (ax, an), size = case
    from phasor.optics.tools.polizarization_circulation import polarization_circulation
    P = np.array(pts[:n], dtype=float)
    if flat:
        P[:, 2] = 0
    d = [P[(i + 1) % n] - P[i] for i in range(n)]
    if min(np.linalg.norm(x) for x in d) < 0.1 or np.linalg.norm(ax) < 0.1:
        return False
    v = [x / np.linalg.norm(x) for x in d]
    N = [v[i] - v[i - 1] for i in range(n)]
    if min(np.linalg.norm(x) for x in N) < 0.05 or abs(np.dot(v[-1], v[0])) > 0.99:
        return False
    J = np.asarray(polarization_circulation([tuple(x) for x in P]))
    close(J.dot(J.T), np.eye(2), 'the round trip keeps the power', rtol=1e-9)
    close(np.linalg.det(J), (-1.0) ** n, 'handedness after %d mirrors' % n, rtol=1e-9)
    p = v[-1] - v[0] * np.dot(v[-1], v[0])
    p /= np.linalg.norm(p)
    s = np.cross(p, v[0])
    M = np.eye(3)
    for i in list(range(1, n)) + [0]:
        # the reflection turns v[i-1] into v[i]
        u = N[i] / np.linalg.norm(N[i])
        M = (np.eye(3) - 2 * np.outer(u, u)).dot(M)
    close(M.dot(v[0]), v[0], 'direction after the round trip (oracle)', rtol=1e-8)
    want = [[p.dot(M.dot(p)), s.dot(M.dot(p))], [p.dot(M.dot(s)), s.dot(M.dot(s))]]
    close(J, want, 'Jones matrix of the round trip', rtol=1e-8)
    if flat:
        close(J, [[(-1.0) ** n, 0], [0, 1.0]], 'Jones matrix of a plane ring', rtol=1e-8)
    Q = P.dot(rot(ax, an).T) * size + np.array(pts[0])
    close(np.asarray(polarization_circulation(Q)), J, 'Jones matrix of the moved ring', rtol=1e-6)
    return dict(n=n) if not flat and abs(J[0, 1]) > 1e-3 else False


# ---------------------------------------------------------------- data helpers

@R.law(st.tuples(logf(-3, 3), logf(0.1, 6), st.integers(2, 30)), n=100, thorough=1000, rule='three points or more')
def log_spacing(case):
    lo, ratio, n = case
    from phasor.utilities.np import logspaced
    x = logspaced(lo, lo * ratio, n)
    require(len(x) == n, 'number of points', len(x), n)
    for i in range(n):
        relclose(float(x[i]), lo * ratio ** (i / (n - 1.0)), 'point %d' % i, 1e-9)
    return n > 2


@R.law(st.tuples(st.lists(st.tuples(logf(-3, 3), st.floats(-3.1, 3.1)), min_size=1, max_size=12), st.booleans()), n=300, thorough=4000, rule='two values or more')
def signed_magnitude_and_phase(case):
    """a signed magnitude and a phase within a half turn that multiply back to the value"""
    ps, deg = case
    from phasor.utilities.np import mag_phase_signed
    v = np.array([a * cmath.exp(1j * b) for a, b in ps])
    mag, ph = mag_phase_signed(v, deg=deg)
    rad = ph * math.pi / 180 if deg else ph
    close(mag * np.exp(1j * rad), v, 'magnitude and phase', rtol=1e-9)
    require(np.all(rad >= -math.pi / 4 - 1e-9) and np.all(rad <= 3 * math.pi / 4 + 1e-9), 'range of the phase', ph)
    return len(ps) > 1


@R.law(st.tuples(st.lists(st.tuples(logf(-2, 1), st.floats(-1, 1)), min_size=3, max_size=15), logf(-2, 2), logf(-1, 8)), n=300, thorough=4000,
       rule='a delay that wraps the phase')
def delays_from_phases(case):
    """the slope of the phase, whatever multiples of a turn it has been wrapped by"""
    steps, scale, mult = case
    from phasor.utilities.np import group_delay
    F = np.cumsum([a * scale for a, b in steps])
    dphi = np.array([b * 0.97 * math.pi for a, b in steps])
    phi = np.cumsum(dphi)
    Fo, tau = group_delay(F, np.exp(1j * phi), mult=mult)
    close(Fo, F[1:], 'frequencies', rtol=1e-12)
    close(tau, mult * dphi[1:] / np.diff(F), 'delays', rtol=1e-9, scale=mult / np.diff(F).min())
    return bool(abs(phi).max() > math.pi)


@R.law(st.tuples(st.lists(st.tuples(st.floats(-10, 10), st.floats(-1, 1), st.floats(-1, 1)), min_size=2, max_size=15), st.floats(-5, 5), logf(-1, 1), st.booleans(),
                 st.booleans()),
       n=300, thorough=4000, rule='values out of order')
def sorted_and_limited_data(case):
    """columns stay together when sorted by the first or cut to an interval of it"""
    rows, lo, span, one, none = case
    from phasor.utilities.np import domain_sort, interval_limit
    X, Y, Z = [np.array(c) for c in zip(*rows)]
    args = [Y, Z] + ([None] if none else []) + ([np.array([3.0])] if one else [])
    out = domain_sort(X, *args)
    require(np.all(np.diff(out[0]) >= 0), 'not sorted', out[0])
    require(sorted(zip(*[list(map(float, o)) for o in out[:3]])) == sorted((float(a), float(b), float(c)) for a, b, c in rows), 'rows after sorting', out)
    rest = out[3:]
    require(len(rest) == none + one and (not none or rest[0] is None) and (not one or list(rest[-1]) == [3.0]), 'columns of one or no value', rest)
    cut = interval_limit(lo, lo + span, X, Y, Z)
    want = [r for r in rows if lo <= r[0] <= lo + span]
    require([tuple(map(float, r)) for r in zip(*cut)] == [tuple(map(float, r)) for r in want], 'rows within the interval', cut, want)
    return bool(np.any(np.diff(X) < 0))


@R.law(st.tuples(st.lists(st.one_of(st.booleans()), min_size=2, max_size=14), st.integers(0, 13)), n=200, thorough=3000, rule='some masked, some not')
def masked_order(case):
    mask, rot_ = case
    from phasor.utilities.np import masked_argsort
    n = len(mask)
    vals = [((i * 7 + rot_) % n) + 0.001 * i for i in range(n)]
    idx = masked_argsort(np.ma.array(vals, mask=mask))
    require([int(i) for i in idx] == sorted([i for i in range(n) if not mask[i]], key=lambda i: vals[i]), 'order of the unmasked', idx, mask)
    return any(mask) and not all(mask)


@R.law(st.tuples(st.lists(st.floats(-0.9, 0.9), min_size=2, max_size=20), st.floats(-3, 3), st.integers(0, 19), st.booleans()), n=300, thorough=5000,
       rule='a phase that leaves the range of one turn')
def phases_unwrapped(case):
    """congruent to the angle, and without jumps as long as the phase stays within a turn (further turns are folded back on purpose)"""
    steps, start, op, deg = case
    from phasor.utilities.np import continuous_phase
    phi = start + np.concatenate([[0], np.cumsum([s * math.pi for s in steps])])
    if phi.max() - phi.min() > 1.95 * math.pi:
        return False
    got = np.asarray(continuous_phase(np.exp(1j * phi), op_idx=op % len(phi), deg=deg))
    rad = got * math.pi / 180 if deg else got
    close(np.exp(1j * rad), np.exp(1j * phi), 'angle', rtol=1e-9)
    close(np.diff(rad), np.diff(phi), 'steps of the phase', rtol=1e-7, scale=1)
    return bool(phi.max() > math.pi or phi.min() < -math.pi)


@R.law(st.lists(st.integers(0, 150), max_size=12, unique=True), n=200, thorough=3000, rule='more than one bit')
def bits_of_integers(case):
    from phasor.math.numerics import yield_bits_on
    require(list(yield_bits_on(sum(1 << b for b in case))) == sorted(case), 'bits', case)
    return len(case) > 1


@R.law(st.tuples(st.integers(1, 3), st.lists(st.integers(1, 3), max_size=2), st.lists(st.booleans(), min_size=2, max_size=2), st.lists(st.booleans(), min_size=2, max_size=2),
                 st.integers(0, 2), st.integers(0, 10 ** 6), st.booleans()), n=200, thorough=3000, rule='a stack of systems')
def stacked_linear_systems(case):
    """solving a stack of matrices for a stack of vectors solves each"""
    n, lead, oneM, oneV, drop, seed, cplx = case
    from phasor.matrix.linalg import linalg_solve_bcast
    rng = np.random.RandomState(seed)
    lM = [1 if o else l for o, l in zip(oneM, lead)]
    lV = [1 if o else l for o, l in zip(oneV, lead)]
    if drop == 1:
        lV = lV[1:]
    elif drop == 2:
        lM = lM[1:]
    M = rng.uniform(-1, 1, lM + [n, n]) + 3 * np.eye(n)
    V = rng.uniform(-1, 1, lV + [n])
    if cplx:
        M = M + 1j * rng.uniform(-1, 1, M.shape)
    x = linalg_solve_bcast(M, V)
    b = np.broadcast(M[..., 0, 0], V[..., 0]).shape
    require(x.shape == b + (n,), 'shape', x.shape, b, n)
    close(np.einsum('...ij,...j->...i', M, x), np.broadcast_to(V, b + (n,)), 'M x', rtol=1e-9)
    return int(np.prod(b)) > 1
