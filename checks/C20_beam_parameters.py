import math
from vlib.core import *

R = Registry('C20', 'Gaussian beam parameters')
LAM = st.sampled_from([1.064e-6, 0.532e-6, 1.55e-6, 10.6e-6])


@st.composite
def q_(draw):
    zr = draw(logf(-3, 2))
    return [draw(st.sampled_from([0, 0.1, -0.1, 1, -1, 3, -7])) * draw(st.sampled_from([1, zr])), zr]


@st.composite
def abcd(draw, n=5):
    """a train of gaps and thin lenses, as matrices with unit determinant"""
    out = []
    for _ in range(draw(st.integers(1, n))):
        if draw(st.booleans()):
            out.append(['gap', draw(logf(-2, 1)) * draw(st.sampled_from([1, 1, 1, -1]))])
        else:
            out.append(['lens', draw(logf(-1, 1, signed=True))])
    return out


def mat(t):
    return np.array([[1, t[1]], [0, 1.0]]) if t[0] == 'gap' else np.array([[1, 0], [-1 / t[1], 1.0]])


def product(ts):
    M = np.eye(2)
    for t in ts:
        M = mat(t) @ M
    return M


def make(q, lam):
    from phasor import alm
    return alm.ComplexBeamParam.from_Z_ZR(q[0], q[1], wavelen=lam)


def cval(z):
    return complex(float(z.real), float(z.imag))


def eta(w1, c1, w2, c2, lam):
    """power overlap of two round Gaussian beams of radii w and curvatures c at one plane"""
    return 4 / ((w1 / w2 + w2 / w1) ** 2 + (math.pi * w1 * w2 / lam) ** 2 * (c1 - c2) ** 2)


def shape(q, lam):
    z, zr = q
    w = math.sqrt(lam * zr / math.pi * (1 + (z / zr) ** 2))
    return w, z / (z * z + zr * zr)


@R.law(st.tuples(q_(), LAM), n=600, thorough=10000, rule='any beam')
def widths_and_curvatures(case):
    from phasor import alm
    (z, zr), lam = case
    w0 = math.sqrt(lam * zr / math.pi)
    w, c = shape((z, zr), lam)
    P = alm.ComplexBeamParam
    ways = dict(Z_ZR=P.from_Z_ZR(z, zr, wavelen=lam), Z_W0=P.from_Z_W0(z, w0, wavelen=lam),
                dRad_Z=P.from_dRad_Z(2 * lam / (math.pi * w0), z, wavelen=lam), value=P(z + 1j * zr, wavelen=lam),
                W_R=P.from_W_R(w, 1 / c if c else 0, wavelen=lam))
    for k, p in ways.items():
        what = 'beam made from ' + k
        close(cval(p.value), complex(z, zr), what, rtol=1e-9)
        close(float(p.Z), z, what + ' Z', rtol=1e-9, scale=abs(z) + zr)
        close(float(p.ZR), zr, what + ' ZR', rtol=1e-9)
        close(float(p.W0), w0, what + ' W0', rtol=1e-9)
        close(float(p.W), w, what + ' W', rtol=1e-9)
        close(float(p.R_inv), c, what + ' 1/R', rtol=1e-9, scale=1 / zr)
        if c:
            close(float(p.R), 1 / c, what + ' R', rtol=1e-7)
        close(float(p.divergence_rad), 2 * lam / (math.pi * w0), what + ' divergence', rtol=1e-9)
        close(float(p.k), 2 * math.pi / lam, what + ' k', rtol=1e-12)
        close(complex(p), complex(z, zr), what + ' as a complex number', rtol=1e-9)
    if c:
        close(float(P.from_W_R(w, float('inf'), wavelen=lam).W0), w, 'flat beam', rtol=1e-9)
    close(cval(ways['Z_ZR'].reversed().value), complex(-z, zr), 'reversed beam', rtol=1e-12)
    return True


@R.law(st.tuples(q_(), LAM, abcd(), abcd()), n=900, thorough=20000, shards=3, rule='at least one lens and one gap')
def propagation_follows_the_second_moments(case):
    q, lam, t1, t2 = case
    M1, M2 = product(t1), product(t2)
    M = M2 @ M1
    z, zr = q
    # what rounding can do: cancellation inside the product, in A q + B, and in the imaginary part of the quotient
    num, den = M[0, 0] * complex(z, zr) + M[0, 1], M[1, 0] * complex(z, zr) + M[1, 1]
    m = max(1, maxabs(M), maxabs(M1) * maxabs(M2))
    qq = 1 + abs(complex(z, zr))
    amp = m * qq / min(abs(num), abs(den)) * max(1, abs(num / den) / (num / den).imag) * max(1, qq / zr) * m
    if amp > 1e9:
        return False
    e = 1e-15 * amp
    p = make(q, lam)
    S = lam / (4 * math.pi * zr) * np.array([[z * z + zr * zr, z], [z, 1.0]])
    out = p.propagate_matrix(np.matrix(M))
    T = M @ S @ M.T
    close(float(out.W) ** 2, 4 * T[0, 0], 'squared width', rtol=1e-8 + e)
    close(float(out.R_inv), T[0, 1] / T[0, 0], 'curvature', rtol=1e-7 + e, scale=max(abs(T[0, 1]), math.sqrt(T[0, 0] * T[1, 1])) / T[0, 0])
    close(float(out.ZR), lam / (4 * math.pi * T[1, 1]), 'Rayleigh range', rtol=1e-6 + e)
    close(float(out.wavelen), lam, 'wavelength', rtol=1e-9 + e)
    two = p.propagate_matrix(np.matrix(M1)).propagate_matrix(np.matrix(M2))
    close(cval(two.value), cval(out.value), 'one step against two', rtol=1e-7 + e, scale=abs(cval(out.value)))
    # the other way round the same optics brings the reversed beam back
    back = out.reversed().propagate_matrix(np.matrix([[M[1, 1], M[0, 1]], [M[1, 0], M[0, 0]]])).reversed()
    close(cval(back.value), complex(z, zr), 'there and back', rtol=1e-5 + 100 * e, scale=abs(complex(z, zr)))
    kinds = set(t[0] for t in t1 + t2)
    return dict(lenses=sum(t[0] == 'lens' for t in t1 + t2)) if len(kinds) == 2 else False


@R.law(st.tuples(q_(), LAM, abcd(6)), n=700, thorough=12000, shards=2, rule='at least one gap')
def gouy_phase_accumulates(case):
    q, lam, ts = case
    p, tot = make(q, lam), 0.0
    whole = p
    cur = complex(*q)
    for t in ts:
        M = mat(t)
        nxt = (M[0, 0] * cur + M[0, 1]) / (M[1, 0] * cur + M[1, 1])
        if t[0] == 'gap':
            tot += math.atan2(nxt.real, nxt.imag) - math.atan2(cur.real, cur.imag)
            via = whole.propagate_distance(t[1])
            whole = whole.propagate_matrix(np.matrix(M))
            close(cval(via.value), cval(whole.value), 'distance against matrix', rtol=1e-9)
            close(cval(via.gouy_phasor), cval(whole.gouy_phasor), 'phasor of distance against matrix', rtol=1e-9)
        else:
            whole = whole.propagate_matrix(np.matrix(M))
        cur = nxt
        g = cval(whole.gouy_phasor)
        close(g / abs(g), np.exp(1j * tot), 'Gouy phase', rtol=1e-6)
        # keep the magnitude of the phasor from running away
        whole.gouy_phasor = g / abs(g)
    M = product(ts)
    if maxabs(M) < 1e4:
        g = cval(p.propagate_matrix(np.matrix(M)).gouy_phasor)
        close(g / abs(g), np.exp(1j * tot), 'Gouy phase of the whole train', rtol=1e-5)
    return any(t[0] == 'gap' for t in ts)


@R.law(st.tuples(q_(), q_(), LAM, abcd()), n=900, thorough=15000, shards=3, rule='overlap neither 0 nor 1')
def overlaps(case):
    q1, q2, lam, ts = case
    a, b = make(q1, lam), make(q2, lam)
    w1, c1 = shape(q1, lam)
    w2, c2 = shape(q2, lam)
    e = eta(w1, c1, w2, c2, lam)
    o = cval(a.overlap_with(b))
    close(abs(o) ** 2, e, 'power overlap', rtol=1e-7)
    close(abs(cval(a.overlap_with(a))), 1, 'overlap with itself', rtol=1e-9)
    close(abs(cval(b.overlap_with(a))), abs(o), 'overlap is symmetric', rtol=1e-8)
    require(abs(o) <= 1 + 1e-9, 'overlap above one', o)
    M = product(ts)
    if maxabs(M) < 300:
        x, y = a.propagate_matrix(np.matrix(M)), b.propagate_matrix(np.matrix(M))
        close(abs(cval(x.overlap_with(y))), abs(o), 'overlap is unchanged by common optics', rtol=1e-5)
    return dict(e=round(e, 1)) if 1e-6 < e < 0.9999 else False


@R.law(st.tuples(q_(), q_(), LAM, linf(-1, 1, 50), linf(-1, 1, 50)), n=400, thorough=6000, shards=2, rule='profiles resolved on the grid')
def profiles(case):
    from phasor.alm import beam_param as bp
    q1, q2, lam, sh, ti = case
    a, b = make(q1, lam), make(q2, lam)
    w1, c1 = shape(q1, lam)
    w2, c2 = shape(q2, lam)
    if max(w1, w2) > 12 * min(w1, w2):
        return False
    X = 4 * max(w1, w2)
    if max(abs(c1), abs(c2)) * X * X * math.pi / lam > 900:
        return False
    x = np.linspace(-X * 1.5, X * 1.5, 8001)
    dx = x[1] - x[0]
    u, v = bp.beam_shape_1D(x, a, 0, 0), bp.beam_shape_1D(x, b, 0, 0)
    close(np.sum(abs(u) ** 2) * dx, 1, 'power of the profile', rtol=1e-6)
    close(abs(np.sum(u * v.conj()) * dx) ** 4, eta(w1, c1, w2, c2, lam), 'overlap of the profiles', rtol=1e-4, scale=1e-2)
    close(np.sqrt(np.sum(x * x * abs(u) ** 2) * dx) * 2, w1, 'width of the profile', rtol=1e-4)
    # log of the overlap with a displaced and tilted copy is the sensitivity form: ray (shift, angle) traced to the waist
    z, zr = q1
    k = 2 * math.pi / lam
    s, t = sh * w1 * 0.3, ti * lam / (math.pi * math.sqrt(lam * zr / math.pi)) * 0.3
    want = -k / (4 * zr) * ((s - z * t) ** 2 + (zr * t) ** 2)
    S = np.asarray(a.sensitivity_matrix)
    r = np.array([s, t])
    close(r @ S @ r, want, 'sensitivity to shift and tilt', rtol=1e-6)
    if want < -15:
        return False        # lost in the rounding of the sum below
    disp = bp.beam_shape_1D(x - s, a, 0, 0) * np.exp(-1j * k * t * (x - s))
    close(np.log(abs(np.sum(disp * u.conj()) * dx)), want, 'overlap with the displaced profile', rtol=1e-3, scale=max(abs(want), 1e-2))
    H = np.asarray(a.sensitivity_matrix_sqrt)
    close(H @ H, -S, 'square root of the sensitivity', rtol=1e-6, scale=maxabs(S))
    return True
