"""The homodyne detector reports I + Q quadratures  Re(exp(i th) E conj(L)) / |L|  and the same with th + 90 deg,
E the field on it and L the local oscillator, |L| held at its mean."""
from vlib.core import *
from vlib import opt
import math
from checks.C13_optical_response import ac_case, oracle_run

R = Registry('C06', 'homodyne detection')


@st.composite
def case_(draw, mods):
    c = draw(ac_case(mods=mods, max_mirrors=3, bs=False, pds=2))
    if isinstance(c['F'], list):
        c['F'] = c['F'][:2]
    c['lo'] = draw(st.sampled_from(['ext', 'ext', 'self', 'tap']))
    c['P'] = draw(st.sampled_from([1.0, 4.0, 0.3, 1e6]))
    c['ph'] = draw(linf(-3, 3, 60))
    c['deg'] = draw(st.one_of(st.sampled_from([0, 90, -90, 180, 270, -180, -270, 45]), linf(-200, 200, 80)))
    c['rot'] = draw(st.one_of(st.sampled_from([0, 90]), linf(-200, 200, 80)))
    c['c'] = draw(st.integers(0, 9)) // 8
    c['s'] = draw(st.sampled_from('SSSP'))
    c['kind'] = draw(st.sampled_from(['W', 'q', 'r']))
    return c


class Beams(object):
    """fields at a detector and at the local oscillator: per key, and their audio parts"""
    def __init__(self, case, o, tag, lo, tag2):
        self.case, self.o, self.tag, self.lo, self.tag2 = case, o, tag, lo, tag2

    def E0(self, tag):
        out = {}
        for key, x in self.o.carriers().items():
            k, g = self.o.taps(opt.WAVES[key[0]], 0)[tag]
            out[key] = self.o.S.dot(x)[k] * g
        return out

    def L0(self):
        if self.lo == 'ext':
            return {(self.case['c'], self.case['s']): math.sqrt(self.case['P']) * np.exp(1j * self.case['ph'])}
        return self.E0(self.tag if self.lo == 'self' else self.tag2)

    def quad(self, th, kind, mod=None):
        """(DC, function giving the response to audio fields {key: (aE, bE, aL, bL)})"""
        E, L = self.E0(self.tag), self.L0()
        PL = sum(abs(v) ** 2 for v in L.values())
        PE = sum(abs(v) ** 2 for v in E.values())
        e = np.exp(1j * th)
        n = dict((k, 1 / math.sqrt(PL)) for k in E)
        if kind == 'q':
            n = dict((k, v / math.sqrt(opt.H_JS * opt.C_M_S / opt.WAVES[k[0]] / 2)) for k, v in n.items())
        if kind == 'r':
            n = dict((k, v / math.sqrt(PE)) for k, v in n.items())
        dc = sum(n[k] * (e * E[k] * np.conj(L.get(k, 0))).real for k in E)

        def resp(au):
            t = 0
            for k, (aE, bE, aL, bL) in au.items():
                l = L.get(k, 0)
                t = t + n[k] / 2 * (e * (aE * np.conj(l) + E[k] * bL) + np.conj(e) * (bE * l + np.conj(E[k]) * aL))
            return t
        return dc, resp


def setup(case, tags, o):
    tag = tags[case['pick'] % len(tags)]
    tag2 = tags[(case['pick'] // 3) % len(tags)]
    lo = case['lo']
    bm = Beams(case, o, tag, lo, tag2)
    PL = sum(abs(v) ** 2 for v in bm.L0().values())
    PE = sum(abs(v) ** 2 for v in bm.E0(tag).values())
    if PL < 1e-3 or PE < 1e-3:
        return None
    return bm


def build(case, bm, **kw):
    from phasor import optics

    def make(b):
        if bm.lo == 'ext':
            b.own('lo', optics.Laser(F=b.F[case['c']], power_W=case['P'], phase_rad=case['ph'], polarization=case['s']))
            src = b.sys.lo.po_Fr.o
        elif bm.lo == 'self':
            src = None
        else:
            src = b.pds[bm.tag2].po_Fr.i
        k = {} if src is None else dict(source_port=src)
        return optics.HiddenVariableHomodynePD(phase_deg=case['deg'], include_quanta=True, include_relative=True, **dict(k, **kw))
    return opt.build(case['net'], freq=case['F'], last=(bm.tag, make))


NAMES = dict(W=('rtWpdI', 'rtWpdQ'), q=('rtQuantumI', 'rtQuantumQ'), r=('RinI', 'RadQ'))


def tags_of(o):
    P = o.powers()
    return [t for t in sorted(P) if t[0] in 'le' and P[t] > 1e-3]


@R.law(case_('all'), n=350, thorough=9000, shards=6, rule='light on the detector and in the local oscillator')
def quadratures_and_their_response(case):
    import phasor.readouts as RO
    t = oracle_run(case)
    if t is None:
        return False
    net, fs, o = t
    tags = tags_of(o)
    bm = setup(case, tags, o) if tags else None
    if bm is None:
        return False
    drives = [('mod', 'l%d' % j) for j, d in enumerate(net['links']) if d.get('mod')]
    drives += [('mod', 'e%d' % j) for j, d in enumerate(net['ends']) if d.get('mod') and d['L'] is not None]
    drives += [('Z', i) for i in range(len(net['mirrors']))]
    dr = drives[case['pick'] % len(drives)]
    th = math.radians(case['deg'])
    kind = case['kind']
    want, big = {'I': [], 'Q': []}, 0
    for f in fs:
        res = o.response(f, dr)
        if res is None or o.cond > 1e6:
            return False

        def au(tag):
            out = {}
            for key, (ai, bi, ao, bo, ta, tb) in res.items():
                lam = opt.WAVES[key[0]]
                k, gp = o.taps(lam, f)[tag]
                gm = np.conj(o.taps(lam, -f)[tag][1])
                out[key] = ((ao[k] + ta.get(tag, 0)) * gp, (bo[k] + tb.get(tag, 0)) * gm)
            return out
        e = au(bm.tag)
        l = {} if bm.lo == 'ext' else e if bm.lo == 'self' else au(bm.tag2)
        fields = dict((k, e[k] + l.get(k, (0, 0))) for k in e)
        big = max([big] + [abs(x) for v in fields.values() for x in v])
        for q, x in (('I', th), ('Q', th + math.pi / 2)):
            want[q].append(bm.quad(x, kind)[1](fields))
    b = build(case, bm)
    hd = b.hd
    port = b.mirrors[dr[1]].Z.d.o if dr[0] == 'Z' else b.drv[dr[1]].i
    I, Q = [getattr(hd, nm).o for nm in NAMES[kind]]
    b.own('r', RO.HomodyneACReadout(portNI=I, portNQ=Q, portD=port, phase_deg=case['rot']))
    b.own('ri', RO.ACReadout(portN=I, portD=port, include_noise=False))
    b.own('dI', RO.DCReadout(port=I))
    b.own('dQ', RO.DCReadout(port=Q))
    sc = bm.quad(th, kind)[0] ** 2 + bm.quad(th + math.pi / 2, kind)[0] ** 2
    unit = {'W': 1.0, 'q': 3e9, 'r': 1.0}[kind]
    for q, ro, x in (('I', b.sys.dI, th), ('Q', b.sys.dQ, th + math.pi / 2)):
        close(ro.DC_readout, bm.quad(x, kind)[0], 'mean of ' + q, rtol=1e-5 if kind == 'q' else 1e-7, scale=sc ** 0.5, atol=1e-9 * unit)
    wI, wQ = np.array(want['I']), np.array(want['Q'])
    zs = unit * (1e7 if dr[0] == 'Z' else 1)       # a metre is many wavelengths
    tol = dict(rtol=1e-5, scale=1e-2 * big * unit, atol=1e-9 * zs)
    close(np.broadcast_to(b.sys.ri.AC_sensitivity, wI.shape), wI, 'response of I to %s' % (dr,), **tol)
    live = (maxabs(wI) > 1e-6 * zs) + (maxabs(wQ) > 1e-6 * zs)
    if not live:
        return dict(lo=bm.lo, kind=kind, live=0, dr=dr[0])      # no normalisation to divide by
    g = b.sys.r.AC_sensitivity_IQ
    c, s = math.cos(math.radians(case['rot'])), math.sin(math.radians(case['rot']))
    close(np.broadcast_to(g[0], wI.shape), c * wI + s * wQ, 'rotated response', **tol)
    close(np.broadcast_to(g[1], wI.shape), c * wQ - s * wI, 'rotated response', **tol)
    close(np.broadcast_to(b.sys.r.AC_sensitivity, wI.shape), c * wI + s * wQ, 'rotated response', **tol)
    return dict(lo=bm.lo, kind=kind, live=live, dr=dr[0])


def maj(A, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return c * c * A[0, 0] + 2 * c * s * A[0, 1] + s * s * A[1, 1]


def drives(case, bm, o):
    """does moving the first mirror show up at the detector at all"""
    fs = case['F'] if isinstance(case['F'], list) else [case['F']]
    res = o.response(fs[0], ('Z', 0))
    big = 0
    for key, (ai, bi, ao, bo, ta, tb) in res.items():
        k, g = o.taps(opt.WAVES[key[0]], 0)[bm.tag]
        if bm.lo != 'ext' or key == (case['c'], case['s']):
            big = max(big, abs(ao[k]), abs(bo[k]))
    return big > 1e-2


@R.law(case_(False), n=280, thorough=7000, shards=6, rule='light on the detector and in the local oscillator')
def quadrature_noise(case):
    import phasor.readouts as RO
    t = oracle_run(case)
    if t is None:
        return False
    net, fs, o = t
    tags = tags_of(o)
    bm = setup(case, tags, o) if tags else None
    if bm is None:
        return False
    if bm.lo == 'tap':
        L, E = bm.L0(), bm.E0(bm.tag)
        if any(min(abs(L[k]), abs(E[k])) < 1e-6 for k in E):
            return False        # the vacuum of a local oscillator that is dark in this carrier is not modelled
    th = math.radians(case['deg'])
    kind = case['kind']
    I, Q = bm.quad(th, kind)[1], bm.quad(th + math.pi / 2, kind)[1]
    want = np.zeros((2, 2, len(fs)), complex)
    for n, f in enumerate(fs):
        src = o.vac_sources(f)
        if src is None or o.cond > 1e6:
            return False

        def at(tag, row):
            name, key, hv, ai, ao, bi, bo = row
            lam = opt.WAVES[key[0]]
            k, gp = o.taps(lam, f)[tag]
            return ao[k] * gp, bo[k] * np.conj(o.taps(lam, -f)[tag][1])
        ws = []
        for row in src:
            a, b_ = at(bm.tag, row)
            la, lb = (0, 0) if bm.lo == 'ext' else at(bm.tag if bm.lo == 'self' else bm.tag2, row)
            for x in ((a, 0, la, 0), (0, b_, 0, lb)):
                ws.append((row[2], I({row[1]: x}), Q({row[1]: x})))
        if bm.lo == 'ext':
            key = (case['c'], case['s'])
            hv = opt.H_JS * opt.C_M_S / opt.WAVES[key[0]]
            if key in o.carriers():
                for x in ((0, 0, 1, 0), (0, 0, 0, 1)):
                    ws.append((hv, I({key: x}), Q({key: x})))
        for hv, i, q in ws:
            v = np.array([i, q])
            want[:, :, n] += hv * np.outer(v, np.conj(v))
    b = build(case, bm)
    pI, pQ = [getattr(b.hd, nm).o for nm in NAMES[kind]]
    port = b.mirrors[0].Z.d.o
    b.own('r', RO.HomodyneACReadout(portNI=pI, portNQ=pQ, portD=port, phase_deg=case['rot']))
    r = b.sys.r
    c, s = math.cos(math.radians(case['rot'])), math.sin(math.radians(case['rot']))
    rot = np.array([[c, s], [-s, c]])
    want = np.einsum('ij,jkn,lk->iln', rot, want, rot)
    sc = maxabs(want)
    if not sc > 0:
        return False
    # a single beam against itself has no second quadrature, so matrices there are degenerate
    got = np.broadcast_to(np.asarray(r.AC_CSD_IQ).reshape(2, 2, -1), want.shape)
    close(got, want, 'covariance', rtol=2e-5, scale=sc)
    close(np.broadcast_to(r.AC_PSD, want[0, 0].shape), want[0, 0], 'PSD', rtol=2e-5, scale=sc)
    close(np.broadcast_to(r.AC_ASD, want[0, 0].shape) ** 2, want[0, 0], 'ASD', rtol=2e-5, scale=sc)
    A = np.real(want)
    ev = np.array([np.linalg.eigvalsh((A[:, :, n] + A[:, :, n].T) / 2) for n in range(len(fs))])
    by = r.AC_PSD_by_source
    close(sum(np.broadcast_to(v, want[0, 0].shape) for v in by.values()), want[0, 0], 'sum over sources', rtol=2e-5, scale=sc)
    el = r.AC_CSD_ellipse
    ar = lambda x: np.broadcast_to(np.asarray(x).ravel(), (len(fs),))
    close(ar(el.max), ev[:, 1], 'largest noise', rtol=2e-5)
    close(ar(el.min), ev[:, 0], 'smallest noise', rtol=2e-5, scale=sc)
    snr = False
    if np.min(ev[:, 0]) > 1e-2 * sc:
        close(ar(el.Imin), A[0, 0] - A[0, 1] ** 2 / A[1, 1], 'I noise given Q', rtol=1e-4)
        close(ar(el.Qmin), A[1, 1] - A[0, 1] ** 2 / A[0, 0], 'Q noise given I', rtol=1e-4)
    if np.min(ev[:, 0]) > 1e-2 * sc:
        # what the readout makes of a signal: the noise divided by the signal, for this and for the best quadrature
        sg = np.asarray(r.AC_sensitivity_IQ).reshape(2, -1) if drives(case, bm, o) else np.zeros((2, 1))
        sg = np.broadcast_to(sg, (2, len(fs)))
        if np.min(np.max(abs(sg), axis=0)) > 1e-3 * maxabs(sg) > 0:
            # (quadratures of one real signal, as both parts share their phase)
            ok = abs(sg[0]) > 1e-3 * maxabs(sg)
            if np.all(ok):
                close(ar(r.AC_noise_limited_sensitivity), np.sqrt(A[0, 0]) / abs(sg[0]), 'noise over signal', rtol=1e-4)
            best = np.array([1 / math.sqrt((sg[:, n].conj() @ np.linalg.inv(A[:, :, n]) @ sg[:, n]).real) for n in range(len(fs))])
            close(ar(r.AC_noise_limited_sensitivity_optimal), best, 'best noise over signal', rtol=1e-3)
            m = r.AC_signal_ellipse
            w = np.array([np.linalg.eigvalsh(np.real(np.outer(sg[:, n], sg[:, n].conj()))) for n in range(len(fs))])
            close(ar(m.max), w[:, 1], 'largest signal', rtol=1e-6)
            close(ar(m.min), w[:, 0], 'smallest signal', rtol=1e-6, scale=maxabs(w))
            w2 = w / np.sum(w, axis=1)[:, None]
            mn = r.AC_signal_ellipse_norm
            close(ar(mn.max), w2[:, 1], 'largest signal of unit signal', rtol=1e-6)
            close(ar(mn.min), w2[:, 0], 'smallest signal of unit signal', rtol=1e-6, scale=1)
            if np.all(w[:, 1] > 2 * w[:, 0]):
                k = np.array([maj(np.real(np.outer(sg[:, n], sg[:, n].conj())), -x) for n, x in enumerate(ar(m.deg))])
                close(k, w[:, 1], 'signal along the large axis of its ellipse', rtol=1e-6)
            op = r.optimal_readout
            if np.all(abs((sg[0] * sg[1].conj()).imag) < 1e-4 * (abs(sg) ** 2).sum(axis=0)):
                close(ar(op.AC_noise_limited_sensitivity), best, 'noise over signal of the best quadrature', rtol=1e-3)
            snr = True
    x = case['rot'] / 2 + 11.0
    r2 = r.rotate_deg(x)
    cx, sx = math.cos(math.radians(x)), math.sin(math.radians(x))
    rx = np.array([[cx, sx], [-sx, cx]])
    close(np.broadcast_to(np.asarray(r2.AC_CSD_IQ).reshape(2, 2, -1), want.shape), np.einsum('ij,jkn,lk->iln', rx, want, rx), 'covariance of the rotated readout',
          rtol=2e-5, scale=sc)
    close(np.broadcast_to(r2.AC_PSD, want[0, 0].shape), np.einsum('j,jkn,k->n', rx[0], want, rx[0]), 'PSD of the rotated readout', rtol=2e-5, scale=sc)
    nn = r.AC_CSD_ellipse_norm
    if np.min(ev[:, 0]) > 1e-6 * sc:
        close(ar(nn.min) ** 2, ev[:, 0] / ev[:, 1], 'ellipticity', rtol=1e-3)
        close(ar(nn.max) ** 2, ev[:, 1] / ev[:, 0], 'ellipticity', rtol=1e-3)
    if np.min(np.minimum(abs(want[0, 0]), abs(want[1, 1]))) > 1e-6 * sc:
        cn = np.broadcast_to(np.asarray(r.AC_CSD_IQ_norm).reshape(2, 2, -1), want.shape)
        close(cn, want / np.sqrt(want[0, 0] * want[1, 1]), 'normalised covariance', rtol=1e-3)
    ns = r.AC_CSD_ellipse_normSN
    close(ar(ns.max) * 2 * opt.H_JS * opt.C_M_S / 1064e-9, ev[:, 1], 'largest noise in shot noise units', rtol=2e-5)
    close(ar(ns.min) * 2 * opt.H_JS * opt.C_M_S / 1064e-9, ev[:, 0], 'smallest noise in shot noise units', rtol=2e-5, scale=sc)
    if np.all(ev[:, 1] > 1.1 * ev[:, 0] + 1e-3 * sc):
        for e_, nm in ((el, 'ellipse'), (nn, 'normalised ellipse'), (ns, 'shot noise ellipse')):
            close(np.radians(ar(e_.deg)), ar(e_.rad), nm + ' in degrees and radians')
            k = np.array([maj(A[:, :, n], -x) for n, x in enumerate(ar(e_.deg))])
            close(k, ev[:, 1], 'noise along the large axis of the ' + nm, rtol=1e-4)
    return dict(snr=snr, lo=bm.lo, kind=kind, corr=maxabs(A[0, 1]) > 1e-3 * sc, multi=len(o.carriers()) > 1)
