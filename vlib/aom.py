"""Chains of acousto-optic modulators between two paths A and B: fields on a lattice of RF orders, each modulator
a unitary rotation between A at n and B at n + (tone).

  aoms: [{tones: [[which frequency, amplitude, phase]], rev, LA, LB, mod}]   LA, LB: path lengths before it
  ins:  [{P, ph, s, mod}] or None for paths A and B
  T: transmission of the mirror combining the paths at the end, or None
"""
import math
from .core import *
from .pol import C_M_S

FS = (100e6, 130e6, 30e6)       # the last one is below the splitting frequency: no diffraction


@st.composite
def chain(draw, mods=False):
    n = draw(st.sampled_from([1, 1, 2]))

    def tone(fs):
        return [draw(st.sampled_from(fs)), draw(linf(0.05, 0.9, 34)), draw(linf(-180, 180, 72))]

    def one():
        k = draw(st.sampled_from(['0', '0', '1', '01', '02', '2'] if not mods else ['0', '1'] if n == 1 else ['0', '1', '']))
        return dict(tones=[tone([int(c)]) for c in k], rev=draw(st.booleans()), LA=draw(st.sampled_from([0, 0.7, 2.0])),
                    LB=draw(st.sampled_from([0, 0.3, 1.1])), mod=draw(st.sampled_from(['amp', 'phase', ''])) if mods else '')

    def las():
        return dict(P=draw(st.sampled_from([1.0, 2.0, 0.3])), ph=draw(linf(-3, 3, 60)), s=draw(st.sampled_from('SP')),
                    mod=draw(st.sampled_from(['AM', 'PM', ''])) if mods else '')
    ins = draw(st.sampled_from(['A', 'B', 'AB']))
    return dict(aoms=[one() for _ in range(n)], ins=[las() if c in ins else None for c in 'AB'],
                T=draw(st.sampled_from([None, 0.5, 0.3])), ords=draw(st.sampled_from([[1, 1]] * 3 + [[2, 1]])))


class Built(object):
    pass


def build(c, N, freq=None, amps=None):
    """amps: {(modulator, tone): array of amplitudes}"""
    from phasor import system, optics as O, signals as S, base
    kw = {} if freq is None else dict(F_AC=freq)
    s = system.BGSystem(**kw)
    b = Built()
    b.sys = s
    s.exact_order = 7      # without it, fields that are zero but for rounding keep the solver going for a hundred rounds

    def own(name, obj):
        setattr(s.own, name, obj)
        return getattr(s, name)
    b.own = own
    F = [own('F%d' % i, base.Frequency(F_Hz=f, order=(c['ords'] + [1])[i])) for i, f in enumerate(FS)]
    cur, b.drives = [None, None], {}
    for k, d in enumerate(c['ins']):
        if d:
            cur[k] = own('las%d' % k, O.Laser(F=s.F_carrier_1064, power_W=d['P'], phase_rad=d['ph'], polarization=d['s'])).po_Fr
            if d['mod']:
                m = own('m%d' % k, (O.AM if d['mod'] == 'AM' else O.PM)())
                s.bond(cur[k], m.po_Fr)
                b.drives['in%d' % k] = m.Drv
                cur[k] = m.po_Bk
    for j, a in enumerate(c['aoms']):
        x = own('aom%d' % j, O.AOM(N_ode=N))
        for k, L in enumerate((a['LA'], a['LB'])):
            if L and cur[k] is not None:
                sp = own('sp%d_%d' % (j, k), O.Space(L_m=L))
                s.bond(cur[k], sp.po_Fr)
                cur[k] = sp.po_Bk
        i, o = (x.po_BkA, x.po_BkB), (x.po_FrA, x.po_FrB)
        if not a['rev']:
            i, o = o, i
        for k in (0, 1):
            if cur[k] is not None:
                s.bond(cur[k], i[k])
            cur[k] = o[k]
        md = None
        if a['mod']:
            md = own('mod%d' % j, S.Modulator())
            md.ps_Out.bond(x.Drv)
            b.drives['aom%d' % j] = md.Mod_amp if a['mod'] == 'amp' else md.Mod_phase
        for t, (w, amp, ph) in enumerate(a['tones']):
            g = own('g%d_%d' % (j, t), S.SignalGenerator(F=F[w], amplitude=(amps or {}).get((j, t), amp), phase_deg=ph))
            g.ps_Out.bond(md.ps_In if md is not None else x.Drv)
    if c['T'] is not None:
        m = own('bs', O.Mirror(T_hr=c['T'], AOI_deg=45))
        s.bond(cur[0], m.po_FrA)
        s.bond(cur[1], m.po_BkB)
        cur = [m.po_FrB, m.po_BkA]
    b.pds = [own('pd%d' % k, O.PD()) for k in (0, 1)]
    for k in (0, 1):
        s.bond(cur[k], b.pds[k].po_Fr)
    return b


class Oracle(object):
    def __init__(self, c, amps=None):
        self.c = c
        o1, o2 = c['ords']
        self.lat = [(n1, n2) for n1 in range(-o1, o1 + 1) for n2 in range(-o2, o2 + 1)]
        self.ix = dict((p + n, i) for i, (p, n) in enumerate(((p,), n) for p in (0, 1) for n in self.lat))
        self.n = len(self.ix)
        self.amps = amps or {}

    def gen(self, j, mod=''):
        """generator of modulator j: dE/ds = A E"""
        a = self.c['aoms'][j]
        A = np.zeros((self.n, self.n), complex)
        for t, (w, amp, ph) in enumerate(a['tones']):
            if w == 2:
                continue
            D = self.amps.get((j, t), amp) * np.exp(1j * math.radians(ph))
            up, dn = {'': (1, 1), 'amp': (1, 1), 'phase': (1j, -1j)}[mod]
            for n in self.lat:
                m = (n[0] + (w == 0), n[1] + (w == 1))
                if m not in self.lat:
                    continue
                # A at n <-> B at n + tone; light travelling backwards: B at n <-> A at n + tone
                lo, hi = self.ix[(int(a['rev']),) + n], self.ix[(1 - int(a['rev']),) + m]
                A[hi, lo] += -0.5j * math.pi * D * up
                A[lo, hi] += -0.5j * math.pi * np.conj(D) * dn
        return A

    def delay(self, j, f):
        v = np.ones(self.n, complex)
        a = self.c['aoms'][j]
        for key, i in self.ix.items():
            L = (a['LA'], a['LB'])[key[0]]
            v[i] = np.exp(-2j * math.pi * L / C_M_S * (key[1] * FS[0] + key[2] * FS[1] + f))
        return v

    def run(self, drive=None, f=0):
        """{pol: (E, a, b)}: static fields at the detectors, audio sidebands at +f and (conjugated) at -f"""
        import scipy.linalg
        out = {}
        for s in 'SP':
            E = np.zeros(self.n, complex)
            a = np.zeros(self.n, complex)
            b = np.zeros(self.n, complex)
            for k, d in enumerate(self.c['ins']):
                if d and d['s'] == s:
                    i = self.ix[k, 0, 0]
                    E[i] = math.sqrt(d['P']) * np.exp(1j * d['ph'])
                    if drive == 'in%d' % k:
                        a[i], b[i] = (0.5 * E[i], 0.5 * np.conj(E[i])) if d['mod'] == 'AM' else (0.5j * E[i], -0.5j * np.conj(E[i]))
            for j, x in enumerate(self.c['aoms']):
                E = E * self.delay(j, 0)
                a = a * self.delay(j, f)
                b = b * np.conj(self.delay(j, -f))
                A = self.gen(j)
                if drive == 'aom%d' % j:
                    dA = self.gen(j, x['mod']) / 2      # the amplitude of the modulation, per sideband
                    Z = np.zeros_like(A)
                    X = scipy.linalg.expm(np.block([[A, Z], [dA, A]]))
                    n = self.n
                    a = X[n:, :n].dot(E) + X[n:, n:].dot(a)
                    b = np.conj(X[n:, :n].dot(E)) + np.conj(X[n:, n:]).dot(b)
                    E = X[:n, :n].dot(E)
                else:
                    U = scipy.linalg.expm(A)
                    E, a, b = U.dot(E), U.dot(a), np.conj(U).dot(b)
            if self.c['T'] is not None:
                t, r = math.sqrt(self.c['T']), math.sqrt(1 - self.c['T'])
                h = self.n // 2
                B = np.block([[r * np.eye(h), t * np.eye(h)], [t * np.eye(h), -r * np.eye(h)]])
                E, a, b = B.dot(E), B.dot(a), B.dot(b)
            out[s] = E, a, b
        return out

    def powers(self):
        h = self.n // 2
        r = self.run()
        return [sum(np.sum(np.abs(E[k * h:(k + 1) * h]) ** 2) for E, a, b in r.values()) for k in (0, 1)]

    def response(self, drive, f):
        h = self.n // 2
        r = self.run(drive, f)
        return [sum(np.sum((np.conj(E) * a + E * b)[k * h:(k + 1) * h]) for E, a, b in r.values()) for k in (0, 1)]
