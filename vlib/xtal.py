"""Networks with chi-2 crystals: coupled wave equations integrated finely, closed over the linear optics by
Newton's method, linearised around the solution for audio sidebands and vacuum noise.

Fields per port, polarization and harmonic (1, 2) of 1064 nm; in a crystal of total gain g, over s in [0, 1]
  dE1/ds = i g E2 E1*      dE2/ds = i g E1**2
for each polarization and direction by itself."""
import math
from .core import *
from . import pol
from .pol import POLS, H_JS, C_M_S, LAM

CS = [1, 2]


@st.composite
def network(draw, kinds, **kw):
    net = draw(pol.network(kinds=kinds, harmonics=True, **kw))
    net['els'] = [dict(e) for e in net['els']]
    xs = [i for i, e in enumerate(net['els']) if e['k'] == 'xtal']
    for i in xs:
        net['els'][i].update(g=draw(st.sampled_from([0.1, 0.3, 0.5, 0.8, 0.05])), mm=draw(st.sampled_from([1, 10, 5.0])), N=10)
    net['xtals'] = xs
    return net


def step_all(E1, E2, g, n=60):
    """fields and the Jacobian of (E1, E2, E1*, E2*) through crystals (arrays, one entry per pass)"""
    E1, E2, g = (np.asarray(v) for v in (E1, E2, g))
    m = len(E1)

    def d(y):
        e1, e2 = y[:, 0], y[:, 1]
        out = np.empty_like(y)
        out[:, 0] = 1j * g * e2 * np.conj(e1)
        out[:, 1] = 1j * g * e1 * e1
        A = np.zeros((m, 4, 4), complex)
        A[:, 0, 1] = 1j * g * np.conj(e1)
        A[:, 0, 2] = 1j * g * e2
        A[:, 1, 0] = 2j * g * e1
        A[:, 2:, 2:] = np.conj(A[:, :2, :2])
        A[:, 2:, :2] = np.conj(A[:, :2, 2:])
        out[:, 2:] = np.matmul(A, y[:, 2:].reshape(m, 4, 4)).reshape(m, 16)
        return out
    y = np.concatenate([E1[:, None], E2[:, None], np.tile(np.eye(4).ravel(), (m, 1))], axis=1).astype(complex)
    h = 1.0 / n
    for _ in range(n):
        a = d(y)
        b = d(y + h / 2 * a)
        c = d(y + h / 2 * b)
        e = d(y + h * c)
        y = y + h / 6 * (a + 2 * b + 2 * c + e)
    return y[:, 0], y[:, 1], y[:, 2:].reshape(m, 4, 4)


class Oracle(pol.Oracle):
    def __init__(self, net):
        pol.Oracle.__init__(self, net)
        self.carr = CS
        for c in CS:
            if c not in self.S:
                S = np.zeros((self.n, self.n), dtype=complex)
                for i, e in enumerate(net['els']):
                    for (x, y), J in pol.jones(e, c).items():
                        for a, sa in enumerate(POLS):
                            for b, sb in enumerate(POLS):
                                S[self.idx[i, y, sb], self.idx[i, x, sa]] += J[b, a]
                self.S[c] = S
        n = self.n
        self.x = []             # (in index, out index, gain) of every crystal pass
        for i in net['xtals']:
            for p, q in (('po_Fr', 'po_Bk'), ('po_Bk', 'po_Fr')):
                for s in POLS:
                    self.x.append((self.idx[i, p, s], self.idx[i, q, s], net['els'][i]['g']))
        # stacked order: E1, E2, E1*, E2*
        self.S4 = np.zeros((4 * n, 4 * n), complex)
        for b, S in enumerate((self.S[1], self.S[2], np.conj(self.S[1]), np.conj(self.S[2]))):
            self.S4[b * n:(b + 1) * n, b * n:(b + 1) * n] = S

    def G4(self, f):
        n = self.n
        G = np.zeros((4 * n, 4 * n), complex)
        for p, (q, d) in self.far.items():
            for s in POLS:
                i, j = self.idx[q + (s,)], self.idx[p + (s,)]
                for b, v in enumerate(self.ph4(d, f)):
                    G[b * n + i, b * n + j] = v
        return G

    def ph4(self, d, f):
        return [self.phase(d, 1, f), self.phase(d, 2, f), np.conj(self.phase(d, 1, -f)), np.conj(self.phase(d, 2, -f))]

    def crystals(self, u, t):
        """out waves of the crystals and their linearisation, at in waves u, gains scaled by t"""
        n = self.n
        v = np.zeros(4 * n, complex)
        K = np.zeros((4 * n, 4 * n), complex)
        if not self.x:
            return v, K
        ii, oo, gg = (np.array(z) for z in zip(*self.x))
        e1, e2, J = step_all(u[ii], u[n + ii], gg * t)
        v[oo], v[n + oo] = e1, e2
        v[2 * n + oo], v[3 * n + oo] = np.conj(e1), np.conj(e2)
        for a in range(4):
            for b in range(4):
                K[a * n + oo, b * n + ii] = J[:, a, b]
        return v, K

    def solve(self):
        """static in waves, or None when the network has no well separated stable solution"""
        n = self.n
        b = np.zeros(4 * n, complex)
        for d in self.net['ends']:
            if d['kind'] == 'las':
                k = self.idx[tuple(d['p']) + (d['s'],)]
                v = math.sqrt(d['P']) * np.exp(1j * d['ph']) * self.phase(d, d['c'], 0)
                b[(d['c'] - 1) * n + k] += v
                b[(d['c'] + 1) * n + k] += np.conj(v)
        G = self.G4(0)
        u = np.zeros(4 * n, complex)
        I = np.eye(4 * n)
        for t in (0, 0.3, 0.6, 0.8, 1):
            for it in range(12):
                v, K = self.crystals(u, t)
                r = u - G.dot(self.S4.dot(u) + v) - b
                M = I - G.dot(self.S4 + K)
                if maxabs(np.linalg.inv(M)) > 12:
                    return None
                du = np.linalg.solve(M, r)
                u = u - du
                if maxabs(du) < 1e-12 * maxabs(u):
                    break
            else:
                return None
            if maxabs(u) > 8:
                return None
        v, K = self.crystals(u, 1)
        ev = np.linalg.eigvals(G.dot(self.S4 + K))
        if maxabs(ev) > 0.97:         # close to, or above, a threshold
            return None
        self.u, self.K = u, K
        self.y = self.S4.dot(u) + v
        return u

    # ------------------------------------------------ what is seen

    def E(self, d):
        """{(c, s): field} leaving through segment d"""
        p = self.ph4(d, 0)
        return dict(((c, s), self.y[(c - 1) * self.n + self.idx[tuple(d['p']) + (s,)]] * p[c - 1]) for c in CS for s in POLS)

    def power(self, d, c=None):
        return sum(abs(v) ** 2 for k, v in self.E(d).items() if c in (None, k[0]))

    def row_W(self, d, f):
        """linear functional of the audio out waves (4n) giving the power at the end of d"""
        p0, p = self.ph4(d, 0), self.ph4(d, f)
        r = np.zeros(4 * self.n, complex)
        for c in CS:
            for s in POLS:
                k = self.idx[tuple(d['p']) + (s,)]
                e = self.y[(c - 1) * self.n + k] * p0[c - 1]
                r[(c - 1) * self.n + k] = np.conj(e) * p[c - 1]
                r[(c + 1) * self.n + k] = e * p[c + 1]
        return r

    def row_H(self, d, f, lo, th):
        """same, of the homodyne quadrature at th with local oscillator lo = (c, s, amplitude)"""
        p = self.ph4(d, f)
        c, s, l = lo
        k = self.idx[tuple(d['p']) + (s,)]
        r = np.zeros(4 * self.n, complex)
        e = np.exp(1j * th) / abs(l) / 2
        r[(c - 1) * self.n + k] = e * np.conj(l) * p[c - 1]
        r[(c + 1) * self.n + k] = np.conj(e) * l * p[c + 1]
        return r

    def audio(self, f, src, q):
        """audio out waves for audio sources entering (src, in waves) and emitted (q, out waves)"""
        G = self.G4(f)
        M = np.eye(4 * self.n) - G.dot(self.S4 + self.K)
        u = np.linalg.solve(M, src + G.dot(q))
        return (self.S4 + self.K).dot(u) + q

    def drive(self, f, mtag):
        """(audio sources, {segment tag: what the modulator adds to the light leaving through it})"""
        n = self.n
        md = (self.net['links'] if mtag[0] == 'l' else self.net['ends'])[int(mtag[1:])]
        m = (0.5, 0.5, 0.5, 0.5) if md['mod'] == 'AM' else (0.5j, 0.5j, -0.5j, -0.5j)
        src = np.zeros(4 * n, complex)
        add = np.zeros(4 * n, complex)
        g0, gf = self.ph4(md, 0), self.ph4(md, f)
        for b in range(4):
            for s in POLS:
                p = b * n + self.idx[tuple(md['p']) + (s,)]
                if mtag[0] == 'l':
                    q = b * n + self.idx[tuple(md['q']) + (s,)]
                    src[q] += m[b] * self.y[p] * gf[b]
                    src[p] += m[b] * self.y[q] * g0[b]
                else:
                    if md['kind'] == 'las' and md['c'] == b % 2 + 1 and md['s'] == s:
                        a = math.sqrt(md['P']) * np.exp(1j * md['ph'])
                        src[p] += m[b] * (a if b < 2 else np.conj(a)) * g0[b]
                add[p] = m[b] * self.y[p]
        return src, add

    def vacuum(self, f):
        """independent inputs: (h nu, src, q) per end, loss, harmonic, polarization and sideband"""
        n = self.n
        rows = []
        for c in CS:
            hv = H_JS * C_M_S / LAM * c
            for b in (c - 1, c + 1):
                for d in self.net['ends']:
                    for s in POLS:
                        src = np.zeros(4 * n, complex)
                        src[b * n + self.idx[tuple(d['p']) + (s,)]] = self.ph4(d, f)[b]
                        rows.append((hv, src, 0 * src))
                for i, e in enumerate(self.net['els']):
                    m = e if e['k'] == 'mir' else e['m'][c - 1] if e['k'] == 'hm' else None
                    if m is None or not m['L']:
                        continue
                    for p in pol.ports_of(e):
                        for s in POLS:
                            q = np.zeros(4 * n, complex)
                            q[b * n + self.idx[i, p, s]] = math.sqrt(m['L'])
                            rows.append((hv, 0 * q, q))
        return rows
