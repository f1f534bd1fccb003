"""Random mechanical networks (one axis), optionally with a piezo and its electrical side, and a
tableau oracle: one displacement per node, one force per element terminal, the constitutive equations
of every element and balance of forces at every node.  It shares nothing with phasor's wave formulation.

  nodes: list of 'm' or 'e';  els: [{t, n: [node per terminal], ...}]
"""
import math
from .core import *

W = 2j * math.pi


def pval(draw, k):
    if k == 'M':
        return dict(m=draw(logf(-3, 2)))
    if k == 'K':
        d = dict(k=draw(logf(-1, 5)))
        if draw(chance(0.4)):
            d['phi'] = draw(st.sampled_from([1e-3, 0.01, 0.1, 0.5, 1.0]))
        return d
    if k == 'D':
        return dict(R=draw(logf(-2, 3)))
    return {}


@st.composite
def network(draw, max_nodes=4, pzt=False, extra=True, strings=False, max_el=7):
    N = draw(st.integers(1, max_nodes))
    nodes = ['m'] * N
    els = []
    node = st.integers(0, N - 1)
    src = draw(st.sampled_from(['FS', 'FS', 'DS', 'DB']))
    els.append(dict(t=src, n=[draw(node)] + ([draw(node)] if src == 'DB' else [])))
    if draw(chance(0.35)):
        els.append(dict(t='FS', n=[draw(node)]))
    for i in range(1, N):
        k = draw(st.sampled_from('MKKKD'))
        els.append(dict(pval(draw, k), t='S' + k, n=[draw(st.integers(0, i - 1)), i]))
    for _ in range(draw(st.integers(1, max_el))):
        if draw(chance(0.35)):
            k = draw(st.sampled_from('MKD'))
            els.append(dict(pval(draw, k), t='S' + k, n=[draw(node), draw(node)]))
        else:
            k = draw(st.sampled_from('MMKKDDXO'))
            els.append(dict(pval(draw, k), t='T' + k, n=[draw(node)]))
    if extra and draw(chance(0.35)):
        els.append(dict(t='CB', n=[draw(node), draw(node)], s=draw(logf(-5, -1)), L=draw(st.sampled_from([0, 0, 0.1, 0.5]))))
    if extra and draw(chance(0.35)):
        els.append(dict(t='LV', n=[draw(node) for _ in range(3)], d=draw(logf(-1, 1, signed=True))))
    if strings:
        els.append(dict(t='ST', n=[draw(node), draw(node)], len=draw(logf(-1, 1)), ten=draw(logf(0, 3)), rho=draw(logf(-3, 0)),
                        L=draw(st.sampled_from([0, 0, 0.2]))))
    if pzt:
        Ne = draw(st.integers(1, 2))
        nodes += ['e'] * Ne
        en = st.integers(N, N + Ne - 1)
        for _ in range(draw(st.integers(1, 2))):
            k, d, rel = draw(logf(2, 6)), draw(logf(-4, -1, signed=True)), draw(logf(-1, 2))
            # the free capacitance exceeds d^2 k (the clamped capacitance is positive)
            els.append(dict(t='PZ', n=[draw(en), draw(node)], k=k, d=d, C=float('%.6g' % (d * d * k * (1 + rel)))))
        els.append(dict(t='eV', n=[draw(en)]))
        for _ in range(draw(st.integers(1, 3))):
            t = draw(st.sampled_from(['eR', 'eC', 'eS']))
            e = dict(t=t, n=[draw(en)])
            if t == 'eS':
                e['n'].append(draw(en))
            e.update(dict(C=draw(logf(-7, -4))) if t == 'eC' else dict(R=draw(logf(0, 4))))
            els.append(e)
    for e in els:
        if e['t'] in ('FS', 'DS', 'DB') and draw(chance(0.4)):
            e['dc'] = draw(logf(-1, 1, signed=True))
            if e['t'] == 'DB' and draw(st.booleans()):
                e['fdc'] = draw(logf(-1, 1, signed=True))
    F = draw(st.one_of(logf(-1, 2.3), st.lists(logf(-1, 2.3), min_size=2, max_size=3, unique=True)))
    n = len(nodes)
    return dict(nodes=nodes, els=els, F=F, order=draw(st.permutations(range(len(els)))),
                styles=[draw(st.sampled_from(['star', 'chain', 'conn', 'tree'])) for _ in range(n)],
                rot=[draw(st.integers(0, 5)) for _ in range(n)], flip=[draw(st.booleans()) for _ in range(n)])


def freqs(net):
    return net['F'] if isinstance(net['F'], list) else [net['F']]


def phi(e, F):
    """structural loss is the same at all frequencies, and the response is real in time"""
    return math.copysign(e.get('phi', 0), F) if F else 0


def stiffness(e, F):
    k = e['t'][1]
    if k == 'M':
        return e['m'] * (W * F) ** 2
    if k == 'K':
        return e['k'] * (1 + 1j * phi(e, F))
    if k == 'D':
        return e['R'] * W * F
    if k == 'O':
        return 0.0


class Tableau(object):
    def __init__(self, net, F):
        self.net, self.F = net, F
        self.N = len(net['nodes'])
        self.fidx = {}
        for i, e in enumerate(net['els']):
            for t in range(len(e['n'])):
                self.fidx[i, t] = self.N + len(self.fidx)
        self.n = self.N + len(self.fidx)
        rows, self.eq = [], {}
        zr = lambda nd: 1.0 if net['nodes'][nd] == 'm' else 50.0      # flows are scaled by the reference
        self.zr = zr
        for nd in range(self.N):
            r = np.zeros(self.n, dtype=complex)
            for (i, t), c in self.fidx.items():
                if net['els'][i]['n'][t] == nd:
                    r[c] = 1
            rows.append(r)
        self.kcl = list(range(self.N))

        def add(i, x={}, f={}, tag=None):
            """sum x_t * potential + sum f_t * (flow*ref) = drive; normalised"""
            r = np.zeros(self.n, dtype=complex)
            for t, c in x.items():
                r[net['els'][i]['n'][t]] += c
            for t, c in f.items():
                r[self.fidx[i, t]] += c
            s = max([abs(c) for c in list(x.values()) + list(f.values())])
            rows.append(r / s)
            if tag:
                self.eq[i, tag] = (len(rows) - 1, 1 / s)
        for i, e in enumerate(net['els']):
            t = e['t']
            if t[0] == 'T' and t != 'TX':
                add(i, {0: stiffness(e, F)}, {0: -1}, 'Y')
            elif t in ('TX', 'DS', 'eV'):
                add(i, {0: 1}, {}, 'x')
            elif t in ('SM', 'SK', 'SD'):
                y = stiffness(e, F)
                add(i, {0: y, 1: -y}, {0: -1}, 'Y')
                add(i, {}, {0: 1, 1: 1})
            elif t == 'FS':
                add(i, {}, {0: -1}, 'F')
            elif t == 'DB':
                add(i, {0: 1, 1: -1}, {}, 'x')
                add(i, {}, {0: -1, 1: -1}, 'F')
            elif t in ('CB', 'ST'):
                if t == 'CB':
                    z, ph = 1.0, np.exp(-W * F * e['s'])
                else:
                    z = 1 / (W * F * math.sqrt(e['ten'] * e['rho']))
                    ph = np.exp(-W * F * e['len'] / math.sqrt(e['ten'] / e['rho']))
                ph = ph * math.sqrt(1 - e['L'])
                for a, b in ((0, 1), (1, 0)):
                    add(i, {b: 1, a: -ph}, {b: -z, a: -ph * z})
            elif t == 'LV':
                d = e['d']
                add(i, {0: 1, 1: -1, 2: -d})
                add(i, {}, {0: 1, 1: 1})
                add(i, {}, {2: 1, 0: d})
            elif t == 'PZ':
                s, k, C = W * F, e['k'], e['C']
                d = e['d']
                # x = d V + F/k ; I = s (C V + d F)
                add(i, {1: k, 0: -k * d}, {1: -1})
                add(i, {0: s * C * 50}, {0: -1, 1: s * d * 50})
            elif t == 'eR':
                add(i, {0: 50.0}, {0: -e['R']}, 'Y')
            elif t == 'eC':
                add(i, {0: W * F * e['C'] * 50}, {0: -1}, 'Y')
            elif t == 'eS':
                add(i, {0: 50.0, 1: -50.0}, {0: -e['R']}, 'Y')
                add(i, {}, {0: 1, 1: 1})
            else:
                raise AssertionError(t)
        A = np.array(rows)
        assert A.shape == (self.n, self.n), A.shape
        self.cond = np.linalg.cond(A)
        self.inv = np.linalg.inv(A) if np.isfinite(self.cond) and self.cond < 1e12 else None

    def drive(self, i, tag, val):
        b = np.zeros(self.n, dtype=complex)
        r, s = self.eq[i, tag]
        b[r] = s * val
        return self.inv.dot(b)

    def emf(self, i, val=1.0):
        """a displacement (voltage) in series with a one-stiffness element: F = Y (x - val)"""
        e = self.net['els'][i]
        b = np.zeros(self.n, dtype=complex)
        r, s = self.eq[i, 'Y']
        y = 50.0 if e['t'] in ('eR', 'eS') else W * self.F * e['C'] * 50 if e['t'] == 'eC' else stiffness(e, self.F)
        b[r] = s * y * val
        return self.inv.dot(b)

    def inject(self, nd, val):
        b = np.zeros(self.n, dtype=complex)
        b[nd] = val * self.zr(nd)
        return self.inv.dot(b)

    def dc(self):
        x = np.zeros(self.n, dtype=complex)
        for i, e in enumerate(self.net['els']):
            if e.get('dc'):
                x = x + self.drive(i, 'F' if e['t'] == 'FS' else 'x', e['dc'])
            if e.get('fdc'):
                x = x + self.drive(i, 'F', e['fdc'])
        return x

    def row_x(self, nd):
        r = np.zeros(self.n, dtype=complex)
        r[nd] = 1
        return r

    def row_f(self, i, t):
        r = np.zeros(self.n, dtype=complex)
        r[self.fidx[i, t]] = 1 / self.zr(self.net['els'][i]['n'][t])
        return r


def make(e):
    import phasor.mechanical as M
    import phasor.electronics as E
    from phasor.transducers import PZTMountedGrounded
    t = e['t']
    if t == 'TM':
        return M.Mass(mass_kg=e['m'])
    if t == 'SM':
        return M.SeriesMass(mass_kg=e['m'])
    if t in ('TK', 'SK'):
        kw = dict(loss_angle_by_freq=e['phi']) if 'phi' in e else {}
        return (M.TerminatorSpring if t == 'TK' else M.SeriesSpring)(elasticity_N_m=e['k'], **kw)
    if t == 'TD':
        return M.TerminatorDamper(resistance_Ns_m=e['R'])
    if t == 'SD':
        return M.SeriesDamper(resistance_Ns_m=e['R'])
    if t == 'TX':
        return M.TerminatorShorted()
    if t == 'TO':
        return M.TerminatorOpen()
    if t == 'FS':
        return M.ForceSource(F_DC=e.get('dc', 0))
    if t == 'DS':
        return M.DisplacementSource(d_DC=e.get('dc', 0))
    if t == 'DB':
        return M.DisplacementSourceBalanced(d_DC=e.get('dc', 0), F_DC=e.get('fdc', 0))
    if t == 'CB':
        return M.Cable(delay_s=e['s'], Loss=e['L'])
    if t == 'ST':
        return M.String(length_m=e['len'], tension_N=e['ten'], mass_density_kg_m=e['rho'], Loss=e['L'])
    if t == 'LV':
        return M.Moment1D(displacement=e['d'])
    if t == 'PZ':
        return PZTMountedGrounded(k_N_m=e['k'], d_eff_m_V=e['d'], capacitance_F=e['C'])
    if t == 'eV':
        return E.VoltageSource()
    if t == 'eR':
        return E.TerminatorResistor(resistance_Ohms=e['R'])
    if t == 'eC':
        return E.TerminatorCapacitor(capacitance_Farads=e['C'])
    if t == 'eS':
        return E.SeriesResistor(resistance_Ohms=e['R'])
    raise AssertionError(t)


def port_of(el, e, t):
    if e['t'] == 'LV':
        return getattr(el, ['pm_A', 'pm_B', 'L'][t])
    if e['t'] == 'PZ':
        return getattr(el, ['pe_A', 'pm_Z'][t])
    return getattr(el, ('pe_' if e['t'][0] == 'e' else 'pm_') + 'AB'[t])


DRIVES = dict(FS=['F'], DS=['d'], DB=['d', 'F'], eV=['V'])
TAG = dict(F='F', d='x', V='x')


class Built(object):
    pass


def build(net, placer=None, **kw):
    from phasor import system
    import phasor.mechanical as M
    import phasor.electronics as E
    F = net['F']
    s = system.BGSystem(F_AC=np.array(F) if isinstance(F, list) else F, **kw)
    b = Built()
    b.sys = s

    own = b.own = (placer or Placer)(s)
    b.els = [None] * len(net['els'])
    for i in net['order']:
        b.els[i] = own('e%d' % i, make(net['els'][i]))
    b.ports, at = {}, [[] for _ in net['nodes']]
    for i, e in enumerate(net['els']):
        for t, nd in enumerate(e['n']):
            b.ports[i, t] = port_of(b.els[i], e, t)
            at[nd].append(b.ports[i, t])
    for nd, ps in enumerate(at):
        r = net['rot'][nd] % len(ps) if ps else 0
        ps = ps[r:] + ps[:r]
        po = own.port
        bond = (lambda x, y: s.bond(po(y), po(x))) if net['flip'][nd] else (lambda x, y: s.bond(po(x), po(y)))
        if len(ps) < 2:
            continue
        style = net['styles'][nd]
        if style == 'conn':
            c = own('conn%d' % nd, (M if net['nodes'][nd] == 'm' else E).Connection(N_ports=len(ps)))
            for j, p in enumerate(ps):
                bond(p, getattr(c, ('pm_%d' if net['nodes'][nd] == 'm' else 'pe_%d') % j))
        elif style == 'star':
            for p in ps[1:]:
                bond(ps[0], p)
        elif style == 'chain':
            for p, q in zip(ps[:-1], ps[1:]):
                bond(p, q)
        else:
            for j in range(1, len(ps)):
                bond(ps[(j - 1) // 2], ps[j])
    return b
