"""Random electrical networks: generator, phasor builder, and a modified-nodal-analysis oracle.

A network is plain data: nodes 0..N-1 (ground implied), elements attached to nodes.  The oracle
writes one constitutive equation per branch plus Kirchhoff's current law per node, and shares
nothing with phasor's wave/scattering formulation.
"""
import math
from .core import *

TERM = ['TR', 'TC', 'TL', 'TLR', 'TM', 'TO', 'TS']
SER = ['SR', 'SC', 'SL', 'SLR']
kB = 1.380658e-23


def pval(kind):
    if kind in ('TR', 'SR'):
        return logf(-0.5, 4.5).map(lambda r: dict(R=r))
    if kind in ('TC', 'SC'):
        return logf(-9, -5).map(lambda c: dict(C=c))
    if kind in ('TL', 'SL'):
        return logf(-5, -1).map(lambda l: dict(L=l))
    if kind in ('TLR', 'SLR'):
        return st.tuples(logf(-5, -1), logf(-0.5, 3)).map(lambda t: dict(L=t[0], R=t[1]))
    return st.just({})


@st.composite
def pole(draw):
    """amplifiers roll off above fp half of the time"""
    return dict(fp=draw(logf(-1, 6))) if draw(st.booleans()) else {}


def gain(e):
    g, fp = e['g'], e.get('fp')
    return (lambda F: g) if fp is None else (lambda F: g / (1 + 1j * F / fp))


@st.composite
def network(draw, max_nodes=4, sources=('V', 'I', 'VB'), opamps=False, transformer=False, cables=False,
            max_el=7, dc=True, names=False):
    N = draw(st.integers(1, max_nodes))
    els = []
    # a spanning set of branches so that most networks are connected to ground
    n_el = draw(st.integers(1, max_el))
    src = draw(st.sampled_from(list(sources)))
    node = st.integers(0, N - 1)

    def add_source(kind):
        e = dict(t=kind, n=[draw(node)])
        if kind == 'VB':
            e['n'].append(draw(node))
        if dc and draw(st.booleans()):
            e['dc'] = draw(logf(-1, 1, signed=True))
        else:
            e['dc'] = 0
        els.append(e)
    add_source(src)
    if draw(chance(0.35)):
        add_source(draw(st.sampled_from(list(sources))))
    for i in range(1, N):
        k = draw(st.sampled_from(SER))
        els.append(dict(draw(pval(k)), t=k, n=[draw(st.integers(0, i - 1)), i]))
    k = draw(st.sampled_from(TERM[:4]))
    els.append(dict(draw(pval(k)), t=k, n=[draw(node)]))
    for _ in range(n_el - 1):
        if draw(st.booleans()):
            k = draw(st.sampled_from(SER))
            els.append(dict(draw(pval(k)), t=k, n=[draw(node), draw(node)]))
        else:
            k = draw(st.sampled_from(TERM))
            els.append(dict(draw(pval(k)), t=k, n=[draw(node)]))
    if opamps and draw(chance(0.7)):
        els.append(dict(t='OA', n=[draw(node), draw(node), draw(node)], g=draw(logf(0, 4, signed=False)), **draw(pole())))
    if opamps and draw(chance(0.3)):
        els.append(dict(t='VA', n=[draw(node), draw(node)], g=draw(logf(-1, 3, signed=True)), **draw(pole())))
    if cables and draw(chance(0.5)):
        els.append(dict(t='CB', n=[draw(node), draw(node)], ns=draw(logf(-1, 5))))
    if transformer:
        els.append(dict(t='TF', n=[draw(node) for _ in range(4)], L1=draw(logf(-4, -1)), L2=draw(logf(-4, -1)),
                        R1=draw(st.one_of(st.just(0), logf(-1, 2))), R2=draw(st.one_of(st.just(0), logf(-1, 2))),
                        k=draw(st.sampled_from([1, 0.99, 0.9, 0.5]))))
    F = draw(st.one_of(logf(0, 5), st.lists(logf(0, 5), min_size=2, max_size=3, unique=True)))
    order = draw(st.permutations(range(len(els))))
    styles = [draw(st.sampled_from(['star', 'chain', 'conn', 'tree'])) for _ in range(N)]
    rot = [draw(st.integers(0, 5)) for _ in range(N)]
    flip = [draw(st.booleans()) for _ in range(N)]
    return dict(N=N, els=els, F=F, order=list(order), styles=styles, rot=rot, flip=flip)


NPORT = dict(OA=3, TF=4)


def nterm(e):
    return len(e['n'])


def zval(e, F):
    """('Z', z) or ('Y', y)"""
    w = 2j * math.pi * F
    t = e['t'][1:]
    if t == 'R':
        return 'Z', e['R'] + 0j * F
    if t == 'C':
        return 'Y', w * e['C']
    if t == 'L':
        return 'Z', w * e['L']
    if t == 'LR':
        return 'Z', e['R'] + w * e['L']
    if t == 'M':
        return 'Z', 50.0 + 0j * F
    if t == 'O':
        return 'Y', 0j * F
    if t == 'S':
        return 'Z', 0j * F
    raise AssertionError(t)


class Mna(object):
    """Unknowns: node voltages, then per-element branch currents (times 50 Ohm)."""

    def __init__(self, net, F):
        self.net = net
        self.N = N = net['N']
        self.idx = []
        n = N
        for e in net['els']:
            k = {'I': 0, 'TF': 2, 'CB': 2}.get(e['t'], 1)
            self.idx.append(n)
            n += k
        self.n = n
        A = np.zeros((n, n), dtype=complex)
        Z0 = 50.0
        # element terminal current incidence: list of (element, terminal) -> [(col, coeff)]
        self.term = {}
        for ie, e in enumerate(net['els']):
            t, nd, r = e['t'], e['n'], self.idx[ie]
            if t == 'I':
                continue
            if t in ('V',):
                A[r, nd[0]] += 1
                cur = [1]
            elif t == 'VB':
                A[r, nd[0]] += 1
                A[r, nd[1]] -= 1
                cur = [1, -1]
            elif t == 'OA':
                # nodes in_p, in_n, out
                g = gain(e)(F)
                A[r, nd[2]] += 1 / (1 + abs(g))
                A[r, nd[0]] -= g / (1 + abs(g))
                A[r, nd[1]] += g / (1 + abs(g))
                cur = [0, 0, 1]
            elif t == 'VA':
                g = gain(e)(F)
                A[r, nd[1]] += 1 / (1 + abs(g))
                A[r, nd[0]] += g / (1 + abs(g))
                cur = [0, 1]
            elif t == 'CB':
                ph = np.exp(-2j * math.pi * F * e['ns'] * 1e-9)
                for q, (a, b) in enumerate(((0, 1), (1, 0))):
                    A[r + q, nd[b]] += 1
                    A[r + q, r + b] -= 1
                    A[r + q, nd[a]] -= ph
                    A[r + q, r + a] -= ph
                for tt in (0, 1):
                    A[nd[tt], r + tt] += 1
                    self.term[ie, tt] = [(r + tt, 1)]
                continue
            elif t == 'TF':
                w = 2j * math.pi * F
                Z11 = e['R1'] + w * e['L1']
                Z22 = e['R2'] + w * e['L2']
                Zm = w * e['k'] * math.sqrt(e['L1'] * e['L2'])
                s1 = Z0 / (Z0 + abs(Z11))
                s2 = Z0 / (Z0 + abs(Z22))
                A[r, nd[0]] += s1
                A[r, nd[1]] -= s1
                A[r, r] -= s1 * Z11 / Z0
                A[r, r + 1] -= s1 * Zm / Z0
                A[r + 1, nd[2]] += s2
                A[r + 1, nd[3]] -= s2
                A[r + 1, r] -= s2 * Zm / Z0
                A[r + 1, r + 1] -= s2 * Z22 / Z0
                for tt, col, c in ((0, r, 1), (1, r, -1), (2, r + 1, 1), (3, r + 1, -1)):
                    A[nd[tt], col] += c
                    self.term[ie, tt] = [(col, c)]
                continue
            else:
                kind, z = zval(e, F)
                if kind == 'Z':
                    s = Z0 / (Z0 + abs(z))
                    A[r, nd[0]] += s
                    if len(nd) > 1:
                        A[r, nd[1]] -= s
                    A[r, r] -= s * z / Z0
                else:
                    s = 1 / (1 / Z0 + abs(z)) / Z0
                    A[r, nd[0]] += s * z * Z0
                    if len(nd) > 1:
                        A[r, nd[1]] -= s * z * Z0
                    A[r, r] -= s
                cur = [1, -1][:len(nd)]
            for tt, c in enumerate(cur):
                if c:
                    A[nd[tt], r] += c
                self.term[ie, tt] = [(r, c)]
        self.A = A
        self.cond = np.linalg.cond(A)
        self.Ainv = np.linalg.inv(A) if np.isfinite(self.cond) and self.cond < 1e12 else None

    def rhs_source(self, ie, val):
        b = np.zeros(self.n, dtype=complex)
        e = self.net['els'][ie]
        if e['t'] == 'I':
            b[e['n'][0]] += 50.0 * val
        else:
            b[self.idx[ie]] += val
        return b

    def rhs_inject(self, node, I):
        b = np.zeros(self.n, dtype=complex)
        b[node] += 50.0 * I
        return b

    def rhs_dc(self):
        b = np.zeros(self.n, dtype=complex)
        for ie, e in enumerate(self.net['els']):
            if e['t'] in ('V', 'I', 'VB') and e.get('dc'):
                b = b + self.rhs_source(ie, e['dc'])
        return b

    def row_V(self, node):
        r = np.zeros(self.n, dtype=complex)
        r[node] = 1
        return r

    def row_I(self, ie, tt):
        """current into the element's terminal"""
        r = np.zeros(self.n, dtype=complex)
        for col, c in self.term[ie, tt]:
            r[col] += c / 50.0
        return r

    def row_emf(self, ie):
        """response row is not needed; an emf in branch ie enters its branch equation"""
        e = self.net['els'][ie]


PORTNAMES = dict(OA=['in_p', 'in_n', 'out'], VA=['in_n', 'out'], TF=['pe_A', 'pe_B', 'pe_C', 'pe_D'])


def port_of(el, e, tt):
    names = PORTNAMES.get(e['t'], ['pe_A', 'pe_B'])
    return getattr(el, names[tt])


def make_element(e):
    import phasor.electronics as E
    t = e['t']
    if t == 'TR':
        return E.TerminatorResistor(resistance_Ohms=e['R'])
    if t == 'SR':
        return E.SeriesResistor(resistance_Ohms=e['R'])
    if t == 'TC':
        return E.TerminatorCapacitor(capacitance_Farads=e['C'])
    if t == 'SC':
        return E.SeriesCapacitor(capacitance_Farads=e['C'])
    if t == 'TL':
        return E.TerminatorInductor(inductance_Henries=e['L'])
    if t == 'SL':
        return E.SeriesInductor(inductance_Henries=e['L'])
    if t == 'TLR':
        return E.TerminatorInductor(inductance_Henries=e['L'], resistance_Ohms=e['R'])
    if t == 'SLR':
        return E.SeriesInductor(inductance_Henries=e['L'], resistance_Ohms=e['R'])
    if t == 'TM':
        return E.TerminatorMatched()
    if t == 'TO':
        return E.TerminatorOpen()
    if t == 'TS':
        return E.TerminatorShorted()
    if t == 'V':
        return E.VoltageSource(V_DC=e.get('dc', 0))
    if t == 'I':
        return E.CurrentSource(I_DC=e.get('dc', 0))
    if t == 'VB':
        return E.VoltageSourceBalanced(V_DC=e.get('dc', 0), I_DC=e.get('idc', 0))
    if t == 'OA':
        return E.OpAmp(gain_by_freq=gain(e))
    if t == 'VA':
        return E.VAmp(gain_by_freq=gain(e))
    if t == 'CB':
        return E.Cable(length_ns=e['ns'])
    if t == 'TF':
        k = e['k']
        return E.Transformer(L1_inductance_Henries=e['L1'], L2_inductance_Henries=e['L2'],
                             L1_resistance_Ohms=e['R1'], L2_resistance_Ohms=e['R2'],
                             transformer_k_by_freq=lambda F: k)
    raise AssertionError(t)


def drive_port(el, e):
    return el.ps_In.i if e['t'] == 'I' else el.V.i


def build(net, names=None, placer=None, **syskw):
    """-> (sys, elements list, ports {(ie,tt): port}, nodes: list of lists of (ie, tt))"""
    from phasor import system
    import phasor.electronics as E
    F = net['F']
    F = np.array(F) if isinstance(F, list) else F
    sys_ = system.BGSystem(F_AC=F, **syskw)
    place = (placer or Placer)(sys_)
    els = [None] * len(net['els'])
    for ie in net['order']:
        nm = names[ie] if names else 'e%d' % ie
        els[ie] = place(nm, make_element(net['els'][ie]))
    ports = {}
    nodes = [[] for _ in range(net['N'])]
    for ie, e in enumerate(net['els']):
        for tt, nd in enumerate(e['n']):
            ports[ie, tt] = port_of(els[ie], e, tt)
            nodes[nd].append((ie, tt))
    for nd, terms in enumerate(nodes):
        ps = [ports[x] for x in terms]
        r = net['rot'][nd] % len(ps) if ps else 0
        ps = ps[r:] + ps[:r]
        flip = net['flip'][nd]

        def bond(a, b):
            if flip:
                a, b = b, a
            sys_.bond(place.port(a), place.port(b))
        if len(ps) < 2:
            continue
        style = net['styles'][nd]
        if style == 'conn':
            nm = 'conn%d' % nd
            c = place(nm, E.Connection(N_ports=len(ps)))
            for i, p in enumerate(ps):
                bond(p, getattr(c, 'pe_%d' % i))
        elif style == 'star':
            for p in ps[1:]:
                bond(ps[0], p)
        elif style == 'chain':
            for a, b in zip(ps[:-1], ps[1:]):
                bond(a, b)
        else:
            for i in range(1, len(ps)):
                bond(ps[(i - 1) // 2], ps[i])
    return sys_, els, ports, nodes


def freqs(net):
    return net['F'] if isinstance(net['F'], list) else [net['F']]
