"""Random signal-flow networks: generator, phasor builder and a dense signal-flow-graph oracle.

A network is a list of blocks (each with named inputs and outputs) and a list of wires from outputs to
inputs.  An input carries the sum of what is wired to it; a node is an input and an output in one.
"""
from .core import *

I2PI = 2j * np.pi


def gain():
    return logf(-1, 0.7, signed=True)


@st.composite
def root(draw, real):
    """left-half-plane mostly; in Hz"""
    r = -draw(logf(-1, 3))
    if draw(chance(0.15)):
        r = -r
    return r if real else [r, draw(logf(-1, 3))]


@st.composite
def statespace(draw):
    n, m, p = draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.integers(1, 3))
    v = st.one_of(st.just(0), linf(-3, 3, 60))
    mat = lambda r, c: [[draw(v) for _ in range(c)] for _ in range(r)]
    return dict(A=[[draw(v) * 10 for _ in range(n)] for _ in range(n)], B=mat(n, m), C=mat(p, n), D=mat(p, m))


@st.composite
def block(draw, arrays=False):
    k = draw(st.sampled_from((['ARR', 'ARR'] if arrays else []) + ['G', 'X', 'INT', 'MECH', 'SRF', 'DIST', 'SUM', 'MAT', 'MIMO', 'SS', 'NODE']))
    b = dict(t=k)
    if k == 'G':
        b['g'] = draw(gain())
    elif k in ('X', 'ARR'):
        b.update(g=draw(gain()), fp=draw(logf(-1, 3)))
    elif k == 'MECH':
        b.update(m=draw(logf(-3, 0)), f0=draw(logf(-1, 2)))
        b[draw(st.sampled_from(['q', 'w']))] = draw(logf(-1, 2))
    elif k == 'SRF':
        b.update(g=draw(gain()))
        for n, real in (('pr', True), ('zr', True), ('pc', False), ('zc', False)):
            b[n] = draw(st.lists(root(real), max_size=2))
        b['delay'] = draw(st.one_of(st.just(0), logf(-5, 0)))
        b['gF'] = draw(st.one_of(st.just(0), logf(-1, 3)))
    elif k in ('DIST', 'SUM'):
        b['gs'] = [draw(gain()) for _ in range(draw(st.integers(1, 3)))]
    elif k in ('MAT', 'MIMO'):
        ni, no = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        pairs = draw(st.lists(st.tuples(st.integers(0, ni - 1), st.integers(0, no - 1)).map(list),
                              min_size=1, max_size=5, unique_by=tuple))
        b['x'] = [p + [draw(gain())] + ([draw(logf(-1, 3))] if k == 'MIMO' else []) for p in pairs]
        # only the ports that some pair names exist
        b['ins'] = sorted(set(p[0] for p in pairs))
        b['outs'] = sorted(set(p[1] for p in pairs))
    elif k == 'SS':
        b.update(draw(statespace()))
    return b


def n_in(b):
    return {'SUM': lambda: len(b['gs']), 'MAT': lambda: len(b['ins']), 'MIMO': lambda: len(b['ins']),
            'SS': lambda: len(b['B'][0])}.get(b['t'], lambda: 1)()


def n_out(b):
    return {'DIST': lambda: len(b['gs']), 'MAT': lambda: len(b['outs']), 'MIMO': lambda: len(b['outs']),
            'SS': lambda: len(b['C'])}.get(b['t'], lambda: 1)()


@st.composite
def network(draw, max_blocks=6, arrays=False):
    bl = [draw(block(arrays)) for _ in range(draw(st.integers(1, max_blocks)))]
    ins = [(i, k) for i, b in enumerate(bl) for k in range(n_in(b))]
    outs = [(i, k) for i, b in enumerate(bl) for k in range(n_out(b))]
    wires = draw(st.lists(st.tuples(st.sampled_from(outs), st.sampled_from(ins)), min_size=len(bl) - 1,
                          max_size=3 * len(bl), unique=True))
    # nodes cannot be wired to nodes
    wires = [(o, i) for o, i in wires if not (bl[o[0]]['t'] == 'NODE' and bl[i[0]]['t'] == 'NODE')]
    return dict(blocks=bl, wires=[[list(o), list(i), draw(st.booleans())] for o, i in wires])


def zpk(b, f):
    h = 1.0 + 0j
    for r in b['zr']:
        h = h * (1 - 1j * f / r)
    for r in b['pr']:
        h = h / (1 - 1j * f / r)
    for r in b['zc']:
        for c in (C(r), C(r).conjugate()):
            h = h * (1 - 1j * f / c)
    for r in b['pc']:
        for c in (C(r), C(r).conjugate()):
            h = h / (1 - 1j * f / c)
    return h


def siso(b, f):
    k = b['t']
    if k == 'G':
        return b['g']
    if k in ('X', 'ARR'):
        return b['g'] / (1 + 1j * f / b['fp'])
    if k == 'INT':
        return 1j / f               # phasor's sign and scale
    if k == 'MECH':
        w = b['w'] if 'w' in b else b['f0'] / b['q']
        return 1 / (b['m'] * (2 * np.pi) ** 2) / (b['f0'] ** 2 - f * f + 1j * w * f)
    if k == 'SRF':
        h = b['g'] * zpk(b, f) * np.exp(-I2PI * f * b['delay'])
        return h / abs(zpk(b, b['gF'])) if b['gF'] else h
    if k == 'NODE':
        return 1
    raise KeyError(k)


def matrix(b, f):
    """outputs x inputs"""
    k = b['t']
    if k == 'DIST':
        return np.array(b['gs'], complex).reshape(-1, 1)
    if k == 'SUM':
        return np.array(b['gs'], complex).reshape(1, -1)
    if k in ('MAT', 'MIMO'):
        M = np.zeros((len(b['outs']), len(b['ins'])), complex)
        for p in b['x']:
            M[b['outs'].index(p[1]), b['ins'].index(p[0])] = p[2] / (1 + 1j * f / p[3]) if k == 'MIMO' else p[2]
        return M
    if k == 'SS':
        A, B, Cm, D = [np.array(b[n], float) for n in 'ABCD']
        return Cm @ np.linalg.inv(I2PI * f * np.eye(len(A)) - A) @ B + D
    return np.array([[siso(b, f)]], complex)


class Oracle(object):
    """index ports ('i', block, k) and ('o', block, k); a node is the one port ('o', block, 0)"""
    def __init__(self, net):
        self.net = net
        self.ports = []
        for i, b in enumerate(net['blocks']):
            if b['t'] != 'NODE':
                self.ports += [('i', i, k) for k in range(n_in(b))]
            self.ports += [('o', i, k) for k in range(n_out(b))]
        self.ix = dict((p, n) for n, p in enumerate(self.ports))

    def pid(self, side, i, k):
        return self.ix[('o' if self.net['blocks'][i]['t'] == 'NODE' else side, i, k)]

    def inverse(self, f, zeroed=()):
        """None if the loop is close to singular"""
        n = len(self.ports)
        M = np.zeros((n, n), complex)
        for i, b in enumerate(self.net['blocks']):
            if b['t'] == 'NODE' or i in zeroed:
                continue
            m = matrix(b, f)
            if not np.all(np.isfinite(m)) or maxabs(m) > 1e6 or (b['t'] == 'SS' and np.linalg.cond(
                    I2PI * f * np.eye(len(b['A'])) - np.array(b['A'], float)) > 1e5):
                return None
            for o in range(m.shape[0]):
                for k in range(m.shape[1]):
                    M[self.ix[('o', i, o)], self.ix[('i', i, k)]] += m[o, k]
        for o, i, _ in self.net['wires']:
            M[self.pid('i', *i), self.pid('o', *o)] += 1
        A = np.eye(n) - M
        if np.linalg.cond(A) > 1e7:
            return None
        return np.linalg.inv(A)


def element(b, S, **kw):
    k = b['t']
    pick = lambda idx: idx
    if k == 'G':
        return S.Gain(gain=b['g'], **kw)
    if k == 'X':
        return S.TransferFunctionSISO(filter_func=lambda f: siso(b, f), **kw)
    if k == 'INT':
        return S.Integrator(**kw)
    if k == 'MECH':
        d = dict(FWHM_Hz=b['w']) if 'w' in b else dict(q_factor=b['q'])
        return S.TransferFunctionSISOMechSingleResonance(mass_kg=b['m'], center_Hz=b['f0'], **dict(d, **kw))
    if k == 'SRF':
        return S.SRationalFilter(poles_r=tuple(b['pr']), zeros_r=tuple(b['zr']), poles_c=tuple(C(r) for r in b['pc']),
                                 zeros_c=tuple(C(r) for r in b['zc']), gain=b['g'], delay_s=b['delay'],
                                 gain_F_Hz=b['gF'], **kw)
    if k == 'DIST':
        return S.DistributionAmplifier(port_gains=dict(('q%d' % i, g) for i, g in enumerate(b['gs'])))
    if k == 'SUM':
        return S.SummingAmplifier(port_gains=dict(('q%d' % i, g) for i, g in enumerate(b['gs'])))
    if k == 'MAT':
        return S.MatrixAmplifier(port_pair_gains=dict((('a%d' % p[0], 'b%d' % p[1]), p[2]) for p in b['x']))
    if k == 'MIMO':
        fn = lambda p: (lambda f: p[2] / (1 + 1j * f / p[3]))
        return S.TransferFunctionMIMO(port_pair_xfers=dict((('a%d' % p[0], 'b%d' % p[1]), fn(p)) for p in b['x']), **kw)
    if k == 'SS':
        A, B, Cm, D = [np.array(b[n], float) for n in 'ABCD']
        return S.StateSpaceModel(A=A, B=B, C=Cm, D=D, names_in=['u%d' % i for i in range(B.shape[1])],
                                 names_out=['y%d' % i for i in range(Cm.shape[0])], **kw)
    if k == 'NODE':
        return S.SignalNode()
    raise KeyError(k)


def inport(b, el, k):
    t = b['t']
    if t == 'SUM':
        return getattr(el, 'q%d' % k)
    if t in ('MAT', 'MIMO'):
        return el.ps_In['a%d' % b['ins'][k]]
    if t == 'SS':
        return el.ports_in[k]
    return el if t == 'NODE' else el.ps_In


def outport(b, el, k):
    t = b['t']
    if t == 'DIST':
        return getattr(el, 'q%d' % k)
    if t in ('MAT', 'MIMO'):
        return el.O['b%d' % b['outs'][k]]
    if t == 'SS':
        return el.ports_out[k]
    return el if t == 'NODE' else el.ps_Out


class Built(object):
    pass


def build(net, F, order=None, extra=None, sysargs=None):
    import phasor.signals as S
    import phasor.system as system
    s = system.BGSystem(F_AC=np.asarray(F) if isinstance(F, list) else F, **(sysargs or {}))
    b = Built()
    b.sys = s
    b.S = S
    bl = net['blocks']
    els = {}
    for i in (order if order is not None else range(len(bl))):
        # every other node lives in a container, the others directly in the system
        home = s
        if bl[i]['t'] == 'NODE' and i % 2:
            setattr(s.own, 'c%d' % i, S.SignalElementBase())
            home = getattr(s, 'c%d' % i)
        if bl[i]['t'] == 'ARR':
            # a response known at the frequencies of the system only
            vals = siso(bl[i], np.asarray(F) if isinstance(F, list) else F)
            kw = [{}, dict(F_AC=s.F_AC), dict(gain_arrayC=np.conj(vals))][i % 3]
            setattr(home.own, 'b%d' % i, S.TFACArray(gain_array=vals, **kw))
            els[i] = getattr(home, 'b%d' % i)
            continue
        setattr(home.own, 'b%d' % i, element(bl[i], S, **((extra or {}).get(i, {}))))
        els[i] = getattr(home, 'b%d' % i)
    b.els = els
    b.inp = lambda i, k: inport(bl[i], els[i], k)
    b.outp = lambda i, k: outport(bl[i], els[i], k)
    for o, i, flip in net['wires']:
        p, q = b.outp(*o), b.inp(*i)
        if flip:
            q.bond(p)
        else:
            p.bond(q)
    b.key = lambda p: b.inp(p[1], p[2]).i if p[0] == 'i' else b.outp(p[1], p[2]).o
    return b
