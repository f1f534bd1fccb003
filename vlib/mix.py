"""Random feed-forward networks of generators, mixers, modulators and filters, and an oracle that
multiplies real signals as sums of complex exponentials.

A signal is a dict {(n1, n2, m): c}: the coefficient of exp(+2 pi i (n1 F1 + n2 F2 + m F_AC) t).  phasor's
amplitudes are 2c away from zero frequency and c at zero frequency.  Only m in (-1, 0, 1), first order.
"""
from .core import *
from . import sig

MAXORD = 4


@st.composite
def network(draw, max_blocks=6, kinds=None, swept=False):
    """blocks in topological order; each input lists the earlier outputs it sums"""
    F1 = draw(logf(4, 6))
    ratio = draw(st.sampled_from([0.618034, 1.324718, 3.7, 0.137]))
    # the number of lines a port may carry grows quickly with the orders
    two = draw(st.booleans())
    ords = list(draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2)]))) if two else [draw(st.integers(1, MAXORD)), 1]
    max_blocks = min(max_blocks, 4) if two or ords[0] > 3 else max_blocks
    bl = []
    for _ in range(draw(st.integers(1, 3))):
        n1, n2 = draw(st.sampled_from([(1, 0), (0, 1), (1, 0), (0, 1), (1, 1), (2, 0), (-1, 1), (2, -1)] if two else
                                      [(1, 0), (1, 0), (2, 0), (3, 0)]))
        bl.append(dict(t='GEN', n=[n1, n2], a=draw(cplx(2)), ph=draw(st.one_of(st.just(0), linf(-180, 180, 72))),
                       H=[[k, draw(cplx(2))] for k in draw(st.lists(st.integers(1, 3), max_size=2, unique=True))], ins=[]))
    outs = [(i, k) for i, b in enumerate(bl) for k in range(nout(b))]
    for _ in range(draw(st.integers(1, max_blocks))):
        t = draw(st.sampled_from(kinds or ['G', 'X', 'MIX', 'MIX', 'MOD', 'MOD', 'SUM', 'MS', 'H2', 'BP']))
        b = dict(t=t)
        if t == 'G':
            b['g'] = draw(sig.gain())
        if t in ('X', 'BP'):
            b.update(g=draw(sig.gain()), fp=draw(logf(3, 7)))
        if t == 'BP':
            b.update(dict([draw(st.one_of(st.tuples(st.just('hi'), logf(3, 7)), st.tuples(st.just('lo'), logf(3, 7)),
                                          st.just(('dc', 1))))]))
        if t == 'MOD':
            b['ph'] = draw(st.one_of(st.just(0), linf(-180, 180, 72)))
        if t == 'SUM':
            b['gs'] = [draw(sig.gain()), draw(sig.gain())]
        src = lambda lo, hi: [list(x) for x in draw(st.lists(st.sampled_from(outs), min_size=lo, max_size=hi, unique=True))]
        if t == 'MOD':
            b['ins'] = [src(1, 2), src(0, 2), src(0, 2), src(0, 1)]
        elif t == 'MIX':
            b['ins'] = [src(1, 2), src(0, 2)]
        elif t == 'SUM':
            b['ins'] = [src(1, 1), src(0, 2)]
        else:
            b['ins'] = [src(1, 2)]
        bl.append(b)
        outs += [(len(bl) - 1, k) for k in range(nout(b))]
    return dict(F1=F1, ratio=ratio, ords=ords, blocks=bl, order=list(draw(st.permutations(range(len(bl))))))


def nout(b):
    return 1 + len(b['H']) if b['t'] == 'GEN' else 2 if b['t'] == 'MIX' else 1


def add(*ss):
    o = {}
    for s in ss:
        for k, v in s.items():
            o[k] = o.get(k, 0) + v
    return o


def scale(s, fn):
    o = {}
    for k, v in s.items():
        w = fn(k)
        if w is not None:
            o[k] = v * w
    return o


class Oracle(object):
    def __init__(self, net, Fac, center=1000.0):
        self.net, self.Fac, self.center = net, Fac, center
        self.F = (net['F1'], net['F1'] * net['ratio'])
        self.ords = list(net['ords']) + [2]

    def f(self, k, ac=None):
        return k[0] * self.F[0] + k[1] * self.F[1] + k[2] * (self.Fac if ac is None else ac)

    def sgn(self, k):
        return float(np.sign(self.f(k)))

    def fc(self, k):
        return self.f(k, self.center)

    def ok(self, k):
        return all(abs(a) <= b for a, b in zip(k, self.ords))

    def mul(self, x, y):
        """of the signals (static and first-order parts), dropping harmonics beyond the declared orders"""
        o = {}
        for k1, v1 in x.items():
            for k2, v2 in y.items():
                k = tuple(a + b for a, b in zip(k1, k2))
                if abs(k1[2]) + abs(k2[2]) > 1 or not self.ok(k):
                    continue
                o[k] = o.get(k, 0) + v1 * v2
        return o

    def block(self, b, ins):
        """list of outputs"""
        t = b['t']
        if t == 'GEN':
            out = []
            for h, a in [(1, C(b['a']))] + [(h, C(a)) for h, a in b['H']]:
                c = a * np.exp(1j * np.radians(h * b['ph'])) / 2
                n = tuple(h * x for x in b['n']) + (0,)
                out.append(add({n: c}, {tuple(-x for x in n): c.conjugate()}))
            return out
        if t == 'G':
            return [scale(ins[0], lambda k: b['g'])]
        if t in ('X', 'BP'):
            def H(k):
                fc = abs(self.fc(k))
                if fc > b.get('hi', np.inf) or fc < b.get('lo', 0) or (b.get('dc') and fc == 0):
                    return None
                return b['g'] / (1 + 1j * self.f(k) / b['fp'])
            return [scale(ins[0], H)]
        if t == 'SUM':
            return [add(scale(ins[0], lambda k: b['gs'][0]), scale(ins[1], lambda k: b['gs'][1]))]
        if t == 'MIX':
            lo, sg = ins
            return [self.mul(lo, sg), self.mul(scale(lo, lambda k: 1j * self.sgn(k)), sg)]
        if t == 'MOD':
            car, am, pm, fm = ins
            rot = scale(car, lambda k: np.exp(1j * np.radians(b['ph']) * np.sign(self.fc(k))))
            pm = add(pm, scale(fm, lambda k: None if self.fc(k) == 0 else 1j / self.f(k)))
            quad = scale(rot, lambda k: 1j * self.sgn(k))
            return [add(rot, self.mul(rot, am), self.mul(quad, pm))]
        if t == 'MS':
            s = ins[0]
            v = sum(abs(c) ** 2 for k, c in s.items() if k[2] == 0 and self.ok(k))
            return [{(0, 0, 0): v}]
        if t == 'H2':
            o = {}
            for k1, v1 in ins[0].items():
                for k2, v2 in ins[0].items():
                    if self.fc(k1) * self.fc(k2) > 0 and abs(k1[2]) + abs(k2[2]) < 2:
                        k = tuple(a + c for a, c in zip(k1, k2))
                        if self.ok(k):
                            o[k] = o.get(k, 0) + 2 * v1 * v2
            return [o]
        raise KeyError(t)

    def run(self, inject=None):
        """inject: {(block, input): signal added there}; returns {('i', b, k): .., ('o', b, k): ..}"""
        val = {}
        for i, b in enumerate(self.net['blocks']):
            ins = []
            for k, src in enumerate(b['ins']):
                s = add(*[val['o', j, q] for j, q in src])
                if inject and (i, k) in inject:
                    s = add(s, inject[i, k])
                val['i', i, k] = s
                ins.append(s)
            for q, o in enumerate(self.block(b, ins)):
                val['o', i, q] = o
        return val

    @staticmethod
    def amp(s, k):
        return s.get(k, 0) * (1 if k == (0, 0, 0) else 2)


def build(net, Fac):
    import phasor.signals as S
    import phasor.system as system
    from phasor import base
    s = system.BGSystem(F_AC=np.asarray(Fac) if isinstance(Fac, list) else Fac)
    s.own.F1 = base.Frequency(F_Hz=net['F1'], order=net['ords'][0])
    s.own.F2 = base.Frequency(F_Hz=net['F1'] * net['ratio'], order=net['ords'][1])
    b = sig.Built()
    b.sys = s
    b.S = S
    b.els = {}
    bl = net['blocks']
    for i in net['order']:
        q = bl[i]
        t = q['t']
        if t == 'GEN':
            fd = dict((f, n) for f, n in zip((s.F1, s.F2), q['n']) if n)
            a = C(q['a'])
            if len(fd) == 1:
                (f, n), = fd.items()
                kw = dict(F=f, multiple=n)
            else:
                kw = dict(f_dict=fd)
            el = S.SignalGenerator(amplitude=a, phase_deg=q['ph'], harmonic_gains=dict((h, C(g)) for h, g in q['H']), **kw)
        elif t == 'G':
            el = S.Gain(gain=q['g'])
        elif t in ('X', 'BP'):
            kw = {}
            if 'hi' in q:
                kw['F_cutoff'] = q['hi']
            if 'lo' in q:
                kw['F_cutoff_low'] = q['lo']
            if 'dc' in q:
                kw['no_DC'] = True
            el = S.TransferFunctionSISO(filter_func=lambda f, q=q: q['g'] / (1 + 1j * f / q['fp']), **kw)
        elif t == 'SUM':
            el = S.SummingAmplifier(port_gains=dict(q0=q['gs'][0], q1=q['gs'][1]))
        elif t == 'MIX':
            el = S.Mixer()
        elif t == 'MOD':
            el = S.Modulator(phase_deg=q['ph'])
        elif t == 'MS':
            el = S.MeanSquareMixer()
        elif t == 'H2':
            el = S.Harmonic2Generator()
        setattr(s.own, 'b%d' % i, el)
        b.els[i] = getattr(s, 'b%d' % i)

    def inp(i, k):
        el, t = b.els[i], bl[i]['t']
        if t == 'MIX':
            return (el.ps_LO, el.ps_In)[k]
        if t == 'MOD':
            return (el.ps_In, el.Mod_amp, el.Mod_phase, el.Mod_freq)[k]
        if t == 'SUM':
            return (el.q0, el.q1)[k]
        return el.ps_In

    def outp(i, k):
        el, t = b.els[i], bl[i]['t']
        if t == 'GEN' and k:
            return getattr(el, 'OutH%d' % bl[i]['H'][k - 1][0])
        if t == 'MIX':
            return (el.ps_R_I, el.ps_R_Q)[k]
        return el.MS if t == 'MS' else el.ps_Out
    b.inp, b.outp = inp, outp
    for i in net['order']:
        for k, src in enumerate(bl[i]['ins']):
            for n, (j, q) in enumerate(src):
                if (i + k + n) % 2:
                    outp(j, q).bond(inp(i, k))
                else:
                    inp(i, k).bond(outp(j, q))
    b.key = lambda p: inp(p[1], p[2]).i if p[0] == 'i' else outp(p[1], p[2]).o
    return b
