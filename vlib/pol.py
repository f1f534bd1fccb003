"""Random networks of every passive optical element (mirrors, polarizing and harmonic mirrors,
beamsplitters, rotators, Faraday rotators, wave plates, circulators, selectors) and a dense
Jones-calculus oracle, one field per port, polarization and carrier.

  els:   [{k: kind, ...}]
  links: [{p: [el, port], q: [el, port], L, det, mod, pd, flip}]
  ends:  [{p: [el, port], kind: las|pd|vac|open, L, det, mod, ...}]
Carriers are multiples (1 or 2) of 1064 nm light.
"""
import math
from .core import *

C_M_S = 299792458.
H_JS = 6.62607004e-34
LAM = 1064e-9
POLS = ['S', 'P']
ANGLES = [0, 90, -90, 180, -180, 270, -270, 45, 22.5, 30, -17, 135]


@st.composite
def mir(draw, loss):
    m = dict(T=draw(st.sampled_from([0.5, 0.5, 0.2, 0.8, 0.0, 1.0, 0.05])), flip=draw(st.booleans()), L=0)
    if loss and draw(chance(0.3)):
        m['L'] = draw(st.sampled_from([0.1, 0.02]))
        m['T'] = min(m['T'], 0.85)
        if draw(chance(0.3)):
            m['Lt'] = min(draw(st.sampled_from([0.05, 0.01])), m['T'])
    if draw(chance(0.25)):
        m['ph'] = draw(linf(-3, 3, 60))
    return m


@st.composite
def element(draw, kinds, loss=False):
    k = draw(st.sampled_from(kinds))
    e = dict(k=k)
    if k == 'mir':
        e.update(draw(mir(loss)), a=draw(st.sampled_from([0, 45, 45, 30])))
        if e['a'] and 'ph' not in e and e['T'] + e['L'] < 0.9 and draw(chance(0.3)):
            e['bs'] = draw(st.sampled_from([0.05, 0.01]))
    elif k in ('pm', 'hm'):
        e.update(a=draw(st.sampled_from([0, 45, 45])), m=[draw(mir(loss)), draw(mir(loss))])
    elif k == 'pbs':
        e.update(ps=draw(st.sampled_from('SP')), sel=draw(st.sampled_from([0, 0, 0.1])), rej=draw(st.sampled_from([0, 0, 0.2])))
    elif k in ('rot', 'far', 'hwp', 'qwp'):
        e['deg'] = draw(st.sampled_from(ANGLES))
    elif k == 'wp':
        e['ph'] = [draw(linf(-3, 3, 60)), draw(linf(-3, 3, 60))]
    elif k == 'circ':
        e['N'] = draw(st.sampled_from([2, 3, 3, 4]))
    return e


def ports_of(e):
    k = e['k']
    if k in ('mir', 'pm', 'hm'):
        return ['po_FrA', 'po_FrB', 'po_BkA', 'po_BkB'] if e['a'] else ['po_Fr', 'po_Bk']
    if k == 'pbs':
        return ['po_FrA', 'po_FrB', 'po_BkA', 'po_BkB']
    if k == 'circ':
        return ['P%d' % i for i in range(e['N'])]
    if k == 'sel':
        return ['po_Fr', 'Bk_S', 'Bk_P']
    if k == 'psel':
        return ['po_Fr', 'Bk_S', 'Bk_P']
    if k == 'hsel':
        return ['po_Fr', 'Bk_H1', 'Bk_H2']
    return ['po_Fr', 'po_Bk']


ALL = ['mir', 'mir', 'pm', 'pbs', 'rot', 'far', 'hwp', 'qwp', 'wp', 'circ', 'sel', 'psel']
HARM = ['mir', 'hm', 'hm', 'hsel', 'circ', 'rot', 'wp']


@st.composite
def network(draw, kinds=ALL, max_els=5, loss=False, lasers=3, pds=8, harmonics=False, all_pd=False, mods=False):
    n = draw(st.integers(1, max_els))
    els = [draw(element(kinds, loss)) for _ in range(n)]
    ports = [[i, p] for i in range(n) for p in ports_of(els[i])]
    perm = list(draw(st.permutations(ports)))
    pairs = []
    if draw(chance(0.85)):      # connect every element to an earlier one
        for i in range(1, n):
            old = [p for p in perm if p[0] < i]
            if not old:
                break
            a, b = old[0], [p for p in perm if p[0] == i][0]
            perm.remove(a)
            perm.remove(b)
            pairs.append((a, b))
    for _ in range(draw(st.integers(0, max(0, min(2, (len(perm) - 2) // 2))))):
        pairs.append((perm.pop(), perm.pop()))

    def seg():
        d = dict(L=draw(st.sampled_from([0, 0, 1, 300.0])), det=0)
        if d['L']:
            d['det'] = float('%.6g' % (draw(linf(-0.5, 0.5, 20)) * LAM))
        if mods and draw(chance(0.4)):
            d['mod'] = draw(st.sampled_from(['AM', 'PM']))
        if draw(chance(0.25)):
            d['pd'] = True
        return d
    links, ends = [], []
    for a, b in pairs:
        links.append(dict(seg(), p=a, q=b, flip=draw(st.booleans())))
    rest = perm
    nlas = draw(st.integers(1, max(1, min(lasers, len(rest) - 1))))
    for j, p in enumerate(rest):
        d = dict(seg(), p=p)
        if j < nlas:
            d.update(kind='las', P=draw(st.sampled_from([1.0, 2.0, 0.5])), s=draw(st.sampled_from('SP')),
                     c=draw(st.sampled_from([1, 2])) if harmonics else 1, ph=draw(st.sampled_from([0, 0, 1.1, -2.3])))
        elif all_pd or draw(chance(0.85)):
            d['kind'] = 'pd'
        elif draw(st.booleans()):
            d['kind'] = 'vac'
        else:
            d = dict(p=p, kind='open', L=0, det=0)
        ends.append(d)
    return dict(els=els, links=links, ends=ends, order=draw(st.permutations(list(range(n + len(links) + len(ends))))))


# ---------------------------------------------------------------- build

class Built(object):
    pass


def make(e, O):
    k = e['k']
    if isinstance(e.get('deg'), list):
        e = dict(e, deg=np.array(e['deg']))
    def M(m, **kw):
        for key, name in (('Lt', 'L_t'), ('bs', 'R_backscatter'), ('ph', 'phase_rad')):
            if key in m:
                kw[name] = m[key]
        return O.Mirror(T_hr=m['T'], L_hr=m['L'], flip_sign=m['flip'], **kw)
    if k == 'mir':
        return M(e, AOI_deg=e['a'])
    if k == 'pm':
        return O.PolarizingMirror(mirror_S=M(e['m'][0]), mirror_P=M(e['m'][1]), AOI_deg=e['a'])
    if k == 'hm':
        return O.HarmonicMirror(mirror_H1=M(e['m'][0]), mirror_H2=M(e['m'][1]), AOI_deg=e['a'])
    if k == 'pbs':
        from phasor.optics.polarization import PolarizingBeamsplitter
        return PolarizingBeamsplitter(pass_polarization=e['ps'], selection_defect=e['sel'], rejection_defect=e['rej'])
    if k == 'rot':
        return O.PolarizationRotator(rotate_deg=e['deg'])
    if k == 'far':
        return O.FaradayRotator(rotate_deg=e['deg'])
    if k == 'hwp':
        return O.HalfWavePlate(rotate_deg=e['deg'])
    if k == 'qwp':
        return O.QuarterWavePlate(rotate_deg=e['deg'])
    if k == 'wp':
        return O.WavePlate(cplgS=complex(np.exp(1j * e['ph'][0])), cplgP=complex(np.exp(1j * e['ph'][1])))
    if k == 'circ':
        return O.OpticalCirculator(N_ports=e['N'])
    if k == 'sel':
        return O.PolarizingSelector()
    if k == 'psel':
        from phasor.optics.selectors import PolSelector
        return PolSelector()
    if k == 'hsel':
        return O.HarmonicSelector()
    if k == 'xtal':
        return O.NonlinearCrystal(nlg=e['g'] / e['mm'], length_mm=e['mm'], N_ode=e['N'])
    raise ValueError(k)


def build(net, freq=None, tail=None, **kw):
    from phasor import system, optics as O
    if freq is not None:
        kw['F_AC'] = np.array(freq) if isinstance(freq, list) else freq
    s = system.BGSystem(**kw)
    b = Built()
    b.sys, b.pds, b.mods = s, {}, {}
    els, segs, heads = {}, {}, {}

    def own(name, obj):
        setattr(s.own, name, obj)
        return getattr(s, name)
    b.own = own

    def seg(tag, d):
        q = []
        if d.get('mod'):
            b.mods[tag] = own('mod_' + tag, (O.AM if d['mod'] == 'AM' else O.PM)())
            q.append(b.mods[tag])
        if np.any(d['L']) or np.any(d['det']):
            q.append(own('sp_' + tag, O.Space(L_m=d['L'], L_detune_m=d['det'])))
        if d.get('pd'):
            b.pds[tag] = own('mp_' + tag, O.MagicPD())
            q.append(b.pds[tag])
        segs[tag] = q
    n, L = len(net['els']), len(net['links'])
    for t in net['order']:
        if t < n:
            els[t] = own('x%d' % t, make(net['els'][t], O))
        elif t < n + L:
            seg('l%d' % (t - n), net['links'][t - n])
        else:
            j = t - n - L
            d = net['ends'][j]
            if d['kind'] == 'open':
                continue
            seg('e%d' % j, d)
            if d['kind'] == 'las':
                heads[j] = own('las%d' % j, O.Laser(F=s.F_carrier_1064, multiple=d['c'], power_W=d['P'], polarization=d['s'],
                                                    phase_rad=d['ph']))
            elif d['kind'] == 'pd':
                heads[j] = b.pds['E%d' % j] = own('pd%d' % j, O.PD())
            else:
                heads[j] = own('vac%d' % j, O.VacuumTerminator())
    port = lambda p: getattr(els[p[0]], p[1])
    for j, d in enumerate(net['links']):
        ps = [port(d['p'])]
        for o in segs['l%d' % j]:
            ps += [o.po_Fr, o.po_Bk]
        ps.append(port(d['q']))
        pairs = [(ps[2 * k], ps[2 * k + 1]) for k in range(len(ps) // 2)]
        for x, y in pairs:
            s.bond(*((y, x) if d['flip'] else (x, y)))
    for j, d in enumerate(net['ends']):
        if d['kind'] == 'open':
            continue
        cur = port(d['p'])
        for o in segs['e%d' % j] + (tail(b, j, d) if tail else []):
            s.bond(cur, o.po_Fr)
            cur = o.po_Bk
        s.bond(cur, heads[j].po_Fr)
    return b


# ---------------------------------------------------------------- oracle

def rot(deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return np.array([[c, -s], [s, c]])      # rows: out S, P


def jones(e, c):
    """{(from, to): 2x2 Jones matrix} for carrier multiple c"""
    k = e['k']
    I, Z = np.eye(2), np.zeros((2, 2))
    PS, PP = np.diag([1, 0]), np.diag([0, 1])
    P = ports_of(e)
    out = {}

    def mirror(a, pairs):
        """pairs: [(projector, mirror)]"""
        if a:
            tr = [('po_FrA', 'po_BkA'), ('po_BkA', 'po_FrA'), ('po_FrB', 'po_BkB'), ('po_BkB', 'po_FrB')]
            rf = [('po_FrA', 'po_FrB', 1), ('po_FrB', 'po_FrA', 1), ('po_BkA', 'po_BkB', -1), ('po_BkB', 'po_BkA', -1)]
        else:
            tr = [('po_Fr', 'po_Bk'), ('po_Bk', 'po_Fr')]
            rf = [('po_Fr', 'po_Fr', 1), ('po_Bk', 'po_Bk', -1)]
        for pr, m in pairs:
            t = math.sqrt(max(m['T'] - m.get('Lt', 0), 0))
            r = math.sqrt(max(1 - m['T'] - m['L'] - m.get('bs', 0), 0)) * (-1 if m['flip'] else 1)
            for x, y in tr:
                out[x, y] = out.get((x, y), Z) + t * pr
            for x, y, s in rf:
                out[x, y] = out.get((x, y), Z) + s * r * np.exp(1j * s * m.get('ph', 0)) * pr
            if m.get('bs', 0):
                rb = math.sqrt(m['bs']) * (-1 if m['flip'] else 1)
                for x, s in (('po_FrA', 1), ('po_FrB', -1), ('po_BkA', -1), ('po_BkB', 1)):
                    out[x, x] = out.get((x, x), Z) + s * rb * pr
    if k == 'mir':
        mirror(e['a'], [(I, e)])
    elif k == 'pm':
        mirror(e['a'], [(PS, e['m'][0]), (PP, e['m'][1])])
    elif k == 'hm':
        mirror(e['a'], [(I, e['m'][c - 1])])
    elif k == 'pbs':
        sel = dict(T=1 - e['sel'], L=0, flip=False)
        rej = dict(T=e['rej'], L=0, flip=False)
        mirror(45, [(PS, sel if e['ps'] == 'S' else rej), (PP, sel if e['ps'] == 'P' else rej)])
    elif k == 'rot':
        out['po_Fr', 'po_Bk'] = rot(e['deg'])
        out['po_Bk', 'po_Fr'] = rot(-e['deg'])
    elif k == 'far':
        out['po_Fr', 'po_Bk'] = out['po_Bk', 'po_Fr'] = rot(e['deg'])
    elif k in ('hwp', 'qwp'):
        D = np.diag([1, -1 if k == 'hwp' else 1j])
        out['po_Fr', 'po_Bk'] = out['po_Bk', 'po_Fr'] = rot(-e['deg']).dot(D).dot(rot(e['deg']))
    elif k == 'wp':
        out['po_Fr', 'po_Bk'] = out['po_Bk', 'po_Fr'] = np.diag(np.exp(1j * np.array(e['ph'])))
    elif k == 'circ':
        for i in range(e['N']):
            out[P[i], P[(i + 1) % e['N']]] = I
    elif k in ('sel', 'psel'):
        for b, pr in (('Bk_S', PS), ('Bk_P', PP)):
            out['po_Fr', b] = pr
            out[b, 'po_Fr'] = pr
    elif k == 'hsel':
        b = 'Bk_H%d' % c
        out['po_Fr', b] = out[b, 'po_Fr'] = I
    return out


class Oracle(object):
    def __init__(self, net):
        self.net = net
        self.idx = {}
        for i, e in enumerate(net['els']):
            for p in ports_of(e):
                for s in POLS:
                    self.idx[i, p, s] = len(self.idx)
        self.n = len(self.idx)
        self.S = {}
        self.cond = 0.0
        self.far = {}
        for d in net['links']:
            self.far[tuple(d['p'])] = (tuple(d['q']), d)
            self.far[tuple(d['q'])] = (tuple(d['p']), d)
        self.carr = sorted(set(d['c'] for d in net['ends'] if d['kind'] == 'las'))
        for c in self.carr:
            S = np.zeros((self.n, self.n), dtype=complex)
            for i, e in enumerate(net['els']):
                for (x, y), J in jones(e, c).items():
                    for a, sa in enumerate(POLS):
                        for b, sb in enumerate(POLS):
                            S[self.idx[i, y, sb], self.idx[i, x, sa]] += J[b, a]
            self.S[c] = S
        self._inv = {}

    def phase(self, d, c, f):
        return np.exp(-2j * math.pi * (f * d['L'] / C_M_S + d['det'] * c / LAM))

    def inv(self, c, f):
        if (c, f) not in self._inv:
            G = np.zeros((self.n, self.n), dtype=complex)
            for p, (q, d) in self.far.items():
                for s in POLS:
                    G[self.idx[q + (s,)], self.idx[p + (s,)]] = self.phase(d, c, f)
            A = np.eye(self.n) - G.dot(self.S[c])
            self.cond = max(self.cond, np.linalg.cond(A))
            self._inv[c, f] = (np.linalg.pinv(A) if self.cond > 1e12 else np.linalg.inv(A)), G
        return self._inv[c, f]

    def fields(self):
        """in-wave vector per carrier"""
        out = {}
        for c in self.carr:
            b = np.zeros(self.n, dtype=complex)
            for d in self.net['ends']:
                if d['kind'] == 'las' and d['c'] == c:
                    b[self.idx[tuple(d['p']) + (d['s'],)]] += math.sqrt(d['P']) * np.exp(1j * d['ph']) * self.phase(d, c, 0)
            out[c] = self.inv(c, 0)[0].dot(b)
        return out

    def taps(self):
        r = {}
        for kind, l in (('l', self.net['links']), ('e', self.net['ends'])):
            for j, d in enumerate(l):
                if d.get('pd'):
                    r['%s%d' % (kind, j)] = d
                if d.get('kind') == 'pd':
                    r['E%d' % j] = d
        return r

    def at(self, tag, d, c, y, f):
        """fields (S, P) at a detector given out-waves y"""
        return np.array([y[self.idx[tuple(d['p']) + (s,)]] for s in POLS]) * self.phase(d, c, f)

    def misrouted(self, E):
        """light of the other polarization (harmonic) enters a selected port: selectors are idealised
        and only specified for light that matches the port"""
        for i, e in enumerate(self.net['els']):
            for c, x in E.items():
                amp = lambda p, s: abs(x[self.idx[i, p, s]])
                if e['k'] in ('sel', 'psel') and amp('Bk_S', 'P') + amp('Bk_P', 'S') > 1e-9:
                    return True
                if e['k'] == 'hsel' and any(amp('Bk_H%d' % (3 - c), s) > 1e-9 for s in POLS):
                    return True
        return False

    def powers(self, percarrier=False):
        E = self.fields()
        if self.misrouted(E):
            return {}
        P = {}
        for tag, d in self.taps().items():
            v = [np.sum(np.abs(self.at(tag, d, c, self.S[c].dot(x), 0)) ** 2) for c, x in E.items()]
            P[tag] = dict(zip(E, v)) if percarrier else sum(v)
        return P

    def response(self, f, mtag):
        """d(power at detector)/d(drive of the modulator in segment mtag)"""
        l = self.net['links'] if mtag[0] == 'l' else self.net['ends']
        md = l[int(mtag[1:])]
        ca, cb = (0.5, 0.5) if md['mod'] == 'AM' else (0.5j, -0.5j)
        out = dict((t, 0.0) for t in self.taps())
        for c, E in self.fields().items():
            y = self.S[c].dot(E)
            sa = np.zeros(self.n, dtype=complex)
            sb = np.zeros(self.n, dtype=complex)
            ta, tb = {}, {}
            for s in POLS:
                p = self.idx[tuple(md['p']) + (s,)]
                if mtag[0] == 'l':
                    q = self.idx[tuple(md['q']) + (s,)]
                    sa[q] += ca * y[p] * self.phase(md, c, f)
                    sb[q] += cb * np.conj(y[p] * self.phase(md, c, -f))
                    g0 = self.phase(md, c, 0)
                    sa[p] += ca * y[q] * g0
                    sb[p] += cb * np.conj(y[q] * g0)
                elif md['kind'] == 'las' and md['c'] == c and md['s'] == s:
                    amp = math.sqrt(md['P']) * np.exp(1j * md['ph']) * self.phase(md, c, 0)
                    sa[p] += ca * amp
                    sb[p] += cb * np.conj(amp)
            Ma, Mb = self.inv(c, f)[0], np.conj(self.inv(c, -f)[0])
            ya = self.S[c].dot(Ma.dot(sa))
            yb = np.conj(self.S[c]).dot(Mb.dot(sb))
            for tag, d in self.taps().items():
                for s in POLS:
                    i = self.idx[tuple(d['p']) + (s,)]
                    a, b = ya[i], yb[i]
                    if d is md:
                        a = a + ca * y[i]
                        b = b + cb * np.conj(y[i])
                    e0 = y[i] * self.phase(d, c, 0)
                    out[tag] = out[tag] + np.conj(e0) * a * self.phase(d, c, f) + e0 * b * np.conj(self.phase(d, c, -f))
        return out
