"""Random optical networks (mirrors, beamsplitters, spaces, lasers, detectors, modulators) and
a dense field oracle: carriers, audio sidebands, radiation force and vacuum noise.

A network is plain data:
  mirrors: [{a: AOI in degrees (0 -> two ports), T, L, Lt, flip, ph, bs, bsph}]
  links:   [{p: [mirror, port], q: [mirror, port], L, det, mod: None|'AM'|'PM', pd: bool}]
  ends:    [{p: [mirror, port], kind: 'vac'|'pd'|'las', L, det, mod, pd, P, ph, c: carrier, s: pol}]
Ports of a two-port mirror: 0 front, 1 back. Of a four-port: 0 FrA, 1 FrB, 2 BkA, 3 BkB.
"""
import math
from .core import *

C_M_S = 299792458.
H_JS = 6.62607004e-34   # phasor's constant is compared with a tolerance
WAVES = [1064e-9, 1550e-9]


def nports(m):
    return 4 if m['a'] else 2


@st.composite
def mirror(draw, loss=True, bs=False, phase=True, bsphase=False):
    a = draw(st.sampled_from([0, 0, 45, 45, 20, 60]))
    T = draw(st.sampled_from([0.5, 0.5, 0.1, 0.3, 0.9, 0.1, 0.01, 0.7, 0.0, 1.0]))
    L = Lt = 0
    if loss and draw(chance(0.4)):
        L = draw(st.sampled_from([0.1, 0.02, 0.3]))
        if draw(chance(0.3)):
            Lt = draw(st.sampled_from([0.05, 0.01, 0.2]))
        T = min(T, round(0.95 * (1 - L), 6))
        Lt = min(Lt, T)
        L = round(L, 9)
    m = dict(a=a, T=T, L=L, Lt=Lt, flip=draw(st.booleans()))
    if phase and draw(chance(0.3)):
        m['ph'] = draw(linf(-3, 3, 60))
    if bs and a and T + L < 0.9 and (bsphase or 'ph' not in m) and draw(chance(0.5)):
        m['bs'] = draw(st.sampled_from([0.05, 0.01]))
        if bsphase and draw(chance(0.5)):
            m['bsph'] = draw(linf(-3, 3, 60))
    return m


def detune(draw, lam=1064e-9):
    return float('%.6g' % (draw(linf(-0.5, 0.5, 40)) * lam))


@st.composite
def network(draw, max_mirrors=4, loss=True, bs=False, phase=True, bsphase=False, mods=False, lasers=3,
            carriers=2, pols=True, pds=2, magic=True, array=True):
    n = draw(st.sampled_from([k for k in range(1, max_mirrors + 1) for _ in range(1 + (k > 1))]))
    ms = [draw(mirror(loss=loss, bs=bs, phase=phase, bsphase=bsphase)) for _ in range(n)]
    ports = [(i, k) for i in range(n) for k in range(nports(ms[i]))]
    perm = draw(st.permutations(ports))
    n_link = draw(st.integers(0, 2 * ((len(perm) - 1) // 2)))
    n_link = min(n_link, (len(perm) - 1) // 2)     # densely linked (interferometers) half of the time
    links, ends = [], []

    def seg():
        d = dict(L=draw(st.sampled_from([0, 1, 1, 4000.0, 10.5])), det=detune(draw))
        if draw(chance(0.25)):
            d['L'] = 0
            d['det'] = 0
        if mods and draw(chance(0.3)):
            d['mod'] = draw(st.sampled_from(['AM', 'PM']))
            if mods == 'all':
                # the combined modulator, and frequency modulation instead of phase modulation
                d['mt'] = draw(st.sampled_from(['', '', 'C', 'F', 'CF'] if d['mod'] == 'PM' else ['', 'C']))
        if magic and draw(chance(0.4)):
            d['pd'] = True
        return d
    for j in range(n_link):
        d = seg()
        d.update(p=list(perm[2 * j]), q=list(perm[2 * j + 1]))
        links.append(d)
    rest = perm[2 * n_link:]
    nl = draw(st.integers(1, max(1, min(lasers, len(rest)))))
    np_ = draw(st.integers(0, pds))
    for j, p in enumerate(rest):
        d = seg()
        d['p'] = list(p)
        if j < nl:
            d.update(kind='las', P=draw(st.sampled_from([1.0, 2.0, 0.5, 10.0])),
                     c=draw(st.integers(0, carriers - 1)), s=draw(st.sampled_from('SSP' if pols else 'S')))
            if draw(chance(0.5)):
                d['ph'] = draw(linf(-3, 3, 60))
        elif j < nl + np_ or (j == nl):
            d['kind'] = 'pd'
        else:
            d['kind'] = 'vac'
            if draw(chance(0.5)):
                d.update(L=None)      # left unbonded: phasor terminates it itself
                d.pop('mod', None)
                d.pop('pd', None)
        ends.append(d)
    net = dict(mirrors=ms, links=links, ends=ends)
    net['order'] = draw(st.permutations(list(range(n + len(links) + len(ends)))))
    net['flips'] = draw(st.lists(st.booleans(), min_size=len(links), max_size=len(links)))
    if array and draw(chance(0.4)):
        # one parameter is swept
        what = draw(st.sampled_from(['det', 'det', 'T', 'ph', 'P', 'L']))
        m = ms[draw(st.integers(0, n - 1))]
        las = [d for d in ends if d['kind'] == 'las']
        if what == 'det' and links:
            d = links[draw(st.integers(0, len(links) - 1))]
            d['det'] = [detune(draw), detune(draw)]
            d['L'] = d['L'] or 1
        elif what == 'T' and not m.get('bs'):
            other = draw(st.sampled_from([0.2, 0.0, 1.0, 1.0, 0.6]))
            if m['L'] or m['Lt']:
                other = max(min(other, round(0.95 * (1 - m['L']), 6)), m['Lt'])
            m['T'] = [m['T'], other][::draw(st.sampled_from([1, -1]))]
        elif what == 'ph':
            m['ph'] = [draw(linf(-3, 3, 60)), draw(st.sampled_from([0.0, 1.5, -2.0]))]
            m.pop('bs', None)
            m.pop('bsph', None)
        elif what == 'L' and m['T'] in (0.1, 0.3, 0.5):
            m['L'] = [0, 0.2]
        elif what == 'P':
            las[0]['P'] = [1.0, draw(st.sampled_from([0.0, 3.0]))]
    return net


def swept(net):
    for d in net['mirrors'] + net['links'] + net['ends']:
        for v in d.values():
            if isinstance(v, list) and v is not d.get('p') and v is not d.get('q'):
                yield v


def arr_len(net):
    for v in swept(net):
        return len(v)
    return None


def arr(x):
    return np.array(x) if isinstance(x, list) else x


def val(x, k):
    return x[k] if isinstance(x, list) else x


# ---------------------------------------------------------------- building

MP = {2: ['po_Fr', 'po_Bk'], 4: ['po_FrA', 'po_FrB', 'po_BkA', 'po_BkB']}


class Built(object):
    pass


def build(net, freq=None, placer=None, last=None, **kw):
    from phasor import system, optics, readouts
    if freq is not None:
        kw['F_AC'] = freq if not isinstance(freq, list) else np.array(freq)
    s = system.BGSystem(**kw)
    b = Built()
    b.sys = s
    own = b.own = (placer or Placer)(s)
    F = [s.F_carrier_1064]
    s.environment.own.F1550 = optics.OpticalFrequency(wavelen_m=WAVES[1], name='F1550')
    F.append(s.environment.F1550)
    b.F = F
    n = len(net['mirrors'])
    b.mirrors = [None] * n
    b.segs = {}
    b.ends = {}
    b.pds = {}
    b.mods = {}
    b.drv = {}

    def mk_mirror(i):
        m = net['mirrors'][i]
        k = dict(T_hr=arr(m['T']), L_hr=arr(m['L']), L_t=m['Lt'], AOI_deg=m['a'], flip_sign=m['flip'])
        if 'ph' in m:
            k['phase_rad'] = arr(m['ph'])
        if 'bs' in m:
            k['R_backscatter'] = m['bs']
        if 'bsph' in m:
            k['backscatter_phase_rad'] = m['bsph']
        b.mirrors[i] = own('m%d' % i, optics.Mirror(**k))

    def mk_seg(tag, d):
        """optical pieces along a segment, in the order met when leaving port p"""
        seq = []
        if d.get('mod'):
            mt = d.get('mt', '')
            b.mods[tag] = own('mod_' + tag, (optics.AMPM if 'C' in mt else optics.AM if d['mod'] == 'AM' else optics.PM)())
            b.drv[tag] = b.mods[tag].DrvFM if 'F' in mt else b.mods[tag].DrvAM if d['mod'] == 'AM' else b.mods[tag].DrvPM
            seq.append(b.mods[tag])
        if d['L'] is not None and (d['L'] != 0 or d['det'] != 0):
            det = arr(d['det'])
            seq.append(own('sp_' + tag, optics.Space(L_m=d['L'], L_detune_m=det)))
        if d.get('pd'):
            b.pds[tag] = own('mpd_' + tag, optics.MagicPD())
            seq.append(b.pds[tag])
            if last and tag == last[0]:
                seq.append(None)
        b.segs[tag] = seq

    def mk_end(j):
        d = net['ends'][j]
        mk_seg('e%d' % j, d)
        if d['kind'] == 'las':
            k = dict(F=F[d['c']], power_W=arr(d['P']), polarization=d['s'])
            if 'ph' in d:
                k['phase_rad'] = arr(d['ph'])
            b.ends[j] = own('las%d' % j, optics.Laser(**k))
        elif d['kind'] == 'pd':
            b.ends[j] = own('pd%d' % j, optics.PD())
            b.pds['E%d' % j] = b.ends[j]
        elif d['L'] is not None:
            b.ends[j] = own('vac%d' % j, optics.VacuumTerminator())

    L = len(net['links'])
    for t in net['order']:
        if t < n:
            mk_mirror(t)
        elif t < n + L:
            mk_seg('l%d' % (t - n), net['links'][t - n])
        else:
            mk_end(t - n - L)

    if last:
        # an element behind the detector `last[0]`, made when everything else exists
        b.hd = own('hd', last[1](b))
        q = b.segs[last[0]]
        q[q.index(None)] = b.hd

    def mport(p):
        return getattr(b.mirrors[p[0]], MP[nports(net['mirrors'][p[0]])][p[1]])
    b.mport = mport
    for j, d in enumerate(net['links']):
        seq = b.segs['l%d' % j]
        ports = [mport(d['p'])]
        for o in seq:
            ports += [o.po_Fr, o.po_Bk]
        ports.append(mport(d['q']))
        pairs = [(ports[2 * k], ports[2 * k + 1]) for k in range(len(ports) // 2)]
        for x, y in (pairs[::-1] if net['flips'][j] else pairs):
            if net['flips'][j]:
                s.bond(own.port(y), own.port(x))
            else:
                s.bond(own.port(x), own.port(y))
    for j, d in enumerate(net['ends']):
        if d['L'] is None:
            continue
        cur = mport(d['p'])
        for o in b.segs['e%d' % j]:
            s.bond(cur, o.po_Fr)
            cur = o.po_Bk
        if d['kind'] in ('las', 'pd', 'vac'):
            s.bond(cur, b.ends[j].po_Fr)
    return b


# ---------------------------------------------------------------- oracle

class Oracle(object):
    """One value of any swept parameter (index k)."""

    def __init__(self, net, k=0):
        self.net = net
        self.k = k
        self.idx = {}
        for i, m in enumerate(net['mirrors']):
            for p in range(nports(m)):
                self.idx[i, p] = len(self.idx)
        self.n = len(self.idx)
        self.S = np.zeros((self.n, self.n), dtype=complex)    # in -> out
        self.refl = np.zeros((self.n, self.n), dtype=complex)  # its reflecting part
        self.loss = np.zeros(self.n)
        self.mod_sign = np.zeros(self.n)
        self.cos = np.zeros(self.n)
        self.Rpow = np.zeros(self.n)
        net = dict(net, mirrors=[dict((q, val(v, k)) for q, v in m.items()) for m in net['mirrors']],
                   ends=[dict((q, v if q == 'p' else val(v, k)) for q, v in d.items()) for d in net['ends']])
        self.net = net
        for i, m in enumerate(net['mirrors']):
            R = max(1 - m['T'] - m['L'] - m.get('bs', 0), 0)
            r = math.sqrt(R) * (-1 if m['flip'] else 1)
            ph = np.exp(1j * m.get('ph', 0))
            t = math.sqrt(max(m['T'] - m['Lt'], 0))
            g = lambda a: self.idx[i, a]
            if nports(m) == 2:
                ent = [(0, 0, r * ph), (1, 1, -r / ph)]
                tr = [(0, 1, t), (1, 0, t)]
                sg = [1, -1]
                bs = []
            else:
                ent = [(0, 1, r * ph), (1, 0, r * ph), (2, 3, -r / ph), (3, 2, -r / ph)]
                tr = [(0, 2, t), (2, 0, t), (1, 3, t), (3, 1, t)]
                sg = [1, 1, -1, -1]
                rb = math.sqrt(m.get('bs', 0)) * (-1 if m['flip'] else 1) * np.exp(1j * m.get('bsph', 0))
                bs = [(0, 0, rb), (1, 1, -rb), (2, 2, -rb), (3, 3, rb)]
            for a, o, v in tr:
                self.S[g(o), g(a)] += v
            for a, o, v in ent + bs:
                self.S[g(o), g(a)] += v
                self.refl[g(o), g(a)] += v
            c = 1.0 if m['a'] == 0 else math.cos(math.radians(m['a']))
            for a in range(nports(m)):
                self.loss[g(a)] = m['L'] + m['Lt']
                self.mod_sign[g(a)] = sg[a]
                self.cos[g(a)] = c
                self.Rpow[g(a)] = R
        self.cond = 0.0
        self.partner = {}
        for j, d in enumerate(net['links']):
            self.partner[self.idx[tuple(d['p'])]] = (self.idx[tuple(d['q'])], d)
            self.partner[self.idx[tuple(d['q'])]] = (self.idx[tuple(d['p'])], d)

    def seg_phase(self, d, lam, f):
        if d['L'] is None:
            return 1.0
        return np.exp(-2j * math.pi * (f * d['L'] / C_M_S + val(d['det'], self.k) / lam))

    def solver(self, lam, f):
        """in-waves = (1 - G S)^-1 sources"""
        G = np.zeros((self.n, self.n), dtype=complex)
        for a, (q, d) in self.partner.items():
            G[q, a] = self.seg_phase(d, lam, f)
        A = np.eye(self.n) - G.dot(self.S)
        self.cond = max(self.cond, np.linalg.cond(A))
        if self.cond > 1e10:
            return None, G
        return np.linalg.inv(A), G

    def carriers(self):
        """{(carrier, pol): in-wave vector}"""
        if hasattr(self, '_car'):
            return self._car
        out = {}
        for d in self.net['ends']:
            if d['kind'] == 'las':
                b = out.setdefault((d['c'], d['s']), np.zeros(self.n, dtype=complex))
                amp = math.sqrt(d['P']) * np.exp(1j * d.get('ph', 0)) * self.seg_phase(d, WAVES[d['c']], 0)
                b[self.idx[tuple(d['p'])]] += amp
        for key in list(out):
            M, G = self.solver(WAVES[key[0]], 0)
            if M is None:
                return None
            out[key] = M.dot(out[key])
        self._car = out
        return out

    def taps(self, lam, f):
        """how each detector reads the out-waves: {pd tag: (out index, factor)}; magic detectors see
        light moving from po_Fr to po_Bk, i.e. away from port p"""
        r = {}
        for j, d in enumerate(self.net['links']):
            if d.get('pd'):
                r['l%d' % j] = (self.idx[tuple(d['p'])], self.seg_phase(d, lam, f))
        for j, d in enumerate(self.net['ends']):
            if d.get('pd'):
                r['e%d' % j] = (self.idx[tuple(d['p'])], self.seg_phase(d, lam, f))
            if d['kind'] == 'pd':
                r['E%d' % j] = (self.idx[tuple(d['p'])], self.seg_phase(d, lam, f))
        return r

    def powers(self):
        car = self.carriers()
        if car is None:
            return None
        P = {}
        for (c, s), x in car.items():
            y = self.S.dot(x)
            for tag, (o, ph) in self.taps(WAVES[c], 0).items():
                P[tag] = P.get(tag, 0.0) + abs(y[o]) ** 2
        for tag in self.taps(WAVES[0], 0):
            P.setdefault(tag, 0.0)
        return P

    # ---- audio sidebands: a = lowering field at +f, b = conjugate of the field at -f

    def field_ops(self, key, f):
        lam = WAVES[key[0]]
        Ma, Ga = self.solver(lam, f)
        Mb, Gb = self.solver(lam, -f)
        if Ma is None or Mb is None:
            return None
        return (Ma, Ga), (np.conj(Mb), np.conj(Gb))

    def response(self, f, drive, kick=None):
        """sidebands per unit drive. drive: ('Z', mirror) | ('mod', tag) -> {key: (a_in, b_in, da_out, db_out)}"""
        res = {}
        for key, E in self.carriers().items():
            lam = WAVES[key[0]]
            ops = self.field_ops(key, f)
            if ops is None:
                return None
            (Ma, Ga), (Mb, Gb) = ops
            qa = np.zeros(self.n, dtype=complex)   # extra out-waves at mirrors
            qb = np.zeros(self.n, dtype=complex)
            sa = np.zeros(self.n, dtype=complex)   # extra in-waves at mirrors
            sb = np.zeros(self.n, dtype=complex)
            tapa, tapb = {}, {}
            if drive[0] == 'Z':
                for p in range(nports(self.net['mirrors'][drive[1]])):
                    a = self.idx[drive[1], p]
                    k = -2 * self.cos[a] * 2 * math.pi / lam * self.mod_sign[a]
                    qa += self.refl[:, a] * (1j * k) * E[a]
                    qb += np.conj(self.refl[:, a] * (1j * k) * E[a])
            else:
                tag = drive[1]
                d = (self.net['links'] if tag[0] == 'l' else self.net['ends'])[int(tag[1:])]
                ca, cb = (0.5, 0.5) if d['mod'] == 'AM' else (0.5j, -0.5j)
                if 'F' in d.get('mt', ''):
                    ca, cb = ca * 1j / f, cb * 1j / f       # the library's integrator
                y = self.S.dot(E)
                p = self.idx[tuple(d['p'])]
                # leaving p: the modulator comes first, then the space
                ga, gb = self.seg_phase(d, lam, f), np.conj(self.seg_phase(d, lam, -f))
                if tag[0] == 'l':
                    q = self.idx[tuple(d['q'])]
                    sa[q] += ca * y[p] * ga
                    sb[q] += cb * np.conj(y[p]) * gb
                    # from q towards p: space first (carrier phase), then modulator
                    g0 = self.seg_phase(d, lam, 0)
                    sa[p] += ca * y[q] * g0
                    sb[p] += cb * np.conj(y[q] * g0)
                elif d['kind'] == 'las':
                    if key == (d['c'], d['s']):
                        amp = math.sqrt(d['P']) * np.exp(1j * d.get('ph', 0)) * self.seg_phase(d, lam, 0)
                        sa[p] += ca * amp
                        sb[p] += cb * np.conj(amp)
                # light leaving through this end is modulated before its detector
                if tag[0] == 'e':
                    tapa[tag] = tapa['E' + tag[1:]] = ca * y[p]
                    tapb[tag] = tapb['E' + tag[1:]] = cb * np.conj(y[p])
                else:
                    tapa[tag] = ca * y[p]
                    tapb[tag] = cb * np.conj(y[p])
            a_in = Ma.dot(sa + Ga.dot(qa))
            b_in = Mb.dot(sb + Gb.dot(qb))
            a_out = self.S.dot(a_in) + qa
            b_out = np.conj(self.S).dot(b_in) + qb
            res[key] = (a_in, b_in, a_out, b_out, tapa, tapb)
        return res

    def pd_response(self, f, drive):
        res = self.response(f, drive)
        if res is None:
            return None
        out = {}
        for key, (ai, bi, ao, bo, ta, tb) in res.items():
            lam = WAVES[key[0]]
            y = self.S.dot(self.carriers()[key])
            t0 = self.taps(lam, 0)
            tp = self.taps(lam, f)
            tm = self.taps(lam, -f)
            for tag in t0:
                o, g0 = t0[tag]
                E = y[o] * g0
                a = (ao[o] + ta.get(tag, 0)) * tp[tag][1]
                b = (bo[o] + tb.get(tag, 0)) * np.conj(tm[tag][1])
                out[tag] = out.get(tag, 0) + np.conj(E) * a + E * b
        return out

    def vac_sources(self, f):
        """independent vacuum inputs: (name, key, h nu, a_in, a_out, b_in, b_out); a and b separately driven"""
        rows = []
        for key, E in self.carriers().items():
            lam = WAVES[key[0]]
            ops = self.field_ops(key, f)
            if ops is None:
                return None
            (Ma, Ga), (Mb, Gb) = ops
            hv = H_JS * C_M_S / lam
            for j, d in enumerate(self.net['ends']):
                p = self.idx[tuple(d['p'])]
                ai = Ma[:, p] * self.seg_phase(d, lam, f)
                bi = Mb[:, p] * np.conj(self.seg_phase(d, lam, -f))
                rows.append((('end', j), key, hv, ai, self.S.dot(ai), bi, np.conj(self.S).dot(bi)))
            for i, m in enumerate(self.net['mirrors']):
                if m['L'] + m['Lt'] == 0:
                    continue
                l = math.sqrt(m['L'] + m['Lt'])
                for p in range(nports(m)):
                    e = np.zeros(self.n, dtype=complex)
                    e[self.idx[i, p]] = l
                    ai, bi = Ma.dot(Ga.dot(e)), Mb.dot(Gb.dot(e))
                    rows.append((('loss', i, p), key, hv, ai, self.S.dot(ai) + e, bi, np.conj(self.S).dot(bi) + e))
        return rows

    def noise_rows(self, f, tag):
        """photodetector `tag` at +f per unit vacuum input: list of (name, key, h nu, ta, tb)"""
        src = self.vac_sources(f)
        if src is None:
            return None
        rows = []
        for name, key, hv, ai, ao, bi, bo in src:
            lam = WAVES[key[0]]
            o, g0 = self.taps(lam, 0)[tag]
            E0 = self.S.dot(self.carriers()[key])[o] * g0
            rows.append((name, key, hv, np.conj(E0) * ao[o] * self.taps(lam, f)[tag][1],
                         E0 * bo[o] * np.conj(self.taps(lam, -f)[tag][1])))
        return rows

    def force(self, i, key, a_in, b_in):
        """2/c times the incident power fluctuation on mirror i's front (a full reflector)"""
        E = self.carriers()[key]
        F = 0
        for p in range(nports(self.net['mirrors'][i]) // 2):
            a = self.idx[i, p]
            F = F + 2 * self.cos[a] / C_M_S * (np.conj(E[a]) * a_in[a] + E[a] * b_in[a])
        return F
