"""Layouts of optical systems (lenses, spaces, composites, nested and reversed systems) and a paraxial ray tracer.

Ray: (height x, index-weighted slope s = n * dx/dz). A thin lens kicks s by -x/f, an interface of radius R
(positive: centre to the right) from index n1 to n2 by -(n2 - n1) x / R, a gap of length L moves x by L s / n.
"""
import math
from vlib.core import *

UNITS = dict(m=1.0, mm=1e-3, cm=1e-2, um=1e-6, ft=0.3048)
UNITS['in'] = 0.0254
SUBS = ['fused_silica', 'BK7', 'vacuum', 'nitrogen', 'PPKTP']
N = {1064: dict(fused_silica=1.4496, BK7=1.5066, vacuum=1.0, nitrogen=1.0002952, PPKTP=1.8302),
     532: dict(fused_silica=1.4607, BK7=1.5195, vacuum=1.0, nitrogen=1.0002994, PPKTP=1.7779)}


def val(draw, lo, hi, signed=False):
    v = draw(logf(lo, hi))
    if signed and draw(st.booleans()):
        v = -v
    return v


@st.composite
def quantity(draw, lo, hi, signed=False):
    """[value in metres, unit it is given in]"""
    return [val(draw, lo, hi, signed), draw(st.sampled_from(['m', 'm', 'm', 'mm', 'cm', 'in', 'ft', 'um']))]


@st.composite
def leaf(draw, kinds):
    k = draw(st.sampled_from(kinds))
    d = dict(k=k)
    if k == 'lens':
        d['f'] = draw(quantity(-1.3, 1, True))
    elif k == 'mir':
        d['R'] = draw(st.one_of(quantity(-1, 1, True), st.none()))
    elif k == 'tgt':
        d['q'] = [draw(st.sampled_from([0, 0.1, -0.1, 1, -0.5])), draw(logf(-2.5, 0.5))]
    elif k == 'sp':
        d['L'] = draw(quantity(-2, 0.5))
        d['sub'] = draw(st.sampled_from([None] + SUBS))
    elif k == 'abcd':
        d['A'] = draw(st.sampled_from([1, 0.5, 2, -1, 3]))
        d['B'] = draw(st.sampled_from([0, 0.1, -0.2, 1]))
        d['C'] = draw(st.sampled_from([0, 0.3, -1, 2]))
    elif k in ('plcx', 'plcxm'):
        d['R'] = draw(quantity(-0.7, 0.7, True))
        d['L'] = draw(st.one_of(st.none(), quantity(-2.5, -0.7)))
        d['sub'] = draw(st.sampled_from([None, 'BK7', 'PPKTP']))
    elif k == 'cxcx':
        d['R1'] = draw(quantity(-0.7, 0.7, True))
        d['R2'] = draw(quantity(-0.7, 0.7, True))
        d['L'] = draw(st.one_of(st.none(), quantity(-2.5, -0.7)))
        d['sub'] = draw(st.sampled_from([None, 'BK7', 'PPKTP']))
    if k in ('plcx', 'cxcx', 'plcxm', 'abcd'):
        d['rev'] = draw(chance(0.3))
    return d


LEAVES = ['lens', 'lens', 'nop', 'tgt', 'tgt', 'sp', 'plcx', 'cxcx', 'mir', 'plcxm', 'abcd']


@st.composite
def node(draw, depth, kinds, width):
    n = draw(st.integers(2 if depth else 1, width))
    k = 'sys'
    ch = []
    for _ in range(n):
        if depth < 2 and draw(chance(0.25)):
            ch.append(draw(node(depth + 1, kinds, 3)))
        else:
            ch.append(draw(leaf(kinds)))
    return dict(k=k, ch=ch, gaps=[draw(st.one_of(st.just([0, 'm']), quantity(-2, 0))) for _ in ch] if k == 'sys' else None,
                rev=draw(chance(0.35)), perm=draw(st.permutations(range(n))) if k == 'sys' else None)


@st.composite
def layout(draw, kinds=LEAVES, width=5, min_targets=0):
    root = draw(node(0, kinds, width))
    if not draw(chance(0.3)):
        root['rev'] = False
    d = dict(root=root, env=draw(st.sampled_from(['vacuum', 'vacuum', 'nitrogen', 'BK7'])), nm=draw(st.sampled_from([1064, 1064, 532])))
    if min_targets:
        root['ch'] += [dict(k='tgt', q=[draw(st.sampled_from([0, 0.1, -0.3])), draw(logf(-2.5, 0.5))]) for _ in range(min_targets)]
        root['gaps'] += [draw(quantity(-2, 0)) for _ in range(min_targets)]
        root['perm'] = draw(st.permutations(range(len(root['ch']))))
    return d


# ---------------------------------------------------------------- oracle

def gapm(L, n):
    return np.array([[1, L / n], [0, 1.0]])


def kick(c):
    return np.array([[1, 0], [c, 1.0]])


class Item(object):
    """a leaf (or a gap) placed at z with the matrix across it"""
    def __init__(self, z, w, M, path=None, d=None, rev=False, parts=None):
        self.z, self.w, self.M, self.path, self.d, self.rev, self.parts = z, w, M, path, d, rev, parts

    def at(self, dz):
        """matrix from its left to dz inside"""
        M, z = np.eye(2), 0.0
        for w, m, n in self.parts:
            if w is None:
                M = m @ M
                continue
            if dz <= z + w:
                return gapm(dz - z, n) @ M
            M = gapm(w, n) @ M
            z += w
        return M


class Trace(object):
    def __init__(self, lay):
        self.lay = lay
        self.n = N[lay['nm']]
        self.env = self.n[lay['env']]
        self.items = []
        self.boxes = {}
        w = self.place(lay['root'], 0.0, False, ())
        self.width = w
        z, M = 0.0, np.eye(2)
        self.cum = [M]
        for it in self.items:
            M = it.M @ M
            self.cum.append(M)
        self.M = M
        self.idx = dict((it.path, i) for i, it in enumerate(self.items) if it.path is not None)

    def parts(self, d, rev):
        k, e = d['k'], self.env
        q = lambda v: v[0]
        if k == 'lens':
            return [(None, kick(-1 / q(d['f'])), 0)]
        if k in ('nop', 'tgt', 'ctgt'):
            return []
        if k == 'mir':
            return [(None, kick(-2 / q(d['R'])), 0)] if d['R'] else []
        if k == 'sp':
            return [(q(d['L']), None, self.n[d['sub']] if d['sub'] else e)]
        if k == 'abcd':
            A, B, C = d['A'], d['B'], d['C']
            D = (C * B + 1.0) / A
            return [(None, np.array([[A, B], [C, D]] if not rev else [[D, B], [C, A]], dtype=float), 0)]
        n = self.n[d['sub'] or 'fused_silica']
        L = q(d['L']) if d['L'] else 6.35e-3
        if k == 'plcx':
            p = [(None, kick(-(n - e) / q(d['R'])), 0), (L, None, n)]
        elif k == 'cxcx':
            p = [(None, kick(-(n - e) / q(d['R1'])), 0), (L, None, n), (None, kick(-(e - n) / -q(d['R2'])), 0)]
        elif k == 'plcxm':
            p = [(L, None, n), (None, kick(-2 / q(d['R'])), 0), (L, None, n)]
        return p[::-1] if rev else p

    def add(self, z, parts, path=None, d=None, rev=False):
        M, w = np.eye(2), 0.0
        for pw, m, n in parts:
            M = (m if pw is None else gapm(pw, n)) @ M
            w += pw or 0
        self.items.append(Item(z, w, M, path, d, rev, parts))
        return w

    def place(self, d, z, rev, path):
        """appends the items of node d starting at z; returns the width"""
        if d['k'] != 'sys':
            return self.add(z, self.parts(d, rev ^ bool(d.get('rev'))), path, d, rev ^ bool(d.get('rev')))
        rev = rev ^ bool(d['rev'])
        order = list(range(len(d['ch'])))
        start, z0 = len(self.items), z
        if rev:
            order = order[::-1]
        for j, i in enumerate(order):
            if d['gaps'] and j:
                g = d['gaps'][i if not rev else i + 1][0]
                z += self.add(z, [(g, None, self.env)])
            z += self.place(d['ch'][i], z, rev, path + (i,))
        self.boxes[path] = (start, len(self.items), z0, z - z0)
        return z - z0

    def span(self, path):
        """(index of first item, index after last, z, width)"""
        if path in self.boxes:
            return self.boxes[path]
        i = self.idx[path]
        return i, i + 1, self.items[i].z, self.items[i].w

    def before(self, path, side='left'):
        i, j, z, w = self.span(path)
        return self.cum[i] if side == 'left' else self.cum[j]

    def z_of(self, path, side='left'):
        i, j, z, w = self.span(path)
        return z if side == 'left' else z + w

    def at(self, z):
        """matrix from the left end to z (z strictly inside some space)"""
        for i, it in enumerate(self.items):
            if it.w > 0 and it.z <= z <= it.z + it.w:
                return it.at(z - it.z) @ self.cum[i]
        raise KeyError(z)


def symp_inv(M):
    return np.array([[M[1, 1], -M[0, 1]], [-M[1, 0], M[0, 0]]]) / (M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0])


# ---------------------------------------------------------------- the library

class Built(object):
    pass


def build(lay):
    from phasor import alm
    b = Built()
    subs = dict((s, getattr(alm, 'substrate_' + s)) for s in SUBS)
    root = lay['root']
    b.objs = {(): None}

    def arg(kw, stem, q):
        kw['%s_%s' % (stem, q[1])] = q[0] / UNITS[q[1]]

    def make(d, loc=None):
        k, kw = d['k'], {}
        if loc is not None:
            kw['loc_m'] = loc
        if d.get('rev'):
            kw['reversed'] = True
        if k == 'lens':
            arg(kw, 'f', d['f'])
            return alm.ThinLens(**kw)
        if k == 'nop':
            return alm.NoP(**kw)
        if k == 'tgt':
            return alm.BeamTarget(q_raw=alm.ComplexBeamParam.from_Z_ZR(d['q'][0], d['q'][1], wavelen=lay['nm'] * 1e-9), **kw)
        if k == 'ctgt':
            return alm.BeamTarget(q_system=alm.System(loc_m=0), **kw)
        if k == 'mir':
            if d['R']:
                arg(kw, 'R', d['R'])
            else:
                kw['R_m'] = None
            return alm.Mirror(**kw)
        if k == 'sp':
            arg(kw, 'L', d['L'])
            if d['sub']:
                kw['substrate'] = subs[d['sub']]
            return alm.Space(**kw)
        if k == 'abcd':
            return alm.ABCDGeneric(A=d['A'], B=d['B'], C=d['C'], **kw)
        if k in ('plcx', 'plcxm', 'cxcx'):
            if k == 'cxcx':
                arg(kw, 'R1', d['R1'])
                arg(kw, 'R2', d['R2'])
            else:
                arg(kw, 'R', d['R'])
            if d['L']:
                arg(kw, 'L', d['L'])
            if d['sub']:
                kw['substrate_inner'] = subs[d['sub']]
            return dict(plcx=alm.PLCX, plcxm=alm.PLCXMirror, cxcx=alm.CXCX)[k](**kw)
        if k == 'sys':
            return alm.System(**kw)
        raise ValueError(k)

    widths = {}

    def width(d):
        k = d['k']
        if k == 'sys':
            return sum(width(c) for c in d['ch']) + sum(g[0] for g in d['gaps'][1:])
        if k == 'sp':
            return d['L'][0]
        if k in ('plcx', 'cxcx'):
            return d['L'][0] if d['L'] else 6.35e-3
        if k == 'plcxm':
            return 2 * (d['L'][0] if d['L'] else 6.35e-3)
        return 0.0

    def fill(obj, d, path):
        b.objs[path] = obj
        z, locs = d['gaps'][0][0], []
        for i, c in enumerate(d['ch']):
            if i:
                z += d['gaps'][i][0]
            locs.append(z)
            z += width(c)
        perm = list(d['perm'])
        for z in set(locs):
            # elements at one spot are ordered as they were added
            slots = [j for j, i in enumerate(perm) if locs[i] == z]
            for j, i in zip(slots, sorted(perm[j] for j in slots)):
                perm[j] = i
        for i in perm:
            c = d['ch'][i]
            setattr(obj.own, 'c%d' % i, make(c, locs[i]))
            ch = getattr(obj, 'c%d' % i)
            if c['k'] == 'sys':
                fill(ch, c, path + (i,))
            elif c['k'] == 'ctgt':
                fill(ch.q_system, c['cav'], path + (i, 'cav'))
            b.objs[path + (i,)] = ch

    kw = dict(env_substrate=subs[lay['env']], env_wavelength_nm=lay['nm'])
    if root['rev']:
        kw['reversed'] = True
    b.sys = alm.RootSystem(**kw)
    fill(b.sys, root, ())
    return b
