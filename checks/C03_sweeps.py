"""Differential: a simulation given arrays equals the stack of the simulations of its points."""
import copy, itertools
from vlib.core import *
from vlib import elec, mech, pol

R = Registry('C03', 'array sweeps')
SHAPES = [(2,), (3,), (2, 1), (1, 2), (3, 1), (1,), (2, 2)]


@st.composite
def slots(draw, n_max=3):
    """which parameters are swept (resolved against the network later), the shapes, and factors"""
    out = []
    base = draw(st.sampled_from([(2,), (2,), (3,), (2, 2), (2, 1, 1)]))
    for _ in range(draw(st.integers(1, n_max))):
        # any shape that broadcasts with the base
        sh = tuple(n if draw(chance(0.7)) else 1 for n in base)
        sh = sh[draw(st.integers(0, len(sh) - 1)):]
        k = int(np.prod(sh))
        out.append(dict(at=draw(st.one_of(st.integers(0, 3), st.integers(0, 99))), shape=list(sh),
                        v=[draw(st.sampled_from([0.5, 1, 2, 0.9, 1.3, 0.1, 3, 0, 0])) for _ in range(k)]))
    return out


class Slot(object):
    def __init__(self, get, key, zero=False, unit=False):
        self.d, self.key, self.zero, self.unit = get, key, zero, unit


def resolve(cands, sl):
    """distinct slots -> [(candidate, array)]"""
    out, used = [], set()
    for s in sl:
        k = s['at'] % len(cands)
        if k in used:
            continue
        used.add(k)
        path, base, conv = cands[k]
        a = np.array([conv(base, f) for f in s['v']], dtype=float).reshape(s['shape'])
        out.append((path, a))
    return out


def put(net, path, val):
    d = net
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = val


def points(values):
    shape = np.broadcast(*[v for p, v in values]).shape
    arrs = [(p, np.broadcast_to(v, shape)) for p, v in values]
    for idx in itertools.product(*[range(n) for n in shape]):
        yield idx, [(p, float(v[idx])) for p, v in arrs]


def compare(net, values, run, cond=1):
    """run(net) -> {label: value}"""
    whole = copy.deepcopy(net)
    for p, v in values:
        put(whole, p, v)
    got = run(whole)
    # a matrix element that vanishes at one point only costs digits at the others (pivots are accepted down to 1/100 of their row)
    rtol = 1e-4 if any((v == 0).any() for p, v in values) else max(1e-8, 1e-13 * cond)
    shape = np.broadcast(*[v for p, v in values]).shape
    varies = False
    per = {}
    for idx, vals in points(values):
        one = copy.deepcopy(net)
        for p, v in vals:
            put(one, p, v)
        per[idx] = run(one)
    for lab, g in got.items():
        want = np.zeros(shape, dtype=complex)
        sc = 0
        for idx, r in per.items():
            v, s = r[lab]
            require(np.size(v) == 1, '%s of a single point is not a single number' % lab, show(v))
            want[idx] = complex(np.asarray(v).reshape(()))
            sc = max(sc, s)
        v = np.asarray(g[0])
        try:
            v = np.broadcast_to(v, shape)
        except ValueError:
            require(False, '%s has shape %r which does not fit the swept shape %r' % (lab, v.shape, shape))
        close(v, want, '%s over the sweep' % lab, rtol=rtol, scale=max(sc, maxabs(want)))
        varies = varies or np.ptp(np.abs(want)) > 1e-6 * max(maxabs(want), 1e-300)
    return dict(slots=len(values), dims=len(shape), zero=rtol > 1e-6) if varies else False


mul0 = lambda b, f: float('%.6g' % (b * f))
# zero only where a parameter may be zero
mul = lambda b, f: mul0(b, f or 0.7)
rep = lambda b, f: f


# ---------------------------------------------------------------- electrical

def elec_cands(net):
    c = [(('F',), elec.freqs(net)[0], mul)] * 2
    for i, e in enumerate(net['els']):
        for k in ('R', 'C', 'L', 'ns', 'dc'):
            if e.get(k):
                c.append((('els', i, k), e[k], mul0 if k == 'dc' else mul))
    return c


@R.law(st.tuples(elec.network(cables=True, dc=True), slots(), st.lists(st.integers(0, 60), min_size=2, max_size=2), st.sampled_from(['loop_LUQ', 'loop_LUQ', 'scisparse'])),
       n=350, thorough=5000, shards=8, rule='well conditioned at all points, a readout varies over the sweep')
def electrical(case):
    import phasor.electronics as E
    import phasor.readouts as RO
    net, sl, pick, solver = case
    net = dict(net, F=elec.freqs(net)[0])
    net['els'] = [dict(e) for e in net['els']]
    values = resolve(elec_cands(net), sl)
    dc, zmax, worst = True, 1, 1
    for idx, vals in points(values):
        one = copy.deepcopy(net)
        for p, v in vals:
            put(one, p, v)
        m = elec.Mna(one, one['F'])
        if m.Ainv is None or m.cond > 1e6:
            return False
        zmax = max(zmax, maxabs(m.Ainv))
        worst = max(worst, m.cond)
        m = elec.Mna(one, 0.0)
        dc = dc and m.Ainv is not None and m.cond < 1e6

    def run(nt):
        s, els, ports, nodes = elec.build(nt, solver_name=solver if not any(np.ndim(v) > 1 for p, v in values) else 'loop_LUQ')
        terms = sorted(ports)
        a, b = terms[pick[0] % len(terms)], terms[pick[1] % len(terms)]
        s.own.v = E.VoltageReadout(terminal=ports[a])
        s.own.w = E.VoltageReadout(terminal=ports[b])
        out = {}
        drv = [i for i, e in enumerate(nt['els']) if e['t'] in ('V', 'I', 'VB')][0]
        s.own.ac = RO.ACReadout(portD=elec.drive_port(els[drv], nt['els'][drv]), portN=s.v.V.o)
        s.own.nz = RO.NoiseReadout(port_map=dict(A=s.v.V.o, B=s.w.V.o))
        sc = 0.1 if nt['els'][drv]['t'] != 'I' else 1
        out['AC'] = s.ac.AC_sensitivity, sc
        out['AA'] = s.nz.CSD['A', 'A'], 1e-20 * zmax
        out['AB'] = s.nz.CSD['A', 'B'], 1e-20 * zmax
        if dc:
            out['DC'] = s.v.DC_readout, 0.1
        return out
    return compare(net, values, run, worst)


# ---------------------------------------------------------------- mechanical

def mech_cands(net):
    c = [(('F',), mech.freqs(net)[0], mul)] * 2
    for i, e in enumerate(net['els']):
        for k in ('m', 'k', 'R', 's', 'd', 'phi', 'dc'):
            if e.get(k) and not (e['t'] == 'PZ'):
                c.append((('els', i, k), e[k], mul0 if k in ('dc', 'phi', 'd') else mul))
    return c


@R.law(st.tuples(mech.network(), slots(), st.lists(st.integers(0, 60), min_size=2, max_size=2)),
       n=350, thorough=4000, shards=8, rule='well conditioned at all points, a readout varies over the sweep')
def mechanical(case):
    import phasor.mechanical as M
    import phasor.readouts as RO
    net, sl, pick = case
    net = dict(net, F=mech.freqs(net)[0])
    net['els'] = [dict(e) for e in net['els']]
    values = resolve(mech_cands(net), sl)
    dc = True
    sc, worst = 0, 1
    for idx, vals in points(values):
        one = copy.deepcopy(net)
        for p, v in vals:
            put(one, p, v)
        t = mech.Tableau(one, one['F'])
        if t.inv is None or t.cond > 1e6:
            return False
        sc = max(sc, maxabs(t.inv))
        worst = max(worst, t.cond)
        t = mech.Tableau(one, 0.0)
        dc = dc and t.inv is not None and t.cond < 1e6

    def run(nt):
        b = mech.build(nt)
        terms = sorted(b.ports)
        i, p = [(i, p) for i, e in enumerate(nt['els']) for p in mech.DRIVES.get(e['t'], [])][0]
        x = b.own('x', M.DisplacementReadout(terminal=b.ports[terms[pick[0] % len(terms)]]))
        f = b.own('f', M.ForceReadout(terminal=b.ports[terms[pick[1] % len(terms)]]))
        b.own('ac', RO.ACReadout(portD=getattr(b.els[i], p).i, portN=x.d.o))
        b.own('af', RO.ACReadout(portD=getattr(b.els[i], p).i, portN=f.F.o))
        out = dict(AC=(b.sys.ac.AC_sensitivity, sc), AF=(b.sys.af.AC_sensitivity, sc), S=(b.sys.ac.AC_PSD, 1e-22 * sc * sc))
        if dc:
            out['DC'] = x.DC_readout, sc
        return out
    return compare(net, values, run, worst)


# ---------------------------------------------------------------- optical

def opt_cands(net):
    c = [(('ends', j, 'P'), d['P'], mul0) for j, d in enumerate(net['ends']) if d['kind'] == 'las']
    c.append((('F',), net['F'], mul))
    for i, e in enumerate(net['els']):
        if 'deg' in e:
            c.append((('els', i, 'deg'), 30.0, lambda b, f: b * f))
        for m in ([('els', i)] if e['k'] == 'mir' else [('els', i, 'm', 0), ('els', i, 'm', 1)] if 'm' in e else []):
            mir = e if len(m) == 2 else e['m'][m[-1]]
            # not below the transmission the loss of the transmitted light needs
            c.append((m + ('T',), 0.2, mul if mir.get('Lt') else mul0))
    for kind in ('links', 'ends'):
        for j, d in enumerate(net[kind]):
            if d['L'] or d['det']:
                c.append(((kind, j, 'L'), d['L'] or 1.0, mul0))
                c.append(((kind, j, 'det'), d['det'] or 1e-7, mul0))
            if d.get('kind') == 'las':
                c.append(((kind, j, 'ph'), 1.0, mul0))
    return c


@R.law(st.tuples(pol.network(kinds=['mir', 'mir', 'pm', 'hm', 'rot', 'far', 'hwp', 'qwp', 'circ'], loss=True, mods=True, max_els=3, lasers=2, harmonics=True, all_pd=True),
                 logf(1, 6), slots(), st.lists(st.integers(0, 60), min_size=2, max_size=2)),
       n=160, thorough=5000, shards=8, rule='well conditioned at all points, a readout varies over the sweep')
def optical(case):
    import phasor.readouts as RO
    net, f, sl, pick = case
    net = copy.deepcopy(dict(net, F=f))
    values = resolve(opt_cands(net), sl)
    tags = None
    sc = 0
    for idx, vals in points(values):
        one = copy.deepcopy(net)
        for p, v in vals:
            put(one, p, v)
        o = pol.Oracle(one)
        for c in o.carr:
            for g in (0, one['F'], -one['F']):
                o.inv(c, g)
        if o.cond > 1e5:
            return False
        sc = max(sc, sum(abs(x).max() ** 2 for x in o.fields().values()))
    tags = sorted(o.taps())
    mods = ['l%d' % j for j, d in enumerate(net['links']) if d.get('mod')] + ['e%d' % j for j, d in enumerate(net['ends']) if d.get('mod')]
    if not tags or sc < 1e-6:
        return False

    def run(nt):
        b = pol.build(nt, freq=nt['F'])
        A, B = tags[pick[0] % len(tags)], tags[pick[1] % len(tags)]
        nz = b.own('nz', RO.NoiseReadout(port_map=dict(A=b.pds[A].Wpd.o, B=b.pds[B].Wpd.o)))
        dcs = [(T, b.own('dc%d' % i, RO.DCReadout(port=b.pds[T].Wpd.o))) for i, T in enumerate(tags)]
        if mods:
            m = b.mods[mods[pick[1] % len(mods)]]
            ac = b.own('ac', RO.ACReadout(portD=m.Drv.i, portN=b.pds[A].Wpd.o, include_noise=False))
        out = dict(AA=(nz.CSD['A', 'A'], 1e-18 * sc), AB=(nz.CSD['A', 'B'], 1e-18 * sc))
        if mods:
            out['AC'] = ac.AC_sensitivity, sc
        for T, d in dcs:
            out['DC at %s' % (T,)] = d.DC_readout, sc
        return out
    return compare(net, values, run)
