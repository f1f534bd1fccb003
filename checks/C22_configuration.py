import math

from vlib.core import *
from vlib import elec, mech, opt, sig, alm
from checks.C13_optical_response import ac_case, oracle_run
from checks.C02_presentation import dress, dressed, rnd
from checks.C09_signal_flow import flow, inverses

R = Registry('C22', 'parameters, units and regenerated systems')


def walk(s, path):
    for k in path.split('.'):
        s = s[k]
    return s


class Rig(object):
    """a system and the readings taken from it, addressed by element names so that they exist in every incarnation"""
    def __init__(self, s):
        self.s = s
        self.reads = []

    def add(self, name, obj, key, attr, sub=None):
        setattr(self.s.own, name, obj)
        self.reads.append((key, name, attr, sub))

    def read(self, s, order=1):
        out = {}
        for key, name, attr, sub in self.reads[::order]:
            v = getattr(walk(s, name), attr)
            out[key] = v if sub is None else v[sub]
        return out


def same(A, B, what, scale, rtol):
    for k in sorted(A, key=str):
        close(B[k], A[k], '%s: %s' % (what, k), rtol=rtol, scale=max(scale(k), maxabs(A[k]), 1e-300))


# ---------------------------------------------------------------- regenerated systems

@st.composite
def history(draw):
    """what happens between building the system and reading the last incarnation"""
    return [draw(st.sampled_from(['regen', 'regen', 'read', 'read', 'peek', 'yaml', 'kw'])) for _ in range(draw(st.integers(1, 5)))]


def replay(rig, hist, what, scale, rtol):
    """the readings of the original are those of each of its incarnations"""
    first = rig.s
    cur, n = first, 0
    A = None
    for h in hist + ['regen', 'read']:
        if h == 'regen':
            cur = cur.regenerate()
            n += 1
        elif h == 'kw':
            cur = cur.regenerate(solver_name='scisparse')
            n += 1
        elif h == 'read':
            B = rig.read(cur, 1 if n % 2 else -1)
            if A is not None:
                same(A, B, '%s incarnation %d' % (what, n), scale, rtol)
            A = A or B
        elif h == 'peek':
            walk(cur, rig.reads[0][1])
        elif h == 'yaml':
            cur.ctree_as_yaml()
    B = rig.read(first)
    same(A, B, '%s itself' % what, scale, rtol)
    return B


def optical_rig(net, F, tags, spec=None):
    import phasor.readouts as RO
    b = opt.build(net, freq=F, **({} if spec is None else dict(placer=dressed(spec))))
    r = Rig(b.sys)
    r.b = b
    for g in tags:
        r.add('rdc_' + g, RO.DCReadout(port=b.pds[g].Wpd.o), ('DC', g), 'DC_readout')
        r.add('rac_' + g, RO.ACReadout(portD=b.mirrors[0].Z.d.o, portN=b.pds[g].Wpd.o), ('AC', g), 'AC_sensitivity')
    r.add('rnz', RO.NoiseReadout(port_map=dict((g, b.pds[g].Wpd.o) for g in tags)), ('N', tags[0], tags[-1]), 'CSD', (tags[0], tags[-1]))
    r.add('rnz2', RO.NoiseReadout(port_map=dict((g, b.pds[g].Wpd.o) for g in tags)), ('N', tags[0], tags[0]), 'CSD', (tags[0], tags[0]))
    return r


def optical_ok(case):
    t = oracle_run(case)
    if t is None:
        return None
    net, fs, o = t
    P = o.powers()
    tags = [g for g in sorted(P) if maxabs(P[g]) > 1e-6][:2]
    if not tags:
        return None
    for f in fs:
        if o.pd_response(f, ('Z', 0)) is None or o.cond > 1e6:
            return None
    return tags


def optical_scale(A):
    def ref(k):
        if k[0] == 'N':
            return maxabs(A['N', k[1], k[1]])
        return 1e3 if k[0] == 'AC' else 1e-3
    return ref


@R.law(st.tuples(ac_case(max_mirrors=3, bs=True), dress(), history()), n=150, thorough=5000, shards=6,
       rule='well conditioned network with a lit detector')
def optics_regenerated(case):
    case, spec, hist = case
    tags = optical_ok(case)
    if not tags:
        return False
    rig = optical_rig(case['net'], case['F'], tags, spec)
    sc = lambda k: {'N': 1e-20, 'AC': 1e3, 'DC': 1e-3}[k[0]]
    replay(rig, hist, 'optics', sc, 1e-7)
    return dict(nest=spec['nest'], n=len([h for h in hist if h in ('regen', 'kw')]), read=hist[0] == 'read')


@R.law(st.tuples(elec.network(opamps=True, cables=True), dress(), history(), st.integers(0, 60)), n=150, thorough=5000, shards=4,
       rule='solvable circuit with a nonzero reading')
def circuits_regenerated(case):
    import phasor.electronics as E
    import phasor.readouts as RO
    net, spec, hist, pick = case
    ms = [elec.Mna(net, f) for f in elec.freqs(net)]
    if any(m.Ainv is None or m.cond > 1e6 for m in ms):
        return False
    any_dc = any(e.get('dc') for e in net['els'])
    if any_dc:
        d = elec.Mna(net, 0.0)
        if d.Ainv is None or d.cond > 1e6:
            return False
    s, els, ports, nodes = elec.build(net, placer=dressed(spec))
    rig = Rig(s)
    srcs = [ie for ie, e in enumerate(net['els']) if e['t'] in ('V', 'I', 'VB')]
    live = [n for n in range(net['N']) if nodes[n]]
    pv = {}
    for n in live[:2]:
        nm = 'rv%d' % n
        if any_dc:
            rig.add(nm, E.VoltageReadout(terminal=ports[nodes[n][pick % len(nodes[n])]]), ('DC', n), 'DC_readout')
        else:
            setattr(s.own, nm, E.VoltageReadout(terminal=ports[nodes[n][pick % len(nodes[n])]]))
        pv['n%d' % n] = getattr(s, nm).V.o
        for ie in srcs:
            rig.add('ra%d_%d' % (n, ie), RO.ACReadout(portD=elec.drive_port(els[ie], net['els'][ie]), portN=getattr(s, nm).V.o), ('AC', n, ie), 'AC_sensitivity')
    k = sorted(pv)[0]
    rig.add('rnz', RO.NoiseReadout(port_map=pv), ('N', k), 'CSD', (k, k))
    cap = max(m.cond for m in ms)
    big = max([maxabs(m.Ainv.dot(m.rhs_source(ie, 1.0))) for m in ms for ie in srcs] + ([maxabs(d.Ainv.dot(d.rhs_dc()))] if any_dc else []))
    A = replay(rig, hist, 'circuit', lambda k: 1e-24 if k[0] == 'N' else big, 1e-13 * cap + 1e-9)
    seen = max(maxabs(v) for k, v in A.items() if k[0] != 'N')
    return dict(nest=spec['nest'], read=hist[0] == 'read', crowd=max(len(x) for x in nodes)) if seen > 1e-9 * big else False


@R.law(st.tuples(mech.network(pzt=False), dress(), history(), st.integers(0, 60)), n=120, thorough=4000, shards=3,
       rule='solvable network with a nonzero reading')
def mechanics_regenerated(case):
    import phasor.mechanical as M
    import phasor.readouts as RO
    net, spec, hist, pick = case
    T = [mech.Tableau(net, f) for f in mech.freqs(net)]
    if any(t.inv is None or t.cond > 1e6 for t in T):
        return False
    d = mech.Tableau(net, 0.0)
    has_dc = any(e.get('dc') or e.get('fdc') for e in net['els'])
    if has_dc and (d.inv is None or d.cond > 1e6):
        return False
    b = mech.build(net, placer=dressed(spec))
    rig = Rig(b.sys)
    terms = sorted(b.ports)
    k = terms[pick % len(terms)]
    if has_dc:
        rig.add('x', M.DisplacementReadout(terminal=b.ports[k]), ('DC', 'd'), 'DC_readout')
    else:
        setattr(b.sys.own, 'x', M.DisplacementReadout(terminal=b.ports[k]))
    for i, e in enumerate(net['els']):
        for p in mech.DRIVES.get(e['t'], []):
            rig.add('ac_%d%s' % (i, p), RO.ACReadout(portD=getattr(b.els[i], p).i, portN=b.sys.x.d.o), ('AC', i, p), 'AC_sensitivity')
    if not rig.reads:
        return False
    cap = max(t.cond for t in T)
    big = 0
    for t in T:
        for i, e in enumerate(net['els']):
            for p in mech.DRIVES.get(e['t'], []):
                big = max(big, maxabs(t.drive(i, mech.TAG[p], 1.0)))
    if has_dc:
        big = max(big, maxabs(d.dc()))
    A = replay(rig, hist, 'mechanics', lambda k: big, 1e-13 * cap + 1e-9)
    return dict(nest=spec['nest'], read=hist[0] == 'read') if max(maxabs(v) for v in A.values()) > 1e-9 * big else False


@R.law(st.tuples(flow(), history()), n=150, thorough=4000, shards=2, rule='a solvable network in which the drive reaches the readout')
def signals_regenerated(case):
    import phasor.readouts as RO
    case, hist = case
    t = inverses(case)
    if t is None:
        return False
    o, inv = t
    n = len(o.ports)
    b = sig.build(case['net'], case['F'], case['order'])
    rig = Rig(b.sys)
    for j, (x, y) in enumerate([(case['a'] % n, case['b'] % n), (case['c'] % n, case['b'] % n)]):
        rig.add('r%d' % j, RO.ACReadout(portD=b.key(o.ports[x]), portN=b.key(o.ports[y])), ('AC', x, y), 'AC_sensitivity')
    big = max(maxabs(m) for m in inv)
    A = replay(rig, hist, 'signals', lambda k: big, 1e-9)
    return dict(read=hist[0] == 'read') if any(maxabs(v) > 1e-9 for v in A.values()) else False


# ---------------------------------------------------------------- configuration trees

INCH = {'m': 1.0, 'fm': 1e-15, 'pm': 1e-12, 'nm': 1e-9, 'um': 1e-6, 'mm': 1e-3, 'cm': 1e-2, 'km': 1e3, 'ft': 0.3048, 'in': 0.0254}
WATT = {'W': 1.0, 'fW': 1e-15, 'pW': 1e-12, 'nW': 1e-9, 'uW': 1e-6, 'mW': 1e-3, 'kW': 1e3, 'MW': 1e6, 'GW': 1e9}
ANGLE = {'rad': 1.0, 'mrad': 1e-3, 'urad': 1e-6, 'deg': math.pi / 180}
HERTZ = {'Hz': 1.0, 'GHz': 1e9, 'MHz': 1e6, 'kHz': 1e3, 'mHz': 1e-3, 'uHz': 1e-6}
SECOND = {'s': 1.0, 'fs': 1e-15, 'ps': 1e-12, 'ns': 1e-9, 'us': 1e-6, 'ms': 1e-3}


@st.composite
def edits(draw):
    """how the configuration of a system is changed: per quantity a factor and the unit it is written in"""
    return dict(salt=draw(st.integers(0, 9999)), f=[draw(st.sampled_from([1, 0.5, 0.8, 0.3])) for _ in range(6)],
                u=[draw(st.sampled_from([None, 'cm', 'in', 'km', 'nm'])) for _ in range(6)],
                pu=draw(st.sampled_from([None, 'mW', 'kW'])), au=draw(st.sampled_from([None, 'deg', 'mrad'])),
                stages=draw(st.sampled_from(['one', 'one', 'used', 'twice', 'before', 'after'])))


def edited(net, e):
    """-> the network with other values, and the list of (element tag, parameter, value)"""
    import copy
    n2 = copy.deepcopy(net)
    out = []
    k = [0]

    def f():
        k[0] += 1
        return e['f'][rnd(e['salt'], str(k[0])) % 6]

    def put(d, key, tag, par, unit=None):
        if key not in d or not d[key]:
            return
        x = f()
        if x == 1:
            return
        d[key] = d[key] * x
        out.append((tag, par, d[key], unit))
    for i, m in enumerate(n2['mirrors']):
        for a, p in (('Lt', 'L_t'), ('T', 'T_hr'), ('L', 'L_hr'), ('bs', 'R_backscatter')):
            was = m.get(a)
            put(m, a, ('mirrors', i), p)
            if m['Lt'] and m['Lt'] >= m['T']:
                # the loss in transmission cannot exceed the transmission
                m[a] = was
                out.pop()
        put(m, 'ph', ('mirrors', i), 'phase', ANGLE)
        put(m, 'bsph', ('mirrors', i), 'backscatter_phase', ANGLE)
    for pre, ds in (('l', n2['links']), ('e', n2['ends'])):
        for j, d in enumerate(ds):
            if d['L'] is not None and (d['L'] != 0 or d['det'] != 0):
                put(d, 'L', ('segs', '%s%d' % (pre, j)), 'length', INCH)
                put(d, 'det', ('segs', '%s%d' % (pre, j)), 'L_detune', INCH)
            if d.get('kind') == 'las':
                put(d, 'P', ('ends', j), 'power', WATT)
                put(d, 'ph', ('ends', j), 'phase', ANGLE)
    return n2, out


UNITNAME = {'m': 'meter', 'cm': 'centimeter', 'in': 'inch', 'km': 'kilometer', 'nm': 'nanometer', 'W': 'watt', 'mW': 'milliwatt',
            'kW': 'kilowatt', 'rad': 'radian', 'deg': 'degree', 'mrad': 'milliradian'}


def apply_edits(tree, b, todo, e):
    import phasor.optics as O
    for i, (tag, par, v, unit) in enumerate(todo):
        el = getattr(b, tag[0])[tag[1]]
        if tag[0] == 'segs':
            el = [x for x in el if isinstance(x, O.Space)][0]
        t = tree
        for k in el.name_system.split('.'):
            t = t[k]
        if unit is None:
            t[par] = v
            continue
        u = e['u'][i % 6] if unit is INCH else e['pu'] if unit is WATT else e['au']
        if u is None:
            # the unit the element was first given in
            t[par].val = v
        else:
            t[par].val = v / unit[u]
            t[par].units = UNITNAME[u]


@R.law(st.tuples(ac_case(max_mirrors=3, bs=True), dress(), edits()), n=110, thorough=6000, shards=6,
       rule='at least two edited parameters, both networks well conditioned with lit detectors')
def edited_configuration(case):
    """regenerating with an edited configuration gives the system that is built with the edited values"""
    from declarative.bunch import DeepBunch
    case, spec, e = case
    n2, todo = edited(case['net'], e)
    t1, t2 = optical_ok(case), optical_ok(dict(case, net=n2))
    if not t1 or not t2 or not todo:
        return False
    tags = [g for g in t1 if g in t2]
    if not tags:
        return False
    want_rig = optical_rig(n2, case['F'], tags)
    W = want_rig.read(want_rig.s)
    sc = optical_scale(W)
    st_ = e['stages']
    rig = optical_rig(case['net'], case['F'], tags, spec)
    s = rig.s
    A = None
    if st_ in ('used', 'twice'):
        A = rig.read(s)
    if st_ == 'before':
        # edits in two steps, the second made on a plain tree given at construction
        tree = DeepBunch()
        apply_edits(tree, rig.b, todo, e)
        s3 = s.regenerate(tree)
    else:
        tree = s.ctree_shadow()
        apply_edits(tree, rig.b, todo, e)
        s3 = s.regenerate(tree)
        if st_ == 'twice':
            rig.read(s3)
            s3 = s3.regenerate()
        if st_ == 'after':
            s3 = s3.regenerate().regenerate()
    same(W, rig.read(s3), 'edited %s' % [(x[0], x[1], x[2]) for x in todo], sc, 1e-7)
    B = rig.read(s)
    if A is not None:
        same(A, B, 'the original after the edit', optical_scale(A), 1e-12)
    moved = any(maxabs(np.asarray(W[k]) - np.asarray(B[k])) > 1e-6 * max(maxabs(W[k]), sc(k)) for k in W)
    return dict(n=min(len(todo), 4), moved=moved, stage=st_) if len(todo) > 1 and moved else False


# ---------------------------------------------------------------- parameters in any unit

def kinds(s=None):
    import phasor.optics as O
    import phasor.signals as S
    import phasor.alm as CB
    from phasor import base
    return {
        'space.length': (lambda **k: O.Space(**k), ['length', 'L'], 'length', INCH, 'length'),
        'space.detune': (lambda **k: O.Space(L_m=1.0, **k), ['L_detune'], 'L_detune', INCH, 'L_detune'),
        'laser.power': (lambda **k: O.Laser(F=s.F_carrier_1064, **k), ['power'], 'power', WATT, 'power'),
        'mirror.phase': (lambda **k: O.Mirror(**k), ['phase'], 'phase', ANGLE, 'phase'),
        'mirror.bsphase': (lambda **k: O.Mirror(**k), ['backscatter_phase'], 'backscatter_phase', ANGLE, 'backscatter_phase'),
        'rotator': (lambda **k: O.PolarizationRotator(**k), ['rotate'], 'rotate', ANGLE, 'rotate'),
        'crystal.length': (lambda **k: O.NonlinearCrystal(nlg=0, **k), ['length', 'L'], 'length', INCH, 'length'),
        'frequency': (lambda **k: base.Frequency(**k), ['F'], 'frequency', HERTZ, 'frequency'),
        'filter.delay': (lambda **k: S.SRationalFilter(gain=1, **k), ['delay'], 'delay', SECOND, 'delay'),
        'lens.f': (lambda **k: CB.ThinLens(**dict(dict(loc_m=0), **k)), ['f'], 'f_preferred', INCH, 'focal_length'),
        'almspace.L': (lambda **k: CB.Space(**k), ['L', 'length'], 'L_preferred', INCH, 'length'),
    }


KIND = ['space.length', 'space.detune', 'laser.power', 'mirror.phase', 'mirror.bsphase', 'rotator', 'crystal.length', 'frequency',
        'filter.delay', 'lens.f', 'almspace.L']
TAB = {'laser.power': WATT, 'mirror.phase': ANGLE, 'mirror.bsphase': ANGLE, 'rotator': ANGLE, 'frequency': HERTZ, 'filter.delay': SECOND}
QNAME = {'val': 'dimensionless'}


def root_for(kind):
    from phasor import system
    if kind.startswith('lens') or kind.startswith('alm'):
        import phasor.alm as CB
        return CB.RootSystem()
    return system.BGSystem()


def fresh(kind, **kw):
    s = root_for(kind)
    s.own.x = kinds(s)[kind][0](**kw)
    return s, s.x


def quantity(v, u):
    from phasor.base import pint
    return v * pint.ureg.parse_expression(u)


@st.composite
def given_value(draw):
    kind = draw(st.sampled_from(KIND))
    us = sorted(TAB.get(kind, INCH))
    return dict(kind=kind, v=draw(st.one_of(logf(-3, 3, signed=True), st.just(0), st.integers(1, 50))), u=draw(st.sampled_from(us)), stem=draw(st.integers(0, 1)),
                how=draw(st.sampled_from(['kw', 'kw', 'quantity', 'unit', 'group', 'split', 'ref', 'sum', 'config', 'configu'])),
                a=draw(logf(-2, 2, signed=True)), b=draw(logf(-2, 2, signed=True)), u2=draw(st.sampled_from(us)), v2=draw(logf(-3, 3, signed=True)))


def attr_of(kind, stem, u):
    st_ = kinds()[kind][1]
    return '%s_%s' % (st_[stem % len(st_)], u)


@R.law(given_value(), n=900, thorough=8000, shards=3, rule='value given in a unit that is not the base unit, or by way of a quantity')
def parameters_in_units(c):
    """a parameter given in any supported unit, directly or as a quantity with units, reads back consistently in every unit"""
    from phasor.base import simple_units
    kind, v, u, how = c['kind'], c['v'], c['u'], c['how']
    mk, stems, pref, table, cname = kinds()[kind]
    size = v * table[u]
    ref = size
    if how == 'kw':
        s, x = fresh(kind, **{attr_of(kind, c['stem'], u): v})
    elif how == 'quantity':
        s, x = fresh(kind, **{pref: quantity(float(v), u)})
    elif how == 'unit':
        v, size = 1, table[u]
        ref = size
        s, x = fresh(kind, **{pref: quantity(1.0, u).units})
    elif how == 'group':
        s, x = fresh(kind, **{pref: simple_units.SimpleUnitfulGroup(val=v, ref=v, units=u)})
    elif how == 'split':
        ref = c['v2'] * table[u]
        s, x = fresh(kind, **{pref: simple_units.SimpleUnitfulGroup(val=v, ref=c['v2'], units=u)})
    elif how == 'ref':
        s0, y = fresh(kind, **{attr_of(kind, c['stem'], u): v})
        s, x = fresh(kind, **{pref: getattr(y, attr_of(kind, 1 + c['stem'], c['u2']))})
    elif how == 'sum':
        # linear combination of the parameters of other elements, written in different units
        s0, y = fresh(kind, **{attr_of(kind, c['stem'], u): v})
        s1, z = fresh(kind, **{attr_of(kind, c['stem'], c['u2']): c['v2']})
        p, q = getattr(y, attr_of(kind, 0, u)), getattr(z, attr_of(kind, 0, c['u2']))
        size = c['a'] * v * table[u] - c['v2'] * table[c['u2']] / c['b'] + v * table[u]
        ref = size
        total = c['a'] * p - q / c['b'] + p
        close(total.val * table[u], size, 'sum in %s' % u, rtol=1e-10, scale=maxabs([c['a'] * v * table[u], c['v2'] * table[c['u2']] / c['b'], v * table[u]]))
        close((-total).ref, -total.ref, 'negative', rtol=1e-12)
        s, x = fresh(kind, **{pref: total})
    else:
        # the configuration of the system decides, not the value the element is given in the program
        s0 = root_for(kind)
        tree = {'x': {cname: dict([('val', c['v2'])] + ([('units', quantity(1, c['u2']).units.__str__())] if how == 'configu' else []))}}
        s = type(s0)(ctree=tree)
        s.own.x = kinds(s)[kind][0](**{attr_of(kind, c['stem'], u): v})
        x = s.x
        size = c['v2'] * table[c['u2'] if how == 'configu' else u]
        ref = size
    sc = max(abs(size), abs(ref), max(abs(c['v2']) * table[c['u2']] * (1 / abs(c['b']) if how == 'sum' else 0), (1 + abs(c['a'])) * abs(v) * table[u] if how == 'sum' else 0))
    for k, w in enumerate(sorted(table)):
        p = getattr(x, attr_of(kind, k, w))
        close(p.val * table[w], size, '%s given by %s reads %s' % (kind, how, w), rtol=1e-9, scale=sc)
        close(p.ref * table[w], ref, '%s given by %s reference in %s' % (kind, how, w), rtol=1e-9, scale=sc)
        close(p.valQ.to(base_unit(table)).magnitude, size, '%s as a quantity' % kind, rtol=1e-9, scale=sc)
        close(p.refQ.to(base_unit(table)).magnitude, ref, '%s as a quantity' % kind, rtol=1e-9, scale=sc)
    p = getattr(x, pref)
    close(p.valQ.to(base_unit(table)).magnitude, size, '%s in its own unit' % kind, rtol=1e-9, scale=sc)
    s2 = s.regenerate()
    close(getattr(s2.x, attr_of(kind, 0, base_unit(table))).val, size, '%s after regenerating' % kind, rtol=1e-9, scale=sc)
    close(getattr(s2.x, attr_of(kind, 0, base_unit(table))).ref, ref, 'reference of %s after regenerating' % kind, rtol=1e-9, scale=sc)
    return dict(how=how, kind=kind) if table[u] != 1 or how not in ('kw',) else False


def base_unit(table):
    return [u for u in table if table[u] == 1.0][0]


@st.composite
def wrong(draw):
    kind = draw(st.sampled_from(KIND))
    us = sorted(TAB.get(kind, INCH))
    u = draw(st.sampled_from(us))
    return dict(kind=kind, u=u, u2=draw(st.sampled_from([w for w in us if w != u])), v=draw(logf(-2, 2)), stem=draw(st.integers(0, 1)),
                how=draw(st.sampled_from(['two', 'two', 'quantity', 'dimension', 'bare', 'unknown', 'add', 'text'])))


@R.law(wrong(), n=400, thorough=3000, shards=2, rule='always')
def contradictions_are_rejected(c):
    """a parameter given twice, without units, in the wrong dimension, or under a name that does not exist is refused"""
    kind, u, v, how = c['kind'], c['u'], c['v'], c['how']
    pref = kinds()[kind][2]
    table = kinds()[kind][3]
    other = 'kg' if table is not SECOND else 'm'
    one = {attr_of(kind, c['stem'], u): v}

    def make(**k):
        s, x = fresh(kind, **k)
        return getattr(x, attr_of(kind, 0, base_unit(table))).val
    close(make(**one), v * table[u], 'before anything is wrong', rtol=1e-9)
    if how == 'two':
        bad = lambda: make(**dict(one, **{attr_of(kind, c['stem'], c['u2']): v}))
    elif how == 'quantity':
        bad = lambda: make(**dict(one, **{pref: quantity(v, c['u2'])}))
    elif how == 'dimension':
        bad = lambda: make(**{pref: quantity(v, other)})
    elif how == 'bare':
        bad = lambda: make(**{pref: v})
    elif how == 'text':
        bad = lambda: make(**{pref: 'much'})
    elif how == 'unknown':
        bad = lambda: make(**dict(one, **{attr_of(kind, c['stem'], 'furlong'): v}))
    else:
        def bad():
            import phasor.optics as O
            from phasor.base import simple_units
            p = getattr(fresh(kind, **one)[1], attr_of(kind, 0, u))
            return p + simple_units.SimpleUnitfulGroup(val=1.0, ref=1.0, units=other)
    expect_raises(bad, Exception, '%s with %s' % (kind, how))
    return dict(how=how, kind=kind)


@R.law(st.tuples(given_value(), st.lists(st.sampled_from(['regen', 'edit', 'copy']), min_size=1, max_size=4)), n=500, thorough=6000, shards=2,
       rule='always')
def replicas_follow_their_prototype(case):
    """a replica has the parameters of its prototype, in every incarnation, also when the prototype is reconfigured"""
    c, hist = case
    kind, v, u = c['kind'], c['v'], c['u']
    mk, stems, pref, table, cname = kinds()[kind]
    s, x = fresh(kind, **{attr_of(kind, c['stem'], u): v})
    s.own.y = s.x.replica_generate()
    names = ['x', 'y']
    size = v * table[u]
    ct = None
    for h in hist:
        if h == 'regen':
            s = s.regenerate()
        elif h == 'copy':
            nm = 'y%d' % len(names)
            setattr(s.own, nm, walk(s, names[-1]).replica_generate())
            names.append(nm)
        elif kind != 'frequency':
            ct = s.ctree_shadow()
            t = ct.x[cname]
            t.val, t.units = c['v2'], str(quantity(1, c['u2']).units)
            size = c['v2'] * table[c['u2']]
            s = s.regenerate(ct)
        for k, nm in enumerate(names):
            if h == 'copy' and k < len(names) - 1:
                continue
            for w in sorted(table)[:3] + [base_unit(table)]:
                close(getattr(walk(s, nm), attr_of(kind, k, w)).val * table[w], size, '%s %s after %s in %s' % (kind, nm, h, w), rtol=1e-9)
    return dict(kind=kind, edit='edit' in hist, deep='copy' in hist)


@st.composite
def ladder(draw):
    N = draw(st.integers(1, 3))
    els = []
    for i in range(1, N):
        els.append([draw(st.sampled_from('RCL')), i - 1, i, draw(st.integers(0, 5))])
    for _ in range(draw(st.integers(1, 5))):
        a = draw(st.integers(0, N - 1))
        els.append([draw(st.sampled_from('RCLrcl')), a, draw(st.integers(0, N - 1)), draw(st.integers(0, 5))])
    els.append(['r', N - 1, 0, 0])
    cuts = draw(st.lists(st.integers(0, len(els)), min_size=1, max_size=3))
    return dict(N=N, els=els, cuts=cuts, read=draw(st.booleans()), F=draw(logf(0, 4)))


@R.law(ladder(), n=150, thorough=3000, shards=2, rule='elements are added after the first regeneration')
def regenerated_systems_are_extended(c):
    """building on from a regenerated (and possibly solved) system gives the system built in one go"""
    import phasor.electronics as E
    import phasor.readouts as RO
    from phasor import system

    def run(cuts):
        s = system.BGSystem(F_AC=c['F'])
        s.own.src = E.VoltageSource()
        s.own.rs = E.SeriesResistor(resistance_Ohms=50.0)
        s.own.v = E.VoltageReadout(terminal=s.rs.pe_B)
        s.own.a = RO.ACReadout(portD=s.src.V.i, portN=s.v.V.o)
        s.src.pe_A.bond(s.rs.pe_A)
        at = dict((i, []) for i in range(c['N']))
        at[0].append(('rs', 'pe_B'))

        def join(node, el, port, pick):
            if at[node]:
                o = at[node][pick % len(at[node])]
                getattr(walk(s, el), port).bond(getattr(walk(s, o[0]), o[1]))
            at[node].append((el, port))
        n = 0
        for k in range(len(c['els']) + 1):
            for x in cuts:
                if x == k:
                    if c['read']:
                        s.a.AC_sensitivity
                    s = s.regenerate()
                    n += 1
            if k == len(c['els']):
                break
            t, a, b, pick = c['els'][k]
            nm = 'e%d' % k
            v = 1 + 0.3 * k
            setattr(s.own, nm, {'R': lambda: E.SeriesResistor(resistance_Ohms=70 * v), 'C': lambda: E.SeriesCapacitor(capacitance_Farads=2e-6 * v),
                                'L': lambda: E.SeriesInductor(inductance_Henries=1e-3 * v), 'r': lambda: E.TerminatorResistor(resistance_Ohms=90 * v),
                                'c': lambda: E.TerminatorCapacitor(capacitance_Farads=1e-6 * v),
                                'l': lambda: E.TerminatorInductor(inductance_Henries=3e-3 * v)}[t]())
            join(a, nm, 'pe_A', pick)
            if t in 'RCL':
                join(b, nm, 'pe_B', pick + 1)
        s.own.v2 = E.VoltageReadout(terminal=getattr(walk(s, at[c['N'] - 1][-1][0]), at[c['N'] - 1][-1][1]))
        s.own.a2 = RO.ACReadout(portD=s.src.V.i, portN=s.v2.V.o)
        return [s.a.AC_sensitivity, s.a2.AC_sensitivity]
    A, B = run([]), run(c['cuts'])
    close(B[0], A[0], 'voltage at the source side', rtol=1e-8, scale=1)
    close(B[1], A[1], 'voltage at the far end', rtol=1e-8, scale=1)
    return dict(read=c['read'], n=len(c['cuts'])) if min(c['cuts']) < len(c['els']) else False


@R.law(st.tuples(alm.layout(min_targets=1), st.lists(st.sampled_from(['regen', 'read', 'edit', 'yaml']), min_size=1, max_size=4), st.integers(0, 99),
                 st.lists(st.tuples(st.integers(0, 99), logf(-1, 1), st.sampled_from(['meter', 'inch', 'millimeter', 'foot'])), min_size=4, max_size=4)),
       n=260, thorough=6000, shards=4, rule='at least two elements and an incarnation, or an edited lens, mirror or space')
def layouts_regenerated(case):
    """incarnations of an optical layout bend light as the original does, and with edited lenses as the edited layout does"""
    import copy
    lay, hist, pick, edits_ = case
    lay = copy.deepcopy(lay)
    tr = alm.Trace(lay)
    if not 1e-9 < maxabs(tr.M) < 1e4:
        return False
    b = alm.build(lay)
    s = b.sys
    names = dict((p, o.name_system) for p, o in b.objs.items() if o is not None)
    n = e = 0

    def leaves(d, path=()):
        for i, ch in enumerate(d['ch']):
            if ch['k'] == 'sys':
                for x in leaves(ch, path + (i,)):
                    yield x
            else:
                yield path + (i,), ch

    def check():
        k = max([maxabs(m) for m in tr.cum] + [maxabs(alm.symp_inv(m)) for m in tr.cum])
        if k > 1e5:
            return
        close(s.matrix, tr.M, 'matrix of incarnation %d after %s' % (n, hist), rtol=1e-9, scale=k)
        ps = [p for p in sorted(tr.idx) if p in names]
        for j in range(min(2, len(ps))):
            p = ps[(pick + j) % len(ps)]
            t = walk(s, names[p])
            close(s.measurements.object_z(t), tr.z_of(p, 'left'), 'position of %s' % (p,), rtol=1e-9, scale=max(tr.width, 1))
            from phasor.alm import TargetLeft
            close(s.matrix_between(TargetLeft, t.as_target('left')), tr.before(p, 'left'), 'matrix to %s' % (p,), rtol=1e-9, scale=k)
    tree = None
    for h in hist + ['regen', 'read']:
        if h == 'regen':
            s = s.regenerate()
            n += 1
        elif h == 'read':
            check()
        elif h == 'yaml':
            s.ctree_as_yaml()
        else:
            cand = [(p, d) for p, d in sorted(leaves(lay['root'])) if d['k'] in ('lens', 'mir') and (d.get('f') or d.get('R'))]
            if not cand:
                continue
            tree = s.ctree_shadow() if tree is None else tree
            for w, v, u in edits_[:2 + n]:
                p, d = cand[w % len(cand)]
                t = tree
                for x in names[p].split('.'):
                    t = t[x]
                key, c = ('f', 'focal_length') if d['k'] == 'lens' else ('R', 'ROC')
                d[key] = [v * {'meter': 1.0, 'inch': 0.0254, 'millimeter': 1e-3, 'foot': 0.3048}[u] * 10, 'm']
                t[c].val, t[c].units = v * 10, u
            tr = alm.Trace(lay)
            s = s.regenerate(tree)
            e += 1
    return dict(edits=e, n=n, elements=min(len(tr.idx), 6)) if (n or e) and len(tr.idx) > 1 else False
