from vlib.core import *
from vlib import elec, mech, opt
from checks.C13_optical_response import ac_case, oracle_run

R = Registry('C02', 'answers do not depend on how a system is presented')

LET = 'aZm_k9Q'


@st.composite
def dress(draw):
    """how the second copy of the system is written down"""
    return dict(salt=draw(st.integers(0, 9999)), nest=draw(st.sampled_from([0, 1, 1, 2, 3])), late=draw(st.booleans()),
                via=draw(chance(0.4)), extra=draw(st.booleans()), solver=draw(st.sampled_from(['loop_LUQ', 'scisparse', 'loop_LUQ', 'scisparse_superLU'])),
                shuffle=draw(st.booleans()), read=draw(st.sampled_from(['same', 'reverse', 'twice'])))


def rnd(salt, s):
    h = salt * 2654435761 + 12345
    for c in s:
        h = (h * 1103515245 + ord(c) + 12345) % (1 << 61)
    return h


def renamed(salt, name):
    h = rnd(salt, name)
    return ''.join(LET[(h >> (4 * i)) % 6] for i in range(1 + h % 3)) + '_' + str(h % 100000)


class Dressed(Placer):
    """other names, elements tucked into (nested) containers, found again through attributes"""
    spec = None

    def __init__(self, s):
        Placer.__init__(self, s)
        from phasor.base import SystemElementBase
        self.boxes = [s]
        for i in range(self.spec['nest']):
            p = self.boxes[rnd(self.spec['salt'], 'box%d' % i) % len(self.boxes)]
            nm = renamed(self.spec['salt'], 'box%d' % i)
            setattr(p.own, nm, SystemElementBase())
            self.boxes.append(getattr(p, nm))

    def __call__(self, name, obj):
        p = self.boxes[rnd(self.spec['salt'], 'at' + name) % len(self.boxes)]
        nm = renamed(self.spec['salt'], name)
        setattr(p.own, nm, obj)
        return getattr(p, nm)

    def port(self, p):
        """some ports are bonded through a port exposed on another element"""
        from phasor.base.ports import PortIndirect
        from phasor.base import SystemElementBase
        if not self.spec['via']:
            return p
        if not hasattr(self, 'exposed'):
            setattr(self.sys.own, 'exposed', SystemElementBase())
            self.exposed = {}
        if p not in self.exposed:
            nm = 'x%d' % len(self.exposed)
            if len(self.exposed) % 2:
                setattr(self.sys.exposed.own, nm, PortIndirect(inner_port=p))
                self.exposed[p] = getattr(self.sys.exposed, nm)
            else:
                self.exposed[p] = p
        return self.exposed[p]


def dressed(spec):
    return type('D', (Dressed,), dict(spec=spec))


def reading(reads, spec):
    """reads: [(key, fn)] -> {key: value}, evaluated in the order the presentation asks for"""
    order = list(reads)
    if spec and spec['read'] == 'reverse':
        order = order[::-1]
    out = {}
    for k, f in order:
        out[k] = f()
        if spec and spec['read'] == 'twice':
            close(f(), out[k], 'second reading of %s' % (k,), rtol=0)
    return out


def compare(A, B, what, scales, rtol):
    require(set(A) == set(B), what + ' readings', sorted(map(str, A)), sorted(map(str, B)))
    for k in sorted(A, key=str):
        close(B[k], A[k], '%s %s, presented differently' % (what, k), rtol=rtol, scale=max(scales(k), maxabs(A[k]), 1e-300))


# ---------------------------------------------------------------- circuits

def extra_circuit(s, place):
    import phasor.electronics as E
    import phasor.readouts as RO
    r1, r2 = place('xr1', E.TerminatorResistor(resistance_Ohms=77.0)), place('xr2', E.SeriesResistor(resistance_Ohms=300.0))
    v = place('xv', E.VoltageSource(V_DC=3.0))
    s.bond(v.pe_A, r2.pe_A)
    s.bond(r2.pe_B, r1.pe_A)
    m = place('xm', E.VoltageReadout(terminal=r1.pe_A))
    place('xa', RO.ACReadout(portD=v.V.i, portN=m.V.o))


@R.law(st.tuples(elec.network(opamps=True, cables=True), dress(), st.integers(0, 60)), n=320, thorough=10000, shards=6,
       rule='solvable circuit, presented in another way, with a nonzero reading')
def circuits(case):
    import phasor.electronics as E
    import phasor.readouts as RO
    net, spec, pick = case
    fs = elec.freqs(net)
    ms = [elec.Mna(net, f) for f in fs]
    if any(m.Ainv is None or m.cond > 1e6 for m in ms):
        return False
    any_dc = any(e.get('dc') for e in net['els'])
    if any_dc:
        d = elec.Mna(net, 0.0)
        if d.Ainv is None or d.cond > 1e6:
            return False
    res = []
    for sp in (None, spec):
        n2 = net
        kw = {}
        if sp:
            kw = dict(placer=dressed(sp), solver_name=sp['solver'])
            if sp['shuffle']:
                n2 = dict(net, order=net['order'][::-1], flip=[not f for f in net['flip']], rot=[r + 1 for r in net['rot']],
                          styles=net['styles'][1:] + net['styles'][:1])
        s, els, ports, nodes = elec.build(n2, **kw)
        pl = Placer(s)
        if sp and sp['extra']:
            extra_circuit(s, pl)
        srcs = [ie for ie, e in enumerate(net['els']) if e['t'] in ('V', 'I', 'VB')]
        reads = []
        live = [n for n in range(net['N']) if nodes[n]]
        pv = {}
        vports = dict((n, ports[nodes[n][pick % len(nodes[n])]]) for n in live)
        for n in live[:3]:
            r = pl('v%d' % n, E.VoltageReadout(terminal=vports[n]))
            for ie in srcs:
                q = pl('a%d_%d' % (n, ie), RO.ACReadout(portD=elec.drive_port(els[ie], net['els'][ie]), portN=r.V.o))
                reads.append((('AC', n, ie), lambda q=q: q.AC_sensitivity))
            if any_dc:
                reads.append((('DC', n), lambda r=r: r.DC_readout))
            pv['n%d' % n] = r.V.o
        terms = sorted(ms[0].term)
        if terms:
            ie, tt = terms[pick % len(terms)]
            r = pl('i0', E.CurrentReadout(terminal=ports[ie, tt], direction='in'))
            for je in srcs:
                q = pl('b_%d' % je, RO.ACReadout(portD=elec.drive_port(els[je], net['els'][je]), portN=r.I.o))
                reads.append((('ACI', je), lambda q=q: 50 * q.AC_sensitivity))
        nz = pl('nz', RO.NoiseReadout(port_map=pv))
        keys = sorted(pv)
        for a in keys[:2]:
            for b in keys[:2]:
                reads.append((('N', a, b), lambda a=a, b=b: nz.CSD[a, b]))
        res.append(reading(reads, sp))
    cap = max(m.cond for m in ms)
    seen = max([maxabs(v) for k, v in res[0].items() if k[0] != 'N'] + [1e-30])
    big = max([maxabs(m.Ainv.dot(m.rhs_source(ie, 1.0))) for m in ms for ie in srcs] + ([maxabs(d.Ainv.dot(d.rhs_dc()))] if any_dc else []))
    ref = {}
    for k, v in res[0].items():
        if k[0] == 'N':
            ref[k] = max(maxabs(res[0]['N', k[1], k[1]]), maxabs(res[0]['N', k[2], k[2]]))
    compare(res[0], res[1], 'circuit', lambda k: max(ref[k], 1e-24) if k[0] == 'N' else big, 1e-13 * cap + 1e-9)
    return dict(nest=spec['nest'], solver=spec['solver'], extra=spec['extra'], via=spec['via']) if seen > 1e-9 * big else False


# ---------------------------------------------------------------- mechanics

@R.law(st.tuples(mech.network(pzt=False), dress(), st.integers(0, 60)), n=200, thorough=8000, shards=4,
       rule='solvable network, presented in another way, with a nonzero reading')
def mechanics(case):
    import phasor.mechanical as M
    import phasor.readouts as RO
    net, spec, pick = case
    fs = mech.freqs(net)
    T = [mech.Tableau(net, f) for f in fs]
    if any(t.inv is None or t.cond > 1e6 for t in T):
        return False
    d = mech.Tableau(net, 0.0)
    has_dc = any(e.get('dc') or e.get('fdc') for e in net['els'])
    if has_dc and (d.inv is None or d.cond > 1e6):
        return False
    res = []
    for sp in (None, spec):
        n2, kw = net, {}
        if sp:
            kw = dict(placer=dressed(sp), solver_name=sp['solver'])
            if sp['shuffle']:
                n2 = dict(net, order=net['order'][::-1], flip=[not f for f in net['flip']], rot=[r + 1 for r in net['rot']],
                          styles=net['styles'][1:] + net['styles'][:1])
        b = mech.build(n2, **kw)
        s, pl = b.sys, Placer(b.sys)
        if sp and sp['extra']:
            x1, x2 = pl('xm1', M.Mass(mass_kg=3.0)), pl('xf', M.ForceSource())
            s.bond(x1.pm_A, x2.pm_A)
        terms = sorted(b.ports)
        k = terms[pick % len(terms)]
        r1 = pl('x', M.DisplacementReadout(terminal=b.ports[k]))
        r2 = pl('f', M.ForceReadout(terminal=b.ports[k], direction='in'))
        reads = []
        for i, e in enumerate(net['els']):
            for p in mech.DRIVES.get(e['t'], []):
                for q, o in (('d', r1.d.o), ('F', r2.F.o)):
                    a = pl('ac_%s_%d%s' % (q, i, p), RO.ACReadout(portD=getattr(b.els[i], p).i, portN=o))
                    reads.append((('AC', q, i, p), lambda a=a: a.AC_sensitivity))
        if has_dc:
            reads += [(('DC', 'd'), lambda: r1.DC_readout), (('DC', 'F'), lambda: r2.DC_readout)]
        res.append(reading(reads, sp))
    cap = max(t.cond for t in T)
    big = 0
    for t in T:
        for i, e in enumerate(net['els']):
            for p in mech.DRIVES.get(e['t'], []):
                big = max(big, maxabs(t.drive(i, mech.TAG[p], 1.0)))
    if has_dc:
        big = max(big, maxabs(d.dc()))
    compare(res[0], res[1], 'mechanics', lambda k: big, 1e-13 * cap + 1e-9)
    return dict(nest=spec['nest'], solver=spec['solver'], extra=spec['extra']) if max(maxabs(v) for v in res[0].values()) > 1e-9 * big else False


# ---------------------------------------------------------------- optics

@R.law(st.tuples(ac_case(max_mirrors=3, bs=True), dress()), n=240, thorough=8000, shards=8,
       rule='well conditioned network with a lit detector, presented in another way')
def optics(case):
    import phasor.optics as O
    import phasor.readouts as RO
    case, spec = case
    t = oracle_run(case)
    if t is None:
        return False
    net, fs, o = t
    P = o.powers()
    tags = [g for g in sorted(P) if P[g] > 1e-6][:2]
    if not tags:
        return False
    for f in fs:
        if o.pd_response(f, ('Z', 0)) is None or o.cond > 1e6:
            return False
    res = []
    for sp in (None, spec):
        kw, n2 = {}, net
        if sp:
            kw = dict(placer=dressed(sp), solver_name=sp['solver'])
            if sp['shuffle']:
                n2 = dict(net, order=net['order'][::-1], flips=[not f for f in net['flips']])
        b = opt.build(n2, freq=case['F'], **kw)
        s, pl = b.sys, Placer(b.sys)
        if sp and sp['extra']:
            l, m, p = pl('xl', O.Laser(F=b.F[0], power_W=5.0)), pl('xm', O.Mirror(T_hr=0.3)), pl('xp', O.PD())
            s.bond(l.po_Fr, m.po_Fr)
            s.bond(m.po_Bk, p.po_Fr)
            pl('xd', RO.DCReadout(port=p.Wpd.o))
            pl('xa', RO.ACReadout(portD=m.Z.d.o, portN=p.Wpd.o))
        reads = []
        for g in tags:
            d = pl('dc_' + g, RO.DCReadout(port=b.pds[g].Wpd.o))
            a = pl('ac_' + g, RO.ACReadout(portD=b.mirrors[0].Z.d.o, portN=b.pds[g].Wpd.o))
            reads += [(('DC', g), lambda d=d: d.DC_readout), (('AC', g), lambda a=a: a.AC_sensitivity)]
        nz = pl('nz', RO.NoiseReadout(port_map=dict((g, b.pds[g].Wpd.o) for g in tags)))
        for a in tags:
            for c in tags:
                reads.append((('N', a, c), lambda a=a, c=c: nz.CSD[a, c]))
        res.append(reading(reads, sp))
    A = res[0]

    def ref(k):
        if k[0] == 'N':
            return (maxabs(A['N', k[1], k[1]]) * maxabs(A['N', k[2], k[2]])) ** 0.5
        return 1e3 if k[0] == 'AC' else 1e-3
    compare(A, res[1], 'optics', ref, 1e-7)
    return dict(nest=spec['nest'], solver=spec['solver'], extra=spec['extra'], tags=len(tags))


@st.composite
def chain(draw):
    n = draw(st.integers(1, 4))
    return dict(parts=[draw(st.sampled_from(['space', 'mirror', 'mirror', 'pd', 'AM', 'space'])) for _ in range(n)],
                T=[draw(st.sampled_from([0.5, 0.1, 0.9, 0.3])) for _ in range(n)], L=[draw(st.sampled_from([0, 1.0, 30.0])) for _ in range(n)],
                det=[opt.detune(draw) for _ in range(n)], split=draw(st.integers(0, 4)), turn=draw(st.booleans()))


@R.law(chain(), n=200, thorough=3000, shards=2, rule='at least two parts in the chain')
def chains(c):
    """bond_sequence bonds the same light path as bonding each neighbour pair"""
    import phasor.optics as O
    import phasor.readouts as RO
    from phasor import system
    res = []
    for way in (0, 1):
        s = system.BGSystem(F_AC=np.array([10., 1e6]))
        pl = Placer(s)
        las, end = pl('las', O.Laser(F=s.F_carrier_1064, power_W=2.0)), pl('end', O.PD())
        ps, reads = [], []
        for i, k in enumerate(c['parts']):
            p = pl('p%d' % i, O.Space(L_m=c['L'][i], L_detune_m=c['det'][i]) if k == 'space' else O.Mirror(T_hr=c['T'][i]) if k == 'mirror'
                   else O.MagicPD() if k == 'pd' else O.AM())
            ps.append(p)
            if k == 'pd':
                reads.append(('pd%d' % i, p.Wpd.o))
        if way == 0:
            prev = las.po_Fr
            for p in ps:
                s.bond(prev, p.po_Fr)
                prev = p.po_Bk
            s.bond(prev, end.po_Fr)
        else:
            k = min(c['split'], len(ps))
            if k in (0, len(ps)):
                s.bond_sequence(las.po_Fr, *([p.po_Fr for p in ps] + [end.po_Fr]))
            else:
                s.bond_sequence(las.po_Fr, *[p.po_Fr for p in ps[:k]])
                s.bond_sequence(ps[k - 1].po_Bk, *([p.po_Fr for p in ps[k:]] + [end.po_Fr]))
        reads.append(('end', end.Wpd.o))
        out = {}
        ms = [p for p, k in zip(ps, c['parts']) if k == 'mirror']
        for nm, o in reads:
            out['DC', nm] = pl('dc' + nm, RO.DCReadout(port=o))
            if ms:
                out['AC', nm] = pl('ac' + nm, RO.ACReadout(portD=ms[0].Z.d.o, portN=o))
        res.append(dict((k, r.DC_readout if k[0] == 'DC' else 1e-7 * r.AC_sensitivity) for k, r in out.items()))
    compare(res[0], res[1], 'chain', lambda k: 1e-3, 1e-8)
    return dict(n=len(c['parts'])) if len(c['parts']) > 1 else False
