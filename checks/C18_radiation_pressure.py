from vlib.core import *
from vlib import opt
import math

R = Registry('C18', 'radiation pressure')


def cavity(draw, net, i):
    """puts suspended mirror i behind a new input mirror lit by a laser: a (detuned) cavity"""
    net['mirrors'][i]['a'] = 0
    net['mirrors'].append(dict(a=0, T=draw(st.sampled_from([0.5, 0.1, 0.3, 0.03])), L=draw(st.sampled_from([0, 0, 0.05])),
                               Lt=0, flip=draw(st.booleans())))
    j = len(net['mirrors']) - 1
    ports = lambda d: [tuple(d['p'])] + ([tuple(d['q'])] if 'q' in d else [])
    gone = [(i, k) for k in range(4)]
    keep = []
    for d in net['links']:
        if any(p in gone for p in ports(d)):
            for p in ports(d):
                if p not in gone:
                    net['ends'].append(dict(p=list(p), kind='vac', L=None, det=0))
        else:
            keep.append(d)
    net['links'][:] = keep
    net['ends'][:] = [d for d in net['ends'] if tuple(d['p']) not in gone]
    net['ends'].append(dict(p=[i, 1], kind='vac', L=None, det=0))
    L = draw(st.sampled_from([1, 4000.0, 10.5]))
    net['links'].append(dict(p=[i, 0], q=[j, 1], L=L, det=opt.detune(draw), pd=draw(st.booleans())))
    las = dict(p=[j, 0], kind='las', L=0, det=0, P=draw(st.sampled_from([1.0, 10.0])), c=0, s='S')
    if draw(st.booleans()) or not net['ends']:
        # the laser comes in over a power recycling mirror
        net['mirrors'].append(dict(a=0, T=draw(st.sampled_from([0.5, 0.9])), L=0, Lt=0, flip=draw(st.booleans())))
        net['links'].append(dict(p=[j, 0], q=[j + 1, 1], L=draw(st.sampled_from([0, 50.0])), det=opt.detune(draw), pd=True))
        las['p'] = [j + 1, 0]
    if draw(st.booleans()):
        las['pd'] = True
    if draw(st.booleans()):
        las['mod'] = draw(st.sampled_from(['AM', 'PM']))
    net['ends'].append(las)
    net['flips'] = [draw(st.booleans()) for _ in net['links']]


@st.composite
def rp_case(draw):
    net = draw(opt.network(array=False, bs=False, mods=True, lasers=2, max_mirrors=4))
    n = len(net['mirrors'])
    sus = sorted(set(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2))))
    links = []
    ends = net['ends']
    if draw(chance(0.7)):
        cavity(draw, net, sus[0])
    for i in sus:
        net['mirrors'][i].update(T=0.0, L=0, Lt=0, flip=False)
        net['mirrors'][i].pop('ph', None)
    back = lambda p: p[0] in sus and p[1] >= opt.nports(net['mirrors'][p[0]]) // 2
    for d in net['links']:
        if back(d['p']) or back(d['q']):
            for p in (d['p'], d['q']):
                ends.append(dict(p=p, kind='vac' if back(p) else 'pd', L=None if back(p) else 0, det=0))
        else:
            links.append(d)
    for d in ends:
        if back(d['p']):
            d.update(kind='vac', L=None, det=0)
            d.pop('mod', None)
            d.pop('pd', None)
    if not any(d['kind'] == 'las' for d in ends):
        for d in ends:
            if not back(d['p']):
                d.update(kind='las', P=1.0, c=0, s='S')
                d['L'] = d['L'] or 0
                break
    net['links'] = links
    net['flips'] = net['flips'][:len(links)]
    n = len(net['mirrors'])
    net['order'] = draw(st.permutations(list(range(n + len(links) + len(ends)))))
    boost = draw(st.sampled_from([1.0, 1e3, 1e6, 1e6]))
    for d in ends:
        if d['kind'] == 'las':
            d['P'] *= boost
    mech = {}
    for i in sus:
        m = dict(mass=draw(st.sampled_from([1e-6, 1e-3, 1.0])))
        if draw(chance(0.5)):
            m['k'] = draw(logf(0, 4))
        mech[str(i)] = m
    f = draw(st.one_of(logf(0, 4), st.lists(logf(0, 4), min_size=2, max_size=2)))
    return dict(net=net, mech=mech, F=f, pick=draw(st.integers(0, 20)), drv=draw(st.integers(0, 20)))


def attach(b, mech, nm=''):
    import phasor.mechanical as M
    for i, m in sorted(mech.items()):
        Z = b.mirrors[int(i)].Z
        Z.bond(b.own('mass%s%s' % (nm, i), M.Mass(mass_kg=m['mass'])).pm_A)
        if 'k' in m:
            Z.bond(b.own('spr%s%s' % (nm, i), M.TerminatorSpring(elasticity_N_m=m['k'])).pm_A)


def dark_susceptibility(mech, fs):
    """motion per unit of force applied at the mirror, no light: measured on phasor itself"""
    import phasor.system as S
    import phasor.optics as O
    import phasor.readouts as RO
    import phasor.mechanical as M
    chi = {}
    for i, m in mech.items():
        s = S.BGSystem(F_AC=np.array(fs))
        s.own.m = O.Mirror(T_hr=0)
        s.own.mass = M.Mass(mass_kg=m['mass'])
        s.m.Z.bond(s.mass.pm_A)
        if 'k' in m:
            s.own.spr = M.TerminatorSpring(elasticity_N_m=m['k'])
            s.m.Z.bond(s.spr.pm_A)
        s.own.r = RO.ACReadout(portD=s.m.Z.F.i, portN=s.m.Z.d.o, include_noise=False)
        chi[int(i)] = np.broadcast_to(s.r.AC_sensitivity, (len(fs),))
    return chi


@R.law(rp_case(), n=640, thorough=12000, shards=8,
       rule='a suspended full reflector lit from the front, detector present, loop gain away from instability poles')
def suspended_mirrors_close_the_optical_loop(case):
    import phasor.readouts as RO
    net, mech = case['net'], case['mech']
    fs = case['F'] if isinstance(case['F'], list) else [case['F']]
    o = opt.Oracle(net)
    if o.carriers() is None or o.cond > 1e5:
        return False
    sus = sorted(int(i) for i in mech)
    P = o.powers()
    lit = [g for g in sorted(P) if P[g] > 1e-6]
    Fdc = dict((i, sum(o.force(i, k, E, 0 * E).real for k, E in o.carriers().items())) for i in sus)
    if not lit or max(Fdc.values()) < 1e-12:
        return False
    tag = lit[case['pick'] % len(lit)]
    drives = [('Z', i) for i in range(len(net['mirrors']))]
    drives += [('mod', 'l%d' % j) for j, d in enumerate(net['links']) if d.get('mod')]
    drives += [('mod', 'e%d' % j) for j, d in enumerate(net['ends']) if d.get('mod') and d['L'] is not None]
    drive = drives[::-1][case['drv'] % len(drives)]

    b = opt.build(net, freq=case['F'], include_johnson_noise=False)
    attach(b, mech)
    n = len(fs)
    dport = b.mirrors[drive[1]].Z.d.o if drive[0] == 'Z' else b.mods[drive[1]].Drv.i
    pd = b.pds[tag].Wpd.o
    r_pd = b.own('r_pd', RO.ACReadout(portD=dport, portN=pd))
    r_f = dict((i, b.own('r_f%d' % i, RO.ACReadout(portD=dport, portN=b.mirrors[i].Z.F.i, include_noise=False))) for i in sus)
    r_dc = dict((i, b.own('r_dc%d' % i, RO.DCReadout(port=b.mirrors[i].Z.F.i))) for i in sus)
    sign = {}
    for i in sus:
        got = r_dc[i].DC_readout
        close(abs(np.asarray(got)), Fdc[i], 'light force on mirror %d' % i, rtol=1e-7, scale=max(Fdc.values()) * 1e-3)
        sign[i] = -1.0 if np.all(np.asarray(got) < 0) else 1.0

    chi = dark_susceptibility(mech, fs)
    w_pd, w_f, w_n = [], dict((i, []) for i in sus), []
    gain = 0
    for kf, f in enumerate(fs):
        X = np.array([chi[i][kf] for i in sus])
        K = np.zeros((len(sus), len(sus)), dtype=complex)
        pdz = []
        for jj, j in enumerate(sus):
            rz = o.response(f, ('Z', j))
            if rz is None:
                return False
            for ii, i in enumerate(sus):
                K[ii, jj] = sign[i] * sum(o.force(i, k, v[0], v[1]) for k, v in rz.items())
            pdz.append(o.pd_response(f, ('Z', j))[tag])
        loop = X[:, None] * K
        A = np.eye(len(sus)) - loop
        if np.linalg.cond(A) > 1e3:
            return False
        gain = max(gain, maxabs(loop))
        Ai = np.linalg.inv(A)
        rd = o.response(f, drive)
        F0 = np.array([sign[i] * sum(o.force(i, k, v[0], v[1]) for k, v in rd.items()) for i in sus])
        z = Ai.dot(X * F0)
        w_pd.append(o.pd_response(f, drive)[tag] + np.dot(pdz, z))
        # the force readout sits before the susceptibility
        Ft = F0 + K.dot(z)
        for ii, i in enumerate(sus):
            w_f[i].append(Ft[ii])
        tot = 0.0
        for (name, key, hv, ai, ao, bi, bo), row in zip(o.vac_sources(f), o.noise_rows(f, tag)):
            for q, (va, vb) in enumerate([(ai, 0 * bi), (0 * ai, bi)]):
                Fv = np.array([sign[i] * o.force(i, key, va, vb) for i in sus])
                t = row[3 + q] + np.dot(pdz, Ai.dot(X * Fv))
                tot += hv * abs(t) ** 2
        w_n.append(tot)
    sc = 1e7 * max(P[tag], 1e-6) if drive[0] == 'Z' else max(P[tag], 1e-6)
    close(np.broadcast_to(r_pd.AC_sensitivity, (n,)), np.array(w_pd), 'response of %s to %s' % (tag, drive),
          rtol=2e-6, scale=1e-2 * sc)
    fsc = max(Fdc.values()) * (1e7 if drive[0] == 'Z' else 1.0)
    for i in sus:
        close(np.broadcast_to(r_f[i].AC_sensitivity, (n,)), np.array(w_f[i]), 'force on mirror %d from %s' % (i, drive),
              rtol=2e-6, scale=1e-2 * fsc)
    close(np.broadcast_to(r_pd.AC_PSD, (n,)), np.array(w_n), 'quantum noise with back action', rtol=2e-5)
    return dict(gain='strong' if gain > 0.1 else ('weak' if gain > 1e-4 else 'tiny'), sus=len(sus), drive=drive[0])


def _lit_mirror(T, side='Fr'):
    import phasor.system as S
    import phasor.optics as O
    import phasor.readouts as RO
    s = S.BGSystem()
    s.own.m = O.Mirror(T_hr=T)
    s.own.l = O.Laser(F=s.F_carrier_1064, power_W=1.)
    s.bond(s.l.po_Fr, getattr(s.m, 'po_' + side))
    s.own.r = RO.DCReadout(port=s.m.Z.F.i)
    return float(np.asarray(s.r.DC_readout).real)


@R.finding('force-amplitude')
def _force_amplitude():
    # R = 1/2: the recoil is 2 R P / c
    return abs(abs(_lit_mirror(0.5)) - 2 * 0.5 / opt.C_M_S) > 1e-3 / opt.C_M_S


@R.finding('force-back')
def _force_back():
    # light from the back pushes the other way
    return _lit_mirror(0.0, 'Fr') * _lit_mirror(0.0, 'Bk') > 0


@R.finding('force-sign')
def _force_sign():
    # light on the front pushes the mirror away, which lengthens the path (positive z does)
    return _lit_mirror(0.0, 'Fr') < 0


@R.finding('free-susceptibility')
def _free_susceptibility():
    # a free mass moves by F/(m (i w)^2)
    chi = dark_susceptibility({'0': dict(mass=1.0)}, [1.0])[0][0]
    return abs(chi / (1 / (2j * math.pi) ** 2) - 1) > 1e-3
