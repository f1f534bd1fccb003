from vlib.core import *
from vlib import elec
import math

R = Registry('C05', 'electrical noise')

KT = 1.380649e-23 * 299.0
WORDS = [('one-sided', 2), ('two-sided', 1), ('single', 2), ('double', 1), ('one', 2), ('two', 1),
         ('one sided', 2), ('two sided', 1), ('single-sided', 2), ('single sided', 2), ('double-sided', 1), ('double sided', 1)]


def psd_of(src, f):
    """the spectrum a source declares, as a function of |f|"""
    f = abs(f)
    return src['a'] * (1 + src['c'] / (1 + f / src['f0']))


@st.composite
def case_(draw, **kw):
    net = draw(elec.network(dc=False, **kw))
    n_src = draw(st.integers(0, 2))
    srcs = []
    for _ in range(n_src):
        srcs.append(dict(kind=draw(st.sampled_from(['V', 'I'])), alt=draw(chance(0.3)), at=draw(st.integers(0, 40)),
                         a=draw(logf(-3, 2)), c=draw(st.sampled_from([0, 0, 1.0, 10.0])),
                         f0=draw(logf(1, 3)), w=draw(st.integers(0, len(WORDS) - 1))))
    return dict(net=net, pick=[draw(st.integers(0, 40)), draw(st.integers(0, 40))], srcs=srcs,
                q=draw(st.sampled_from(['VV', 'VV', 'VI', 'II'])),
                johnson=draw(chance(0.75)), sided=draw(st.sampled_from([1, 1, 2])),
                solver=draw(st.sampled_from(['loop_LUQ', 'loop_LUQ', 'scisparse'])))


def thermal(e):
    """series resistance of an element (dissipation), or None"""
    if e['t'] == 'TM':
        return 50.0
    if e['t'][0] in 'TS' and len(e['t']) <= 3 and 'R' in e:
        return e['R']
    return None


def oracle(net, case, f, rows_of):
    """CSD matrix (two-sided) and the contribution per noise source"""
    m = elec.Mna(net, f)
    if m.Ainv is None or m.cond > 1e7:
        return None
    rows = rows_of(m)
    H = []   # (label, psd two-sided, response vector)
    if case['johnson']:
        for ie, e in enumerate(net['els']):
            Rr = thermal(e)
            if Rr:
                # an emf in series with the branch: v_a - v_b - Z j = emf
                z = elec.zval(e, f)[1]
                s = 50.0 / (50.0 + abs(z))
                b = np.zeros(m.n, dtype=complex)
                b[m.idx[ie]] = s
                H.append((('th', ie), 2 * KT * Rr, m.Ainv.dot(b)))
    return m, rows, H


def run(case):
    import phasor.electronics as E
    import phasor.readouts as RO
    net = case['net']
    fs = elec.freqs(net)
    s, els, ports, nodes = elec.build(net, solver_name=case['solver'],
                                      include_johnson_noise=case['johnson'], sided_spectra=case['sided'])
    terms = sorted(ports)
    live = [t for t in terms if net['els'][t[0]]['t'] not in ('OA', 'VA', 'CB', 'TF')]
    # explicit sources sit on ports of distinct elements
    nobjs = {}
    used = set()
    for i, src in enumerate(case['srcs']):
        ie, tt = live[src['at'] % len(live)]
        if (ie, tt) in used:
            continue
        used.add((ie, tt))
        word, conv = WORDS[src['w']]
        fn = lambda F, src=src: psd_of(src, F)
        nm = 'fluct%d' % i
        if src['kind'] == 'V':
            setattr(s.own, nm, (E.VoltageFluctuation2 if src['alt'] else E.VoltageFluctuation)(port=ports[ie, tt], Vsq_Hz_by_freq=fn, sided=word))
        else:
            setattr(s.own, nm, (E.noise.CurrentFluctuation2 if src['alt'] else E.CurrentFluctuation)(port=ports[ie, tt], Isq_Hz_by_freq=fn, sided=word))
        nobjs[i] = (getattr(s, nm), ie, tt)

    mets = []
    for j in range(2):
        k = case['pick'][j]
        q = case['q'][j]
        nm = 'm%d' % j
        if q == 'V':
            # read at a port that carries no explicit fluctuation, so "the node" is unambiguous
            cand = [t for t in terms if t not in used]
            if not cand:
                return False
            ie, tt = cand[k % len(cand)]
            nd = net['els'][ie]['n'][tt]
            setattr(s.own, nm, E.VoltageReadout(terminal=ports[ie, tt]))
            mets.append((getattr(s, nm).V.o, lambda m, nd=nd: m.row_V(nd)))
        else:
            cand = [t for t in live if t not in used and net['els'][t[0]]['t'] != 'I']
            if not cand:
                return False
            ie, tt = cand[k % len(cand)]
            setattr(s.own, nm, E.CurrentReadout(terminal=ports[ie, tt], direction='in'))
            mets.append((getattr(s, nm).I.o, lambda m, ie=ie, tt=tt: m.row_I(ie, tt)))
    drv = [ie for ie, e in enumerate(net['els']) if e['t'] in ('V', 'I', 'VB')][0]
    s.own.ac = RO.ACReadout(portD=elec.drive_port(els[drv], net['els'][drv]), portN=mets[0][0])
    s.own.nz = RO.NoiseReadout(port_map=dict(A=mets[0][0], B=mets[1][0]))

    want = {('A', 'A'): [], ('A', 'B'): [], ('B', 'B'): [], ('B', 'A'): []}
    resp = []
    per = {}
    unc = dict(A=0.0, B=0.0)     # noise power before cancellation: sets the roundoff floor
    for f in fs:
        m = elec.Mna(net, f)
        if m.Ainv is None or m.cond > 1e7:
            return False
        rows = dict(A=mets[0][1](m), B=mets[1][1](m))
        resp.append(rows['A'].dot(m.Ainv.dot(m.rhs_source(drv, 1.0))))
        H = []
        for ie, e in enumerate(net['els']):
            Rr = thermal(e)
            if Rr and case['johnson']:
                z = elec.zval(e, f)[1]
                b = np.zeros(m.n, dtype=complex)
                b[m.idx[ie]] = 50.0 / (50.0 + abs(z))
                H.append((('th', ie), 2 * KT * Rr, m.Ainv.dot(b)))
        for i, (nobj, ie, tt) in nobjs.items():
            src = case['srcs'][i]
            S2 = psd_of(src, f) / WORDS[src['w']][1]
            e = net['els'][ie]
            b = np.zeros(m.n, dtype=complex)
            if src['kind'] == 'I':
                b[e['n'][tt]] = 50.0
            else:
                # emf between the node and the element's terminal
                if e['t'] == 'I':
                    H.append((('ex', i), S2, b))
                    continue
                if e['t'] == 'V' or e['t'] == 'VB':
                    sc = 1.0
                else:
                    kind, z = elec.zval(e, f)
                    sc = 50.0 / (50.0 + abs(z)) if kind == 'Z' else z * 50.0 / (1 + 50.0 * abs(z))
                b[m.idx[ie]] = sc
            H.append((('ex', i), S2, m.Ainv.dot(b)))
        adj = 2 if case['sided'] == 1 else 1
        tot = dict((k, 0) for k in want)
        for lab, S2, x in H:
            h = dict((k, rows[k].dot(x)) for k in rows)
            for k in rows:
                unc[k] = max(unc[k], adj * S2 * (np.linalg.norm(rows[k]) * np.linalg.norm(x)) ** 2)
            for (p, q) in want:
                c = adj * S2 * h[p] * np.conj(h[q])
                tot[p, q] = tot[p, q] + c
                if (p, q) == ('A', 'A'):
                    per.setdefault(lab, []).append(c.real)
        for k in want:
            want[k].append(tot[k])
    F = len(fs)

    def arr(x):
        return np.broadcast_to(np.asarray(x), (F,)) if np.ndim(x) == 0 else np.asarray(x)
    csd = s.nz.CSD
    sc = math.sqrt(maxabs(want['A', 'A']) * maxabs(want['B', 'B'])) if H else 1.0
    floor = KT * 1e-9 if not nobjs else 0
    rt = 3e-5 if case['johnson'] else 1e-7    # the Boltzmann constant phasor carries differs at 7e-6
    for k in want:
        ref = {'AA': maxabs(want['A', 'A']), 'BB': maxabs(want['B', 'B'])}.get(k[0] + k[1], sc)
        close(arr(csd[k]), np.array(want[k]), 'CSD%s' % (k,), rtol=rt, scale=ref, atol=1e-9 * math.sqrt(unc[k[0]] * unc[k[1]]) + 1e-60)
    close(arr(s.ac.AC_PSD), np.real(want['A', 'A']), 'AC_PSD', rtol=rt, atol=1e-9 * unc['A'] + 1e-60)
    require(np.all(arr(s.ac.AC_PSD) >= -1e-9 * unc['A']), 'negative noise power %s', show(s.ac.AC_PSD))
    psd = arr(s.ac.AC_PSD)
    ok = psd > 1e-8 * unc['A']
    if np.any(ok):
        close((arr(s.ac.AC_ASD) ** 2)[ok], psd[ok], 'ASD squared vs PSD', rtol=1e-9)
    by = s.ac.AC_PSD_by_source
    tot = np.zeros(F)
    for v in by.values():
        tot = tot + arr(v)
    close(tot, arr(s.ac.AC_PSD), 'sum over sources', rtol=1e-9, atol=1e-9 * unc['A'] + 1e-60)
    for i, (nobj, ie, tt) in nobjs.items():
        close(arr(by.get(nobj, 0)), np.array(per['ex', i]), 'contribution of %s source %d' % (case['srcs'][i]['kind'], i),
              rtol=1e-6, scale=maxabs(want['A', 'A']), atol=1e-9 * unc['A'])
    r = np.abs(arr(s.ac.AC_sensitivity))
    close(r, np.abs(np.array(resp)), '|AC sensitivity|', rtol=1e-6, atol=1e-6)
    if np.all(ok) and np.all(r > 0):
        close(arr(s.ac.AC_noise_limited_sensitivity) * r, np.sqrt(psd), 'noise limited sensitivity', rtol=1e-9)
    return dict(srcs=len(nobjs), th=case['johnson'], q=case['q'], sided=case['sided'])


@R.law(case_(), n=1200, thorough=25000, shards=6,
       rule='solvable network with at least one fluctuation or resistor and two readouts')
def spectra_match_nodal_analysis(case):
    return run(case)


@R.law(case_(cables=True), n=300, thorough=5000, shards=2, rule='same with cables')
def cable_spectra_match_nodal_analysis(case):
    return run(case)


@R.law(case_(opamps=True), n=400, thorough=6000, shards=2, rule='same with finite-gain amplifiers')
def amplifier_spectra_match_nodal_analysis(case):
    return run(case)


@R.law(st.tuples(st.lists(logf(0, 4), min_size=4, max_size=4), logf(-1, 4), logf(-1, 4), logf(-4, -1), logf(-4, -1), st.one_of(logf(1, 4), st.just([10.0, 330.0])),
                 st.sampled_from([1, 2]), st.integers(0, 3), st.booleans()), n=150, thorough=2500, shards=2, rule='both windings reach the readout')
def windings_are_noisy_resistors(case):
    """the noise of a winding is that of an emf of 4kTR in series with it (the response to such an emf is taken from the library)"""
    import phasor.electronics as E
    import phasor.readouts as RO
    from phasor import system
    Rs, R1, R2, L1, L2, F, sided, at, on = case
    s = system.BGSystem(F_AC=np.array(F) if isinstance(F, list) else F, sided_spectra=sided, include_johnson_noise=on)
    s.own.tf = E.Transformer(L1_inductance_Henries=L1, L2_inductance_Henries=L2, L1_resistance_Ohms=R1, L2_resistance_Ohms=R2)
    pins = [s.tf.pe_A, s.tf.pe_B, s.tf.pe_C, s.tf.pe_D]
    rs = []
    for j, r in enumerate(Rs):
        setattr(s.own, 'r%d' % j, E.TerminatorResistor(resistance_Ohms=r))
        rs.append(getattr(s, 'r%d' % j).pe_A)
    s.own.v1 = E.VoltageSourceBalanced()
    s.own.v2 = E.VoltageSourceBalanced()
    for j, v in ((0, s.v1), (2, s.v2)):
        rs[j].bond(v.pe_A)
        v.pe_B.bond(pins[j])
    rs[1].bond(pins[1])
    rs[3].bond(pins[3])
    s.own.m = E.VoltageReadout(terminal=rs[at])
    s.own.a1 = RO.ACReadout(portD=s.v1.V.i, portN=s.m.V.o)
    s.own.a2 = RO.ACReadout(portD=s.v2.V.i, portN=s.m.V.o)
    got = s.a1.AC_PSD_by_source
    if not on:
        require(not got, 'noise although thermal noise is off: %s', show(got))
        return False
    got = dict((k.name_system, v) for k, v in got.items())
    h = [abs(np.asarray(a.AC_sensitivity)) ** 2 for a in (s.a1, s.a2)]
    fac = 4 if sided == 1 else 2
    for w, Rw, x in (('tf.L1_johnson_noise', R1, h[0]), ('tf.L2_johnson_noise', R2, h[1])):
        close(got.get(w, 0), fac * KT * Rw * x, 'noise of ' + w, rtol=3e-5, atol=1e-9 * fac * KT * max(R1, R2) * maxabs(h))
    # and with both and the external resistors the total is what the resistance of the network seen from the readout makes of it
    return dict(at=at, sided=sided) if min(maxabs(x) for x in h) > 1e-9 else False
