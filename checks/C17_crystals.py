from vlib.core import *
from vlib import xtal, pol, aom
import math

R = Registry('C17', 'nonlinear crystals')
KINDS = ['xtal', 'xtal', 'xtal', 'mir', 'hm', 'hm', 'hwp', 'rot', 'wp']
NS = (7, 14, 28)


@st.composite
def case_(draw, mods=False):
    net = draw(xtal.network(kinds=KINDS, max_els=4, loss=True, mods=mods, all_pd=True))
    if not net['xtals']:
        net['els'][0] = dict(k='xtal', g=draw(st.sampled_from([0.1, 0.5])), mm=10, N=10)
        have = set(pol.ports_of(net['els'][0]))
        ok = lambda p: p[0] != 0 or p[1] in have
        if not all(ok(d['p']) for d in net['ends']) or not all(ok(d['p']) and ok(d['q']) for d in net['links']):
            # ports of a four-port mirror: keep the first two
            sw = {'po_FrA': 'po_Fr', 'po_BkA': 'po_Bk'}
            fix = lambda p: [p[0], sw.get(p[1], p[1])] if p[0] == 0 else p
            net['links'] = [dict(d, p=fix(d['p']), q=fix(d['q'])) for d in net['links']]
            net['ends'] = [dict(d, p=fix(d['p'])) for d in net['ends']]
            net['links'] = [d for d in net['links'] if ok(d['p']) and ok(d['q'])]
            net['ends'] = [d for d in net['ends'] if ok(d['p'])]
            used = [tuple(x) for d in net['links'] for x in (d['p'], d['q'])] + [tuple(d['p']) for d in net['ends']]
            for i, e in enumerate(net['els']):      # those whose partner went
                net['ends'] += [dict(p=[i, x], kind='pd', L=0, det=0) for x in pol.ports_of(e) if (i, x) not in used]
            net['order'] = list(range(len(net['els']) + len(net['links']) + len(net['ends'])))
        net['xtals'] = [0]
    segs = net['links'] + [d for d in net['ends'] if d['kind'] == 'las']
    if mods and segs and not any(d.get('mod') for d in segs):
        segs[draw(st.integers(0, 60)) % len(segs)]['mod'] = draw(st.sampled_from(['AM', 'PM']))
    return dict(net=net, F=draw(st.sampled_from([1e3, 3e4, 1e6])), pick=draw(st.integers(0, 60)),
                c=draw(st.sampled_from([1, 1, 2])), s=draw(st.sampled_from('SP')), P=draw(st.sampled_from([1.0, 4.0])),
                ph=draw(linf(-3, 3, 60)), exact=draw(chance(0.7)), deg=draw(st.one_of(st.sampled_from([0, 90, 45]), linf(-180, 180, 72))))


def solved(case):
    if not any(d['kind'] == 'las' for d in case['net']['ends']):
        return None
    o = xtal.Oracle(case['net'])
    if len(o.x) > 12:
        return None
    with np.errstate(all='ignore'):
        try:
            u = o.solve()
        except np.linalg.LinAlgError:
            return None
    if u is None:
        return None
    u0 = max(maxabs(u[i]) for i, _, _ in o.x)
    return o if u0 > 1e-3 or max(maxabs(u[o.n + i]) for i, _, _ in o.x) > 1e-3 else None


def limit(case, o, read):
    """what phasor tends to as the integration steps of the crystals shrink, and how well that is known"""
    r = []
    for n in NS:
        net = dict(case['net'], els=[dict(e, N=n) if e['k'] == 'xtal' else e for e in case['net']['els']])
        b = pol.build(net, freq=case['F'], tail=case.get('tail'))
        if case['exact']:
            b.sys.exact_order = 7
        r.append(np.array(read(b)))
    best = (r[0] - 6 * r[1] + 8 * r[2]) / 3
    est = np.maximum(abs(best - (2 * r[2] - r[1])), abs(r[2] - r[1]) * 0.02)
    return best, np.max(est) + (0 if case['exact'] else 1e-3 * maxabs(best))      # the solver stops at 1e-4 of the fields


def agree(best, est, want, what, scale, rtol=1e-6):
    close(best, want, what, rtol=rtol, scale=scale, atol=3 * float(est))


@R.law(case_(), n=120, thorough=6000, shards=8, rule='light in a crystal, no instability, and at least a thousandth of the light converted')
def powers_follow_the_coupled_waves(case):
    import phasor.readouts as RO
    o = solved(case)
    if o is None:
        return False
    taps = o.taps()
    tags = sorted(taps)
    if not tags:
        return False

    def read(b):
        for t in tags:
            b.own('dc_' + t, RO.DCReadout(port=b.pds[t].Wpd.o))
        return [float(getattr(b.sys, 'dc_' + t).DC_readout) for t in tags]
    want = np.array([o.power(taps[t]) for t in tags])
    tot = sum(d['P'] for d in case['net']['ends'] if d['kind'] == 'las')
    lin = xtal.Oracle(dict(case['net'], els=[dict(e, g=1e-9) if e['k'] == 'xtal' else e for e in case['net']['els']]))
    if lin.solve() is None:
        return False
    dev = max(abs(lin.power(taps[t], c) - o.power(taps[t], c)) for t in tags for c in (1, 2))
    if dev < 1e-3 * tot and case['pick'] % 4:
        return False
    best, est = limit(case, o, read)
    agree(best, est, want, 'powers at %s' % tags, tot)
    if dev < 1e-3 * tot:
        return False
    return dict(conv=round(math.log10(dev / tot)), crystals=len(case['net']['xtals']), loop=len(case['net']['links']) > 1,
                err=round(math.log10(est / tot + 1e-12)))


def homodyne(case, where):
    """the beams put in front of the detector at end `where`: a homodyne detector with its own local oscillator"""
    def tail(b, j, d):
        from phasor import optics
        if j != where:
            return []
        b.own('lo', optics.Laser(F=b.sys.F_carrier_1064, multiple=case['c'], power_W=case['P'], phase_rad=case['ph'],
                                 polarization=case['s']))
        b.hd = b.own('hd', optics.HiddenVariableHomodynePD(phase_deg=case['deg'], source_port=b.sys.lo.po_Fr.o))
        return [b.hd]
    return tail


def seen(case, o):
    """(tags of lit detectors, end with the homodyne detector or None)"""
    taps = o.taps()
    tags = [t for t in sorted(taps) if o.power(taps[t]) > 1e-3]
    ends = [int(t[1:]) for t in taps if t[0] == 'E']
    return tags, taps, (ends[case['pick'] % len(ends)] if ends else None)


@R.law(case_(mods=True), n=90, thorough=5000, shards=8, rule='a modulator whose effect on a detector the crystals change by more than a thousandth')
def response_is_the_derivative_of_the_coupled_waves(case):
    import phasor.readouts as RO
    o = solved(case)
    if o is None:
        return False
    tags, taps, he = seen(case, o)
    net = case['net']
    mods = ['l%d' % j for j, d in enumerate(net['links']) if d.get('mod')] + ['e%d' % j for j, d in enumerate(net['ends']) if d.get('mod')]
    if not tags or not mods:
        return False
    f = case['F']
    lo = (case['c'], case['s'], math.sqrt(case['P']) * np.exp(1j * case['ph']))
    th = math.radians(case['deg'])

    def want(o, mt):
        src, add = o.drive(f, mt)
        y = o.audio(f, src, 0 * src)
        md = (net['links'] if mt[0] == 'l' else net['ends'])[int(mt[1:])]
        w = [o.row_W(taps[t], f).dot(y + add if taps[t] is md else y) for t in tags]
        if he is not None:
            d = net['ends'][he]
            for x in (th, th + math.pi / 2):
                w.append(o.row_H(d, f, lo, x).dot(y + add if d is md else y))
        return np.array(w)
    lin = xtal.Oracle(dict(net, els=[dict(e, g=1e-9) if e['k'] == 'xtal' else e for e in net['els']]))
    if lin.solve() is None:
        return False
    devs = [(maxabs(want(lin, m) - want(o, m)), m) for m in mods]
    good = [x for x in devs if x[0] > 1e-3]
    if not good:
        return False
    dev, mt = good[case['pick'] % len(good)]
    w = want(o, mt)

    def read(b):
        drv = b.mods[mt].Drv.i
        r = [b.own('a_' + t, RO.ACReadout(portN=b.pds[t].Wpd.o, portD=drv, include_noise=False)) for t in tags]
        if he is not None:
            r += [b.own('h' + q, RO.ACReadout(portN=getattr(b.hd, 'rtWpd' + q).o, portD=drv, include_noise=False)) for q in 'IQ']
        return [complex(x.AC_sensitivity) for x in r]
    best, est = limit(dict(case, tail=homodyne(case, he)), o, read)
    agree(best, est, w, 'response of %s (then I, Q at end %s) to %s' % (tags, he, mt), 1.0, rtol=1e-5)
    return dict(dev=round(math.log10(dev)), crystals=len(net['xtals']), mod=mt[0], loop=len(net['links']) > 1,
                err=round(math.log10(est + 1e-12)))


@R.law(case_(), n=80, thorough=5000, shards=8, rule='noise that differs by more than a thousandth from that without crystals')
def quantum_noise_is_that_of_the_coupled_waves(case):
    import phasor.readouts as RO
    o = solved(case)
    if o is None:
        return False
    tags, taps, he = seen(case, o)
    if not tags:
        return False
    f = case['F']
    A = tags[case['pick'] % len(tags)]
    net = case['net']
    lo = (case['c'], case['s'], math.sqrt(case['P']) * np.exp(1j * case['ph']))
    th = math.radians(case['deg'])

    def want(o):
        rows = [o.row_W(taps[A], f)]
        if he is not None:
            d = net['ends'][he]
            rows += [o.row_H(d, f, lo, x) for x in (th, th + math.pi / 2)]
        tot = np.zeros((len(rows), len(rows)), complex)
        for hv, src, q in o.vacuum(f):
            y = o.audio(f, src, q)
            v = np.array([r.dot(y) for r in rows])
            tot += hv * np.outer(v, np.conj(v))
        if he is not None:      # the local oscillator's own vacuum beats with the light on the detector
            E = o.E(net['ends'][he]).get(lo[:2], 0)
            hv = xtal.H_JS * xtal.C_M_S / xtal.LAM * lo[0]
            for k in (0, 1):
                v = np.array([0] + [(np.exp(-1j * x) * np.conj(E) if k == 0 else np.exp(1j * x) * E) / 2 / abs(lo[2]) for x in (th, th + math.pi / 2)])
                tot += hv * np.outer(v, np.conj(v))
        return tot
    w = want(o)
    lin = xtal.Oracle(dict(net, els=[dict(e, g=1e-9) if e['k'] == 'xtal' else e for e in net['els']]))
    if lin.solve() is None:
        return False
    names = ['A', 'I', 'Q'][:len(w)]
    sc = np.sqrt(np.real(np.diag(w)))
    if np.min(sc) < 1e-12:
        return False
    dev = maxabs((want(lin) - w) / np.outer(sc, sc))
    if dev < 1e-3:
        return False

    def read(b):
        pm = dict(A=b.pds[A].Wpd.o)
        if he is not None:
            pm.update(I=b.hd.rtWpdI.o, Q=b.hd.rtWpdQ.o)
        n = b.own('n', RO.NoiseReadout(port_map=pm))
        return np.array([[complex(n.CSD[p, q]) for q in names] for p in names]) / np.outer(sc, sc)
    best, est = limit(dict(case, tail=homodyne(case, he)), o, read)
    agree(best, est, w / np.outer(sc, sc), 'noise of %s' % names, 1.0, rtol=2e-5)
    return dict(dev=round(math.log10(dev)), crystals=len(net['xtals']), hd=he is not None, err=round(math.log10(est + 1e-12)))


# ---------------------------------------------------------------- acousto-optic modulators

def extrapolate(read):
    r = [np.array(read(n)) for n in (8, 16, 32)]
    best = (r[0] - 6 * r[1] + 8 * r[2]) / 3
    return best, float(np.max(np.maximum(abs(best - (2 * r[2] - r[1])), abs(r[2] - r[1]) * 0.02)))


@R.law(st.tuples(aom.chain(), st.booleans()), n=48, thorough=4000, shards=8, rule='light diffracted by more than a hundredth')
def acousto_optic_powers(case):
    import phasor.readouts as RO
    c, sweep = case
    a0 = c['aoms'][0]['tones'][0][1]
    amps = [a0, a0 * 0.5, 0.0] if sweep else [a0]
    want = np.array([aom.Oracle(c, {(0, 0): v}).powers() for v in amps]).T

    def read(n):
        b = aom.build(c, n, amps={(0, 0): np.array(amps) if sweep else a0})
        r = [b.own('d%d' % k, RO.DCReadout(port=b.pds[k].Wpd.o)) for k in (0, 1)]
        return [np.broadcast_to(np.asarray(x.DC_readout, dtype=float), (len(amps),)) for x in r]
    best, est = extrapolate(read)
    tot = sum(d['P'] for d in c['ins'] if d)
    agree(best, est, want, 'powers', tot)
    off = aom.Oracle(dict(c, aoms=[dict(a, tones=[]) for a in c['aoms']])).powers()
    if maxabs(want[:, 0] - off) < 1e-2 * tot:
        return False
    return dict(aoms=len(c['aoms']), tones=sum(len(a['tones']) for a in c['aoms']), bs=c['T'] is not None, sweep=sweep,
                err=round(math.log10(est / tot + 1e-12)))


@R.law(st.tuples(aom.chain(mods=True), logf(2, 7), st.integers(0, 9)), n=32, thorough=4000, shards=8,
       rule='a modulated beam or drive whose modulation reaches a detector')
def acousto_optic_responses(case):
    import phasor.readouts as RO
    c, f, pick = case
    ds = ['in%d' % k for k, d in enumerate(c['ins']) if d and d['mod']] + ['aom%d' % j for j, a in enumerate(c['aoms']) if a['mod']]
    if not ds:
        return False
    dr = ds[pick % len(ds)]
    want = np.array(aom.Oracle(c).response(dr, f))
    if maxabs(want) < 1e-3:
        return False

    def read(n):
        b = aom.build(c, n, freq=f)
        r = [b.own('a%d' % k, RO.ACReadout(portN=b.pds[k].Wpd.o, portD=b.drives[dr].i, include_noise=False)) for k in (0, 1)]
        return [complex(x.AC_sensitivity) for x in r]
    best, est = extrapolate(read)
    tot = sum(d['P'] for d in c['ins'] if d)
    agree(best, est, want, 'response to %s' % dr, tot)
    return dict(aoms=len(c['aoms']), dr=dr[:2], bs=c['T'] is not None, err=round(math.log10(est / tot + 1e-12)))
