from vlib.core import *
from vlib import pol

R = Registry('C11', 'energy conservation, reciprocity and shot noise of passive optics')
KINDS = ['mir', 'mir', 'pm', 'hm', 'pbs', 'rot', 'far', 'hwp', 'qwp', 'wp', 'circ']
RECIP = ['mir', 'mir', 'pm', 'hm', 'pbs', 'rot', 'hwp', 'qwp', 'wp']


def watch(net):
    """every end is a laser or a detector; what returns to a laser is watched by a directional detector"""
    ends = []
    for d in net['ends']:
        d = dict(d)
        if d['kind'] == 'las':
            d['pd'] = True
        elif d['kind'] == 'open' or d['kind'] == 'vac':
            d.update(kind='pd', pd=False)
        else:
            d['pd'] = False
        ends.append(d)
    links = [dict(l, pd=False) for l in net['links']]
    return dict(net, ends=ends, links=links)


def conditioned(net):
    """the closed part of the network is not resonant to the point of being numerically singular"""
    o = pol.Oracle(net)
    for c in o.carr:
        o.inv(c, 0)
    return o if o.cond < 1e5 else None


@R.law(st.tuples(pol.network(kinds=KINDS, loss=True, max_els=6, harmonics=True, all_pd=True), st.booleans()), n=700, thorough=12000, shards=6,
       rule='at least two lit detectors')
def energy_is_conserved(case):
    import phasor.readouts as RO
    net, lossless = case
    net = watch(net)
    if lossless:
        clean = lambda e: dict(e, L=0, Lt=0) if 'L' in e else e
        net['els'] = [dict(clean(e), m=[clean(m) for m in e['m']]) if 'm' in e else clean(e) for e in net['els']]
    o = conditioned(net)
    if o is None:
        return False
    b = pol.build(net)
    tags = sorted(o.taps())
    for t in tags:
        b.own('dc_' + t, RO.DCReadout(port=b.pds[t].Wpd.o))
    Pin = sum(d['P'] for d in net['ends'] if d['kind'] == 'las')
    P = np.array([getattr(b.sys, 'dc_' + t).DC_readout for t in tags], dtype=float)
    require(np.all(P >= -1e-9 * Pin), 'negative power', P)
    losses = [m['L'] + m.get('Lt', 0) for e in net['els'] for m in (e.get('m') or [e]) if 'L' in m]
    if not any(losses):
        close(P.sum(), Pin, 'power leaving a lossless network', rtol=1e-9)
    else:
        require(P.sum() <= Pin * (1 + 1e-9), 'power appears from nowhere', P.sum(), Pin)
    if (P > 1e-6 * Pin).sum() < 2:
        return False
    return dict(els=len(net['els']), lossless=not any(losses), lasers=sum(d['kind'] == 'las' for d in net['ends']))


@R.law(st.tuples(pol.network(kinds=KINDS, loss=True, max_els=5, harmonics=True, all_pd=True), logf(0, 6),
                 st.integers(0, 1000)), n=500, thorough=9000, shards=8, rule='a lit detector')
def shot_noise_is_invariant(case):
    """light that only met passive optics has the shot noise of its own power, and two end detectors
    are uncorrelated"""
    import phasor.readouts as RO
    net, f, k = case
    net = watch(net)
    o = conditioned(net)
    if o is None:
        return False
    for c in o.carr:
        o.inv(c, f), o.inv(c, -f)
    if o.cond > 1e5:
        return False
    P = o.powers(percarrier=True)
    tags = [t for t in sorted(P) if t[0] == 'E' and sum(P[t].values()) > 1e-6]
    if not tags:
        return False
    A = tags[k % len(tags)]
    B = ([t for t in tags if t != A] or [A])[(k // 7) % max(1, len(tags) - 1)]
    b = pol.build(net, freq=f)
    nz = b.own('nz', RO.NoiseReadout(port_map=dict(A=b.pds[A].Wpd.o, B=b.pds[B].Wpd.o)))
    want = {}
    for t in (A, B):
        want[t] = sum(2 * pol.H_JS * pol.C_M_S * c / pol.LAM * p for c, p in P[t].items())
    rt = 1e-5
    csd = nz.CSD
    close(csd['A', 'A'], want[A], 'shot noise at %s' % A, rtol=rt)
    close(csd['B', 'B'], want[B], 'shot noise at %s' % B, rtol=rt)
    if A != B:
        close(csd['A', 'B'], 0, 'noise correlation of %s and %s' % (A, B), rtol=rt, scale=(want[A] * want[B]) ** 0.5)
    return dict(els=len(net['els']), two=A != B, carriers=len([1 for c in o.carr if P[A][c] > 1e-9]))


@R.law(st.tuples(pol.network(kinds=RECIP, loss=True, max_els=5, harmonics=True, all_pd=True), st.sampled_from('SP'), st.sampled_from('SP'),
                 st.sampled_from([1, 1, 2]), st.integers(0, 1000)), n=500, thorough=9000, shards=6,
       rule='light reaches the other end')
def transmission_is_reciprocal(case):
    """without magnetic elements, exchanging source and (polarization resolving) detector changes nothing"""
    import phasor.readouts as RO
    net, sa, sb, c, k = case
    n = len(net['ends'])
    if n < 2:
        return False
    a = k % n
    z = (a + 1 + (k // 20) % (n - 1)) % n

    def run(src, s, dst, t):
        ends = []
        for j, d in enumerate(net['ends']):
            d = dict(p=d['p'], L=d['L'], det=d['det'], kind='vac')
            if j == src:
                d.update(kind='las', P=1.0, s=s, c=c, ph=0)
            if j == dst:
                d.update(kind='open')
            ends.append(d)
        m = dict(net, ends=ends, links=[dict(l, pd=False) for l in net['links']])
        if conditioned(m) is None:
            return None
        b = pol.build(m)
        import phasor.optics as O
        b.own('an', O.PolarizingSelector())
        b.own('pd', O.PD())
        p = net['ends'][dst]['p']
        b.sys.bond(getattr(getattr(b.sys, 'x%d' % p[0]), p[1]), b.sys.an.po_Fr)
        b.sys.bond(getattr(b.sys.an, 'Bk_' + t), b.sys.pd.po_Fr)
        return float(np.real(b.own('dc', RO.DCReadout(port=b.sys.pd.Wpd.o)).DC_readout))
    p = run(a, sa, z, sb)
    if p is None:
        return False
    q = run(z, sb, a, sa)
    close(p, q, 'transmission forth and back', rtol=1e-8, scale=1.0)
    if p < 1e-6:
        return False
    return dict(els=len(net['els']), links=len(net['links']), same=sa == sb)
