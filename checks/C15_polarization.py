from vlib.core import *
from vlib import pol

R = Registry('C15', 'polarization')


def compare_powers(net, extra=None):
    import phasor.readouts as RO
    o = pol.Oracle(net)
    P = o.powers()
    if not P or o.cond > 1e6:
        return False
    b = pol.build(net)
    for t in sorted(P):
        b.own('dc_' + t, RO.DCReadout(port=b.pds[t].Wpd.o))
    top = max(P.values())
    if top < 1e-9:
        return False
    for t in sorted(P):
        close(getattr(b.sys, 'dc_' + t).DC_readout, P[t], 'power at %s' % t, rtol=1e-8, scale=top)
    kinds = [e['k'] for e in net['els']]
    return dict(els=len(kinds), links=len(net['links']), lit=min(3, sum(1 for v in P.values() if v > 1e-9 * top)))


@R.law(pol.network(loss=True, max_els=5), n=900, thorough=16000, shards=6, rule='a detector is lit and the network is well conditioned')
def powers_match_jones_calculus(net):
    return compare_powers(net)


@st.composite
def bench(draw):
    """laser, a row of plates, an analyser; the row is passed back and forth if it ends in a mirror"""
    row = [draw(pol.element(['rot', 'far', 'hwp', 'qwp', 'wp'])) for _ in range(draw(st.integers(1, 4)))]
    els = row + [draw(pol.element(['sel', 'pbs', 'psel', 'pbs']))]
    seg = lambda: dict(L=draw(st.sampled_from([0, 1.0])), det=0, flip=draw(st.booleans()), pd=draw(chance(0.3)))
    an = len(row)
    links, prev = [], None
    back = draw(st.booleans()) and els[an]['k'] == 'pbs'
    if back:
        els.append(dict(k='mir', a=0, T=draw(st.sampled_from([0, 0.5, 0.9])), L=0, flip=draw(st.booleans())))
        start, chain = [an, 'po_BkA'], [[an, 'po_FrA']]
    else:
        start, chain = None, []
    ends = []
    nodes = [([i, 'po_Fr'], [i, 'po_Bk']) for i in range(an)]
    nodes = [(b, a) if draw(st.booleans()) else (a, b) for a, b in nodes]
    s = draw(st.sampled_from('SP'))
    las = dict(seg(), kind='las', P=1.0, s=s, c=1, ph=0)
    if back:
        cur = [an, 'po_FrA']
        ends.append(dict(las, p=[an, 'po_BkA']))
        pds = [[an, 'po_FrB'], [an, 'po_BkB'], [an + 1, 'po_Bk']]
        nodes.append(([an + 1, 'po_Fr'], None))
    else:
        cur = nodes[0][1]
        ends.append(dict(las, p=nodes[0][0]))
        first = 'po_FrA' if els[an]['k'] == 'pbs' else 'po_Fr'
        nodes = nodes[1:] + [([an, first], None)]
        pds = [[an, p] for p in pol.ports_of(els[an]) if p != first]
    for a, b in nodes:
        links.append(dict(seg(), p=cur, q=a))
        cur = b
    ends += [dict(seg(), kind='pd', p=p) for p in pds]
    return dict(els=els, links=links, ends=ends, order=draw(st.permutations(list(range(len(els) + len(links) + len(ends))))))


@R.law(st.tuples(bench(),
                 st.lists(st.sampled_from(pol.ANGLES), min_size=2, max_size=3), st.integers(0, 9)), n=500, thorough=8000, shards=3,
       rule='an element with an angle, a lit detector whose power depends on the angle')
def swept_angles(case):
    import phasor.readouts as RO
    net, degs, k = case
    which = [i for i, e in enumerate(net['els']) if 'deg' in e]
    if not which:
        return False
    k = which[k % len(which)]

    def at(deg):
        return dict(net, els=[dict(e, deg=deg) if i == k else e for i, e in enumerate(net['els'])])
    want = []
    for d in degs:
        o = pol.Oracle(at(d))
        want.append(o.powers())
        if not want[-1] or o.cond > 1e6:
            return False
    top = max(v for w in want for v in w.values())
    if top < 1e-9:
        return False
    b = pol.build(at(degs))
    for t in sorted(want[0]):
        b.own('dc_' + t, RO.DCReadout(port=b.pds[t].Wpd.o))
    dep = False
    for t in sorted(want[0]):
        v = np.array([w[t] for w in want])
        got = np.asarray(getattr(b.sys, 'dc_' + t).DC_readout)
        close(np.broadcast_to(got, v.shape), v, 'power at %s along the sweep' % t, rtol=1e-8, scale=top)
        dep = dep or np.ptp(v) > 1e-6 * top
    return dict(points=len(degs)) if dep else False


PLATES = ['rot', 'far', 'hwp', 'qwp', 'wp', 'rot', 'far', 'hwp', 'qwp', 'sel', 'pbs', 'mir']


@R.law(st.tuples(pol.network(kinds=PLATES, loss=False, mods=True, max_els=5), logf(0, 6), st.integers(0, 50)), n=500, thorough=9000, shards=4,
       rule='a lit detector and a modulator present, well conditioned')
def modulation_of_polarized_light(case):
    return compare_response(case)


def compare_response(case):
    import phasor.readouts as RO
    net, f, k = case
    o = pol.Oracle(net)
    taps = sorted(o.taps())
    mods = ['l%d' % j for j, d in enumerate(net['links']) if d.get('mod')]
    mods += ['e%d' % j for j, d in enumerate(net['ends']) if d.get('mod')]
    P = o.powers()
    if not taps or not mods or max(P.values() or [0]) < 1e-9:
        return False
    m = mods[k % len(mods)]
    want = o.response(f, m)
    if o.cond > 1e6:
        return False
    b = pol.build(net, freq=f)
    for t in taps:
        b.own('ac_' + t, RO.ACReadout(portD=b.mods[m].Drv.i, portN=b.pds[t].Wpd.o, include_noise=False))
    for t in taps:
        close(getattr(b.sys, 'ac_' + t).AC_sensitivity, want[t], 'response of %s to modulator %s' % (t, m), rtol=1e-7,
              scale=max(P.values()))
    return dict(mod=len(mods), hit=any(abs(v) > 1e-9 for v in want.values()))
