from vlib.core import *
from vlib import mech

R = Registry('C07', 'mechanical networks')


@st.composite
def case_(draw, **kw):
    return dict(net=draw(mech.network(**kw)), pick=[draw(st.integers(0, 60)) for _ in range(3)],
                dir=draw(st.sampled_from(['in', 'out'])), diff=draw(chance(0.3)), dc=draw(st.booleans()))


def run(case):
    import phasor.mechanical as M
    import phasor.electronics as E
    import phasor.readouts as RO
    net = case['net']
    fs = mech.freqs(net)
    T = [mech.Tableau(net, f) for f in fs]
    if any(t.inv is None or t.cond > 1e7 for t in T):
        return False
    dc = None
    if case['dc'] and not any(e['t'] == 'ST' for e in net['els']):
        dc = mech.Tableau(net, 0.0)
        if dc.inv is None or dc.cond > 1e7:
            return False
    b = mech.build(net)
    terms = sorted(b.ports)
    dom = lambda k: net['nodes'][net['els'][k[0]]['n'][k[1]]]
    reads = []
    for j in range(2):
        k = terms[case['pick'][j] % len(terms)]
        nd = net['els'][k[0]]['n'][k[1]]
        if j == 0:
            if dom(k) == 'm':
                kw, row = {}, lambda t, nd=nd: t.row_x(nd)
                if case['diff']:
                    other = [q for q in terms if q != k and dom(q) == 'm']
                    if other:
                        q = other[case['pick'][2] % len(other)]
                        kw['terminal_N'] = b.ports[q]
                        row = lambda t, nd=nd, n2=net['els'][q[0]]['n'][q[1]]: t.row_x(nd) - t.row_x(n2)
                r = b.own('x%d' % j, M.DisplacementReadout(terminal=b.ports[k], **kw))
                reads.append(('d', r, r.d.o, row))
            else:
                r = b.own('x%d' % j, E.VoltageReadout(terminal=b.ports[k]))
                reads.append(('V', r, r.V.o, lambda t, nd=nd: t.row_x(nd)))
        else:
            sg = 1 if case['dir'] == 'in' else -1
            if dom(k) == 'm':
                r = b.own('f%d' % j, M.ForceReadout(terminal=b.ports[k], direction=case['dir']))
                reads.append(('F', r, r.F.o, lambda t, k=k: sg * t.row_f(*k)))
            else:
                r = b.own('f%d' % j, E.CurrentReadout(terminal=b.ports[k], direction=case['dir']))
                reads.append(('I', r, r.I.o, lambda t, k=k: sg * t.row_f(*k)))
    drv = [(i, p) for i, e in enumerate(net['els']) for p in mech.DRIVES.get(e['t'], [])]
    for q, r, o, row in reads:
        for i, p in drv:
            b.own('ac_%s_%d%s' % (q, i, p), RO.ACReadout(portD=getattr(b.els[i], p).i, portN=o))
    nz = False
    for q, r, o, row in reads:
        for i, p in drv:
            got = getattr(b.sys, 'ac_%s_%d%s' % (q, i, p)).AC_sensitivity
            want, ref = [], 0
            for t in T:
                x = t.drive(i, mech.TAG[p], 1.0)
                want.append(row(t).dot(x))
                ref = max(ref, maxabs(x))
            close(np.broadcast_to(got, (len(fs),)), np.array(want), '%s response to %s of %s#%d' % (q, p, net['els'][i]['t'], i),
                  rtol=1e-6, scale=ref)
            nz = nz or maxabs(want) > 1e-6 * ref
        if dc is not None and (q in 'dF'):
            x = dc.dc()
            close(r.DC_readout, row(dc).dot(x), 'static %s' % q, rtol=1e-6, scale=maxabs(x))
    return dict(nodes=len(net['nodes']), els=min(8, len(net['els'])), dc=dc is not None) if nz else False


RULE = 'solvable network (scaled tableau condition below 1e7), a nonzero response'


@R.law(case_(), n=900, thorough=16000, shards=6, rule=RULE)
def networks_match_tableau(case):
    return run(case)


@R.law(case_(strings=True, extra=False), n=300, thorough=4000, shards=2, rule=RULE)
def strings_match_tableau(case):
    return run(case)


@R.law(case_(pzt=True, extra=False, max_nodes=3, max_el=4), n=500, thorough=8000, shards=4, rule=RULE)
def piezo_networks_match_tableau(case):
    return run(case)
