from vlib.core import *
from vlib import elec

R = Registry('C04', 'electrical networks obey circuit laws')


def meters(draw_seed, net, nodes):
    """which voltages/currents to read, derived from the case's integers"""
    out = []
    k = draw_seed
    for n, terms in enumerate(nodes):
        if not terms:
            continue
        out.append(('V', n, terms[k % len(terms)]))
        k = k * 7 + 3
    live = [n for n in range(net['N']) if nodes[n]]
    if len(live) > 1:
        a, b = live[k % len(live)], live[(k // 3) % len(live)]
        if a != b:
            out.append(('VD', (a, b), (nodes[a][k % len(nodes[a])], nodes[b][k % len(nodes[b])])))
    return out


@st.composite
def case_(draw, **kw):
    net = draw(elec.network(**kw))
    return dict(net=net, pick=draw(st.integers(0, 60)), cur=draw(st.integers(0, 60)),
                dir=draw(st.sampled_from(['in', 'out'])), sided=draw(st.sampled_from([1, 2])),
                solver=draw(st.sampled_from(['loop_LUQ', 'loop_LUQ', 'scisparse'])))


def usable(m):
    return m.Ainv is not None and m.cond < 1e7


def run(case, dc_only=False):
    import phasor.electronics as E
    import phasor.readouts as RO
    net = case['net']
    fs = elec.freqs(net)
    ac = [elec.Mna(net, f) for f in fs]
    if not all(usable(m) for m in ac):
        return False
    dcm = elec.Mna(net, 0.0)
    any_dc = any(e.get('dc') for e in net['els'])
    do_dc = any_dc and usable(dcm)
    if any_dc and not do_dc:
        return False   # the DC operating point itself is undefined for this network
    s, els, ports, nodes = elec.build(net, solver_name=case['solver'])
    srcs = [ie for ie, e in enumerate(net['els']) if e['t'] in ('V', 'I', 'VB')]
    reads = []
    for i, (kind, nd, tm) in enumerate(meters(case['pick'], net, nodes)):
        nm = 'v%d' % i
        if kind == 'V':
            setattr(s.own, nm, E.VoltageReadout(terminal=ports[tm]))
            reads.append((nm, 'V', lambda m, nd=nd: m.row_V(nd), 1.0))
        else:
            setattr(s.own, nm, E.VoltageReadout(terminal=ports[tm[0]], terminal_N=ports[tm[1]]))
            reads.append((nm, 'V', lambda m, nd=nd: m.row_V(nd[0]) - m.row_V(nd[1]), 1.0))
    terms = sorted(k for k in ac[0].term)
    if terms:
        for j in range(2):
            ie, tt = terms[(case['cur'] * (1 + 5 * j) + j) % len(terms)]
            nm = 'i%d' % j
            setattr(s.own, nm, E.CurrentReadout(terminal=ports[ie, tt], direction=case['dir']))
            sg = 1 if case['dir'] == 'in' else -1
            reads.append((nm, 'I', lambda m, ie=ie, tt=tt, sg=sg: sg * m.row_I(ie, tt), 50.0))
    for nm, q, row, sc in reads:
        r = getattr(s, nm)
        for ie in srcs:
            setattr(s.own, '%s_%d' % (nm, ie),
                    RO.ACReadout(portD=elec.drive_port(els[ie], net['els'][ie]),
                                 portN=getattr(r, q).o))
    for nm, q, row, sc in reads:
        for ie in srcs:
            got = getattr(s, '%s_%d' % (nm, ie)).AC_sensitivity
            want, ref = [], 0
            for m in ac:
                x = m.Ainv.dot(m.rhs_source(ie, 1.0))
                want.append(row(m).dot(x))
                ref = max(ref, maxabs(x))
            close(np.broadcast_to(got, (len(fs),)) if np.ndim(got) == 0 else got, np.array(want),
                  '%s response to %s#%d' % (nm, net['els'][ie]['t'], ie), rtol=1e-6, scale=ref / sc)
        if do_dc:
            x = dcm.Ainv.dot(dcm.rhs_dc())
            close(getattr(s, nm).DC_readout, row(dcm).dot(x), '%s DC' % nm, rtol=1e-6, scale=maxabs(x) / sc)
    return dict(N=net['N'], srcs=len(srcs), dc=do_dc, els=min(len(net['els']), 8))


@R.law(case_(), n=1600, thorough=30000, shards=8,
       rule='the network has a unique solution (scaled nodal matrix condition below 1e7)')
def passive_networks_match_nodal_analysis(case):
    return run(case)


@R.law(case_(opamps=True, dc=False), n=500, thorough=8000, shards=4, rule='same, with a finite-gain op-amp')
def opamp_networks_match_nodal_analysis(case):
    return run(case)


@R.law(case_(cables=True), n=300, thorough=5000, shards=2, rule='same, with transmission-line delays')
def cable_networks_match_nodal_analysis(case):
    return run(case)


@R.law(case_(max_nodes=2, max_el=3), n=300, thorough=4000, shards=2, rule='same, small dense networks')
def small_networks_match_nodal_analysis(case):
    return run(case)


@R.finding('transformer')
def _transformer():
    """an open secondary of a transformer (L1=1 H, L2=4 H, k=1/2) shows k sqrt(L2/L1) times the primary voltage"""
    import phasor.system as S
    import phasor.electronics as E
    import phasor.readouts as RO

    class Half(E.Transformer):
        def transformer_k_by_freq(self, F_Hz):
            return 0.5
    s = S.BGSystem(F_AC=np.array([10.]))
    s.own.V = E.VoltageSource()
    s.own.T = Half(L1_inductance_Henries=1., L2_inductance_Henries=4.)
    s.own.Tb = E.TerminatorShorted()
    s.own.Td = E.TerminatorShorted()
    s.own.Tc = E.TerminatorOpen()
    s.V.pe_A.bond(s.T.pe_A)
    s.Tb.pe_A.bond(s.T.pe_B)
    s.Td.pe_A.bond(s.T.pe_D)
    s.Tc.pe_A.bond(s.T.pe_C)
    s.own.m = E.VoltageReadout(terminal=s.T.pe_C)
    s.own.r = RO.ACReadout(portD=s.V.V.i, portN=s.m.V.o)
    return abs(abs(complex(np.asarray(s.r.AC_sensitivity).ravel()[0])) - 1) > 0.01


@R.law(st.tuples(elec.network(sources=('VB',), dc=False, max_nodes=3), logf(-1, 1, signed=True), st.one_of(st.just(0.0), logf(-1, 1, signed=True)), st.integers(0, 30), st.booleans()),
       n=600, thorough=9000, shards=2, rule='the injected current moves a node')
def balanced_sources_inject_current(case):
    """the current of a balanced source enters the circuit at the source, whatever voltage the source holds"""
    import phasor.electronics as E
    import phasor.readouts as RO
    net, amp, volt, k, second = case
    net = dict(net, els=[dict(e) for e in net['els']])
    vbs = [ie for ie, e in enumerate(net['els']) if e['t'] == 'VB']
    iv = vbs[0]
    net['els'].append(dict(t='I', n=[net['els'][iv]['n'][0]]))
    net['order'] = net['order'] + [len(net['order'])]
    fs = elec.freqs(net)
    M = [elec.Mna(net, f) for f in fs]
    D = elec.Mna(net, 0.0)
    if not all(usable(m) for m in M + [D]):
        return False
    net['els'][iv].update(dc=volt, idc=amp)
    s, els, ports, nodes = elec.build(net)
    nd = k % net['N']
    if not nodes[nd]:
        return False
    s.own.m = E.VoltageReadout(terminal=ports[nodes[nd][0]])
    s.own.d = RO.DCReadout(port=s.m.V.o)
    s.own.a = RO.ACReadout(portD=els[iv].ps_In.i, portN=s.m.V.o)
    row = D.row_V(nd)
    i = len(net['els']) - 1
    x = D.Ainv.dot(D.rhs_source(i, amp))
    close(s.d.DC_readout, (row.dot(x) + row.dot(D.Ainv.dot(D.rhs_source(iv, volt)))).real, 'DC voltage', rtol=1e-6,
          atol=1e-9 * (maxabs(x) + maxabs(D.Ainv) * (50 * abs(amp) + abs(volt))))
    want = np.array([m.row_V(nd).dot(m.Ainv.dot(m.rhs_source(i, 1.0))) for m in M])
    close(np.broadcast_to(s.a.AC_sensitivity, want.shape), want, 'response to the injected current', rtol=1e-6, atol=1e-9 * 50 * max(maxabs(m.Ainv) for m in M))
    return dict(n=len(net['els'])) if maxabs(want) > 1e-9 else False
