from vlib.core import *
from vlib import mix

R = Registry('C10', 'mixers, modulators and generators')


@st.composite
def case_(draw, kinds=None, max_blocks=6):
    net = draw(mix.network(max_blocks, kinds))
    F = draw(st.one_of(logf(0, 3), st.lists(logf(0, 3), min_size=2, max_size=3, unique=True)))
    return dict(net=net, F=F, picks=[draw(st.integers(0, 99)) for _ in range(3)], d=draw(st.integers(0, 99)))


def outs(net):
    return [('o', i, k) for i, b in enumerate(net['blocks']) for k in range(mix.nout(b)) if b['t'] != 'GEN']


def ins(net):
    return [('i', i, k) for i, b in enumerate(net['blocks']) for k in range(len(b['ins']))]


def freqs(c):
    return c['F'] if isinstance(c['F'], list) else [c['F']]


def size(val):
    return max([abs(v) for s in val.values() for v in s.values()] + [0])


@R.law(case_(), n=300, thorough=6000, shards=4, rule='a readout with a nonzero mean')
def means_match_the_product_of_the_signals(case):
    import phasor.readouts as RO
    net = case['net']
    o = mix.Oracle(net, freqs(case)[0])
    val = o.run()
    ps = outs(net) + ins(net)
    # the deepest first, which are the most telling
    ps = ps[::-1]
    sz = size(val)
    nz = [q for q, p in enumerate(ps) if abs(val[p].get((0, 0, 0), 0)) > 1e-6 * sz]
    if not nz:
        return False
    sel = sorted(set([nz[p % len(nz)] for p in case['picks'][:2]] + [case['picks'][2] % len(ps)]))
    b = mix.build(net, case['F'])
    for j, q in enumerate(sel):
        setattr(b.sys.own, 'r%d' % j, RO.DCReadout(port=b.key(ps[q])))
    for j, q in enumerate(sel):
        p = ps[q]
        w = complex(val[p].get((0, 0, 0), 0))
        assert abs(w.imag) <= 1e-9 * max(sz, 1e-300), (p, w)
        close(getattr(b.sys, 'r%d' % j).DC_readout, w.real, 'mean at %s of %s' % (p, net['blocks'][p[1]]['t']), rtol=1e-8,
              atol=1e-9 * sz)
    return dict(blocks=len(net['blocks']))


@R.law(case_(kinds=['G', 'X', 'MIX', 'MIX', 'MOD', 'MOD', 'SUM', 'H2', 'BP']), n=300, thorough=8000, shards=4,
       rule='a drive that reaches the readout through at least one generator line')
def audio_transfers_match_the_linearised_products(case):
    import phasor.readouts as RO
    net = case['net']
    di = ins(net)
    D = di[case['d'] % len(di)]
    ps = [p for p in outs(net) if p[1] >= D[1]][::-1]
    fs = freqs(case)
    want = dict((p, []) for p in ps)
    sz = 0
    for f in fs:
        o = mix.Oracle(net, f)
        val = o.run({(D[1], D[2]): {(0, 0, 1): 0.5, (0, 0, -1): 0.5}})
        sz = max(sz, size(val))
        for p in ps:
            want[p].append(o.amp(val[p], (0, 0, 1)))
    sel = sorted(set([p % len(ps) for p in case['picks']]))
    if not any(maxabs(want[ps[q]]) > 1e-6 * sz for q in sel):
        return False
    b = mix.build(net, case['F'])
    for j, q in enumerate(sel):
        setattr(b.sys.own, 'r%d' % j, RO.ACReadout(portD=b.key(D), portN=b.key(ps[q])))
    for j, q in enumerate(sel):
        p = ps[q]
        w = np.array(want[p])
        close(np.broadcast_to(getattr(b.sys, 'r%d' % j).AC_sensitivity, w.shape), w,
              'transfer %s of %s -> %s of %s' % (D, net['blocks'][D[1]]['t'], p, net['blocks'][p[1]]['t']), rtol=1e-8, atol=1e-9 * sz)
    return dict(blocks=len(net['blocks']), swept=len(fs) > 1)


@R.law(case_(kinds=['G', 'X', 'MIX', 'MIX', 'MOD', 'MOD', 'SUM', 'H2', 'BP'], max_blocks=5), n=200, thorough=5000, shards=4,
       rule='a noise that reaches the readout through at least one generator line')
def noise_is_folded_by_every_line(case):
    """white and coloured noise entering anywhere is carried to the readout from every sideband at once"""
    import phasor.readouts as RO
    net = case['net']
    di = ins(net)
    D = di[case['d'] % len(di)]
    ps = [p for p in outs(net) if p[1] >= D[1]][::-1]
    A, B = ps[case['picks'][0] % len(ps)], ps[case['picks'][1] % len(ps)]
    m, fp = 0.3 + case['picks'][2] / 50., 10 ** (1 + case['picks'][2] % 7)
    white = case['picks'][2] % 2
    psd = (lambda f: m ** 2) if white else (lambda f: m ** 2 / (1 + (f / fp) ** 2))
    fs = freqs(case)
    o1, o2 = net['ords']
    two = any(b['t'] == 'GEN' and b['n'][1] for b in net['blocks'])
    lines = [(i, j, 1) for i in range(-o1, o1 + 1) for j in (range(-o2, o2 + 1) if two else [0])]
    want = dict((k, []) for k in ('AA', 'AB', 'BB'))
    folded = 0
    for f in fs:
        o = mix.Oracle(net, f)
        tot = dict((k, 0) for k in want)
        for k in lines:
            val = o.run({(D[1], D[2]): {k: 0.5}})
            g = dict(A=o.amp(val[A], (0, 0, 1)), B=o.amp(val[B], (0, 0, 1)))
            s = psd(o.f(k))
            folded += g['A'] != 0
            for x in want:
                tot[x] += s * g[x[0]] * np.conj(g[x[1]])
        for x in want:
            want[x].append(tot[x])
    want = dict((k, np.array(v)) for k, v in want.items())
    sz = size(val)
    if not maxabs(want['AA']) > 1e-12 * sz ** 2:
        return False
    b = mix.build(net, case['F'])
    port = b.inp(D[1], D[2])
    b.sys.own.src = b.S.WhiteNoise(port=port, sided='one-sided', magnitude_ASD=m) if white else \
        b.S.PSDFunctionNoise(port=port, sided='two-sided', PSD_function=lambda f: psd(f) / 2)
    b.sys.own.nz = RO.NoiseReadout(port_map=dict(A=b.key(A), B=b.key(B)))
    csd = b.sys.nz.CSD
    for x, w in want.items():
        close(np.broadcast_to(csd[x[0], x[1]], w.shape), w, 'CSD %s, noise at %s, readouts %s %s' % (x, D, A, B), rtol=1e-8,
              atol=1e-13 * sz ** 2, scale=(maxabs(want['AA']) * maxabs(want['BB'])) ** 0.5)
    return dict(blocks=len(net['blocks']), lines=min(folded, 3), white=bool(white))
