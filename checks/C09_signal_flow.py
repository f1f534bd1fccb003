from vlib.core import *
from vlib import sig

R = Registry('C09', 'signal-flow networks')


@st.composite
def flow(draw, max_blocks=6, arrays=False):
    net = draw(sig.network(max_blocks, arrays and draw(st.booleans())))
    F = draw(st.one_of(logf(-1, 3), st.lists(logf(-1, 3), min_size=2, max_size=3, unique=True)))
    order = list(draw(st.permutations(range(len(net['blocks'])))))
    return dict(net=net, F=F, order=order, a=draw(st.integers(0, 30)), b=draw(st.integers(0, 30)),
                c=draw(st.integers(0, 30)), d=draw(st.integers(0, 30)),
                ns=[dict(p=draw(st.integers(0, 30)), s=draw(st.sampled_from(['one-sided', 'two-sided', 'one', 'double', 'single sided'])),
                         m=draw(logf(-2, 1)), fp=draw(st.one_of(st.none(), logf(-1, 3)))) for _ in range(draw(st.integers(1, 3)))])


def freqs(case):
    return case['F'] if isinstance(case['F'], list) else [case['F']]


def inverses(case):
    o = sig.Oracle(case['net'])
    inv = [o.inverse(f) for f in freqs(case)]
    return (None if any(m is None for m in inv) else (o, inv))


def arr(v, case):
    return np.broadcast_to(v, (len(freqs(case)),))


def is_loop(case):
    M = {}
    for o, i, _ in case['net']['wires']:
        M.setdefault(o[0], set()).add(i[0])
    def reach(a):
        seen, todo = set(), [a]
        while todo:
            for y in M.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    return any(a in reach(a) for a in M)


@R.law(flow(arrays=True), n=1500, thorough=20000, shards=4, rule='a solvable network in which the drive reaches the readout')
def transfers_match_the_signal_flow_graph(case):
    import phasor.readouts as RO
    t = inverses(case)
    if t is None:
        return False
    o, inv = t
    n = len(o.ports)
    b = sig.build(case['net'], case['F'], case['order'])
    pairs = [(case['a'] % n, case['b'] % n), (case['c'] % n, case['b'] % n), (case['a'] % n, case['d'] % n)]
    ro = []
    for j, (x, y) in enumerate(pairs):
        setattr(b.sys.own, 'r%d' % j, RO.ACReadout(portD=b.key(o.ports[x]), portN=b.key(o.ports[y])))
        ro.append(getattr(b.sys, 'r%d' % j))
    hit = False
    for r, (x, y) in zip(ro, pairs):
        want = np.array([m[y, x] for m in inv])
        if x == y and maxabs(want - 1) == 0:
            continue        # a port that nothing returns to
        scale = max(maxabs(want), 1e-9 * max(maxabs(m) for m in inv))
        close(arr(r.AC_sensitivity, case), want, 'transfer %s -> %s' % (o.ports[x], o.ports[y]), rtol=1e-8, scale=scale,
              atol=1e-13 * max(maxabs(m) for m in inv))
        wantD = np.array([m[x, x] for m in inv])
        if np.min(np.abs(wantD)) > 1e-6 and maxabs(want) > 0:
            close(arr(r.AC_sensitivityOL, case), want / wantD, 'open-loop transfer', rtol=1e-8, scale=scale / np.min(np.abs(wantD)),
                  atol=1e-13 * max(maxabs(m) for m in inv) / np.min(np.abs(wantD)))
        hit = hit or (maxabs(want) > 0 and x != y)
    if not hit:
        return False
    return dict(blocks=len(case['net']['blocks']), loop=is_loop(case), swept=isinstance(case['F'], list))


@R.law(flow(5, True), n=700, thorough=9000, shards=2, rule='a solvable network in which some noise reaches the readout')
def noise_spectra_match_the_signal_flow_graph(case):
    import phasor.readouts as RO
    t = inverses(case)
    if t is None:
        return False
    o, inv = t
    fs = freqs(case)
    n = len(o.ports)
    A, B = case['a'] % n, case['b'] % n
    b = sig.build(case['net'], case['F'], case['order'])
    ins = [p for p in o.ports if p[0] == 'i']
    if not ins:
        return False
    src = []
    for j, q in enumerate(case['ns']):
        p = ins[q['p'] % len(ins)]
        port = b.inp(p[1], p[2])
        if q['fp'] is None:
            el = b.S.WhiteNoise(port=port, sided=q['s'], magnitude_ASD=q['m'])
            psd = lambda f, q=q: q['m'] ** 2
        else:
            psd = lambda f, q=q: q['m'] ** 2 / (1 + (f / q['fp']) ** 2)
            el = b.S.PSDFunctionNoise(port=port, sided=q['s'], PSD_function=psd)
        setattr(b.sys.own, 'n%d' % j, el)
        # spectra are reported one-sided
        src.append((getattr(b.sys, 'n%d' % j), o.ix[p], psd, 1 if q['s'] in ('one-sided', 'one', 'single sided') else 2))
    b.sys.own.nz = RO.NoiseReadout(port_map=dict(A=b.key(o.ports[A]), B=b.key(o.ports[B])))
    b.sys.own.tp = RO.Testpoint(port=b.key(o.ports[A]))
    for _, k, _, _ in src:
        if all(np.count_nonzero(m[:, k]) < 2 for m in inv):
            return False        # a port that feeds nothing is no part of the network
    csd = b.sys.nz.CSD
    by = b.sys.nz.CSD_by_source
    tot = {}
    for x, y in ('AA', 'AB', 'BA', 'BB'):
        u, v = dict(A=A, B=B)[x], dict(A=A, B=B)[y]
        tot[x, y] = np.array([sum(c * psd(f) * m[u, k] * np.conj(m[v, k]) for _, k, psd, c in src) for f, m in zip(fs, inv)])
    AA, BB = maxabs(tot['A', 'A']), maxabs(tot['B', 'B'])
    if not AA > 0:
        return False
    scales = {('A', 'A'): AA, ('B', 'B'): BB}
    floor = 1e-14 * max(maxabs(m) for m in inv) ** 2 * max(maxabs(c * psd(f)) for f in fs for _, _, psd, c in src)
    for k, w in tot.items():
        close(arr(csd[k], case), w, 'CSD %s%s' % k, rtol=1e-7, scale=scales.get(k, (AA * BB) ** 0.5), atol=floor)
    close(arr(b.sys.tp.AC_PSD, case), tot['A', 'A'], 'testpoint PSD', rtol=1e-7, atol=floor)
    for el, k, psd, c in src:
        w = np.array([c * psd(f) * abs(m[A, k]) ** 2 for f, m in zip(fs, inv)])
        got = by[el]['A', 'A'] if el in by else 0
        close(arr(got, case), w, 'part of one source', rtol=1e-7, atol=floor)
    return dict(sources=len(src), loop=is_loop(case), corr=maxabs(tot['A', 'B']) > 1e-9 * (AA * BB) ** 0.5)


@st.composite
def limited(draw):
    c = draw(flow(4))
    bl = c['net']['blocks']
    cand = [i for i, b in enumerate(bl) if b['t'] in ('G', 'X', 'INT', 'MECH', 'SRF', 'MIMO', 'SS')]
    c['F'] = draw(logf(-1, 3))
    c['lim'] = dict((str(i), [draw(st.sampled_from(['hi', 'lo', 'dc'])), draw(logf(-1, 5))]) for i in cand if draw(st.booleans()))
    return c


@R.law(limited(), n=500, thorough=7000, shards=2, rule='a band-limited block in the path, network solvable')
def blocks_are_silent_outside_their_band(case):
    import phasor.readouts as RO
    net = case['net']
    o = sig.Oracle(net)
    extra, zero = {}, set()
    center = 1000.0     # the nominal frequency of the audio line, which the limits of filters are compared with
    for i, (kind, lim) in case['lim'].items():
        i = int(i)
        t = net['blocks'][i]['t']
        if t in ('MIMO', 'SS'):
            extra[i] = dict(max_freq=lim)
            if case['F'] >= lim:
                zero.add(i)
        elif kind == 'dc':
            extra[i] = dict(no_DC=True)
        else:
            extra[i] = {'hi': dict(F_cutoff=lim), 'lo': dict(F_cutoff_low=lim)}[kind]
            if (center > lim) if kind == 'hi' else (center < lim):
                zero.add(i)
    if not extra:
        return False
    m = o.inverse(case['F'], zero)
    if m is None:
        return False
    n = len(o.ports)
    x, y = case['a'] % n, case['b'] % n
    if x == y:
        return False
    b = sig.build(net, case['F'], case['order'], extra)
    b.sys.own.r = RO.ACReadout(portD=b.key(o.ports[x]), portN=b.key(o.ports[y]))
    close(b.sys.r.AC_sensitivity, m[y, x], 'transfer', rtol=1e-8, atol=1e-13 * maxabs(m))
    full = o.inverse(case['F'])
    return dict(cut=len(zero), matters=full is not None and abs(full[y, x] - m[y, x]) > 1e-9)


@R.law(flow(5, True), n=700, thorough=9000, shards=2, rule='a port whose signal returns to it')
def loop_gains_match_the_signal_flow_graph(case):
    """readouts of loops: what a signal injected at a port becomes there, the open loop this implies, and the plant between two ports"""
    import phasor.readouts as RO
    t = inverses(case)
    if t is None:
        return False
    o, inv = t
    n = len(o.ports)
    loops = [k for k in range(n) if any(abs(m[k, k] - 1) > 1e-6 for m in inv)]
    if not loops:
        return False
    x, y, z = loops[case['a'] % len(loops)], loops[case['c'] % len(loops)], case['b'] % n
    b = sig.build(case['net'], case['F'], case['order'])
    P = [b.key(p) for p in o.ports]
    b.sys.own.l1 = RO.ACReadoutLG(portAct=P[x], include_noise=False)
    b.sys.own.l2 = RO.ACReadoutLG(portSense=P[y], include_noise=False)
    b.sys.own.l3 = RO.ACReadoutLG(portAct=P[x], portSense=P[y], include_noise=False)
    b.sys.own.l4 = RO.ACReadoutLG(portAct=P[x], portSense=P[y], portDrv=P[z], include_noise=False)
    b.sys.own.cl = RO.ACReadoutCLG(portD=P[x], portN=P[y], include_noise=False)
    s = b.sys
    e = lambda i, j: np.array([m[j, i] for m in inv])      # from i to j
    big = 1e-13 * max(maxabs(m) for m in inv)
    close(arr(s.cl.AC_sensitivity, case), e(x, y), 'closed loop transfer', rtol=1e-8, scale=maxabs(e(x, y)), atol=big)
    for l, p in ((s.l1, x), (s.l2, y), (s.l3, y), (s.l4, y)):
        c = e(p, p)
        close(arr(l.CLG, case), c, 'closed loop gain', rtol=1e-8, scale=maxabs(c), atol=big)
        if np.min(abs(c)) > max(1e-3 * maxabs(c), 1e5 * big):
            close(arr(l.OLG, case), 1 / c - 1, 'open loop gain', rtol=1e-6, atol=1e-3 * big / np.min(abs(c)) ** 2)
    plants = 0
    for l, d in ((s.l3, x), (s.l4, z)):
        num, den = e(d, y), e(d, x)
        if np.min(abs(den)) > max(1e-3 * max(maxabs(den), maxabs(num)), 1e5 * big) and maxabs(num):
            plants += 1
            close(arr(l.GPlant, case), num / den, 'plant', rtol=1e-6, scale=maxabs(num / den), atol=1e3 * big / np.min(abs(den)))
    return dict(plants=plants, same=x == y, swept=isinstance(case['F'], list))
