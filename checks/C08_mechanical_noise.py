from vlib.core import *
from vlib import mech
import math

R = Registry('C08', 'mechanical thermal noise')
KT = 1.380649e-23 * 299.0
WORDS = [('one-sided', 2), ('two-sided', 1), ('single', 2), ('double', 1), ('one', 2), ('two', 1),
         ('one sided', 2), ('two sided', 1), ('single-sided', 2), ('single sided', 2), ('double-sided', 1), ('double sided', 1)]


def psd_of(src, f):
    f = abs(f)
    return src['a'] * (1 + src['c'] / (1 + f / src['f0']))


@st.composite
def case_(draw, **kw):
    srcs = [dict(kind=draw(st.sampled_from('dF')), at=draw(st.integers(0, 40)), b=draw(st.integers(0, 40)), a=draw(logf(-3, 2)),
                 c=draw(st.sampled_from([0, 0, 1.0, 10.0])), f0=draw(logf(-1, 2)), w=draw(st.integers(0, len(WORDS) - 1)))
            for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    return dict(net=draw(mech.network(**kw)), pick=[draw(st.integers(0, 60)) for _ in range(2)],
                q=draw(st.sampled_from(['dd', 'dd', 'dF', 'FF'])), srcs=srcs, thermal=draw(chance(0.8)) or not srcs,
                sided=draw(st.sampled_from([1, 1, 2])))


def thermal(e, F):
    """two-sided density of the force-free displacement (voltage) in series with a dissipative element"""
    t = e['t']
    w = 2 * math.pi * abs(F)
    if t in ('TD', 'SD'):
        return 2 * KT / (e['R'] * w * w)
    if t in ('TK', 'SK') and e.get('phi'):
        return 2 * KT * e['phi'] / (w * e['k'] * (1 + e['phi'] ** 2))
    if t in ('eR', 'eS'):
        return 2 * KT * e['R']
    return None


def run(case):
    import phasor.mechanical as M
    import phasor.readouts as RO
    net = case['net']
    fs = mech.freqs(net)
    T = [mech.Tableau(net, f) for f in fs]
    if any(t.inv is None or t.cond > 1e7 for t in T):
        return False
    b = mech.build(net, include_johnson_noise=case['thermal'], sided_spectra=case['sided'])
    mterms = [k for k in sorted(b.ports) if net['nodes'][net['els'][k[0]]['n'][k[1]]] == 'm']
    one = [k for k in mterms if net['els'][k[0]]['t'] in ('TM', 'TK', 'TD', 'SM', 'SK', 'SD')]
    used, placed, at = set(), [], {}
    for k in sorted(b.ports):
        at.setdefault(net['els'][k[0]]['n'][k[1]], []).append(k)
    for j, src in enumerate(case['srcs']):
        word, conv = WORDS[src['w']]
        fn = lambda F, src=src: psd_of(src, F)
        free = [k for k in one if k not in used]
        if src['kind'] == 'd':
            if not free:
                continue
            k = free[src['at'] % len(free)]
            used.add(k)
            o = b.own('fl%d' % j, M.DisplacementFluctuation(port=b.ports[k], dsq_Hz_by_freq=fn, sided=word))
            placed.append((o, src, 'd', k, None))
        else:
            # a force between the two ports of a bond acts on their node
            pairs = [nd for nd, ks in sorted(at.items()) if len(ks) == 2 and not used & set(ks) and net['nodes'][nd] == 'm' and net['styles'][nd] != 'conn']
            if not pairs:
                continue
            nd = pairs[src['at'] % len(pairs)]
            k, k2 = at[nd] if src['b'] % 2 else at[nd][::-1]
            used |= {k, k2}
            o = b.own('fl%d' % j, M.noise.ForceFluctuation(portA=b.ports[k], portB=b.ports[k2], Fsq_Hz_by_freq=fn, sided=word))
            placed.append((o, src, 'F', k, k2))
    reads = []
    for j, q in enumerate(case['q']):
        cand = [k for k in (mterms if q == 'd' else one) if k not in used]
        if not cand:
            return False
        k = cand[case['pick'][j] % len(cand)]
        if q == 'd':
            r = b.own('m%d' % j, M.DisplacementReadout(terminal=b.ports[k]))
            reads.append((r.d.o, lambda t, nd=net['els'][k[0]]['n'][k[1]]: t.row_x(nd)))
        else:
            r = b.own('m%d' % j, M.ForceReadout(terminal=b.ports[k], direction='in'))
            reads.append((r.F.o, lambda t, k=k: t.row_f(*k)))
    nz = b.own('nz', RO.NoiseReadout(port_map=dict(A=reads[0][0], B=reads[1][0])))
    ks = ['AA', 'AB', 'BA', 'BB']
    want = dict((k, []) for k in ks)
    adj = 2 if case['sided'] == 1 else 1
    unc = dict(A=0.0, B=0.0)
    count = set()
    for t, f in zip(T, fs):
        rows = dict(A=reads[0][1](t), B=reads[1][1](t))
        tot = dict((k, 0.0) for k in ks)
        H = []
        if case['thermal']:
            for i, e in enumerate(net['els']):
                S = thermal(e, f)
                if S is not None:
                    H.append((S, t.emf(i)))
        for o, src, kind, k, k2 in placed:
            S = psd_of(src, f) / WORDS[src['w']][1]
            H.append((S, t.emf(k[0]) if kind == 'd' else t.inject(net['els'][k[0]]['n'][k[1]], 1.0)))
        for n, (S, x) in enumerate(H):
            h = dict((k, rows[k].dot(x)) for k in rows)
            for k in 'AB':
                unc[k] = max(unc[k], adj * S * (np.linalg.norm(rows[k]) * np.linalg.norm(x)) ** 2)
                if abs(h[k]) > 1e-6 * np.linalg.norm(x):
                    count.add(n)
            for k in ks:
                tot[k] = tot[k] + adj * S * h[k[0]] * np.conj(h[k[1]])
        for k in ks:
            want[k].append(tot[k])
    csd = nz.CSD
    n = len(fs)
    arr = lambda x: np.broadcast_to(np.asarray(x), (n,))
    sc = (maxabs(want['AA']) * maxabs(want['BB'])) ** 0.5
    for k in ks:
        ref = {'AA': maxabs(want['AA']), 'BB': maxabs(want['BB'])}.get(k, sc)
        close(arr(csd[k[0], k[1]]), np.array(want[k]), 'CSD %s' % k, rtol=3e-5, scale=ref, atol=1e-9 * (unc[k[0]] * unc[k[1]]) ** 0.5 + 1e-60)
    tot = 0
    for o, d in nz.CSD_by_source.items():
        tot = tot + arr(d['A', 'A'])
    close(tot + np.zeros(n), arr(csd['A', 'A']), 'sum over sources', rtol=1e-9, atol=1e-9 * unc['A'] + 1e-60)
    return dict(sources=min(4, len(count)), placed=''.join(sorted(p[2] for p in placed)), q=case['q']) if count else False


RULE = 'solvable network, at least one dissipative element or declared fluctuation reaches a readout'


@R.law(case_(), n=700, thorough=12000, shards=6, rule=RULE)
def spectra_match_tableau(case):
    return run(case)


def driven(net):
    e = net['els'][0]
    net['els'][0] = dict(t='FS', n=e['n'][:1])
    return net


@R.law(st.tuples(mech.network(extra=False).map(driven), st.integers(0, 60), st.sampled_from([1, 2])), n=500, thorough=9000, shards=5,
       rule='the driven node responds out of phase')
def fluctuation_dissipation(case):
    """the displacement noise of any node is fixed by its own response to a force: S = 4 kT |Im chi| / omega"""
    import phasor.mechanical as M
    import phasor.readouts as RO
    net, k, sided = case
    fs = mech.freqs(net)
    T = [mech.Tableau(net, f) for f in fs]
    if any(t.inv is None or t.cond > 1e6 for t in T):
        return False
    i0 = [i for i, e in enumerate(net['els']) if e['t'] == 'FS']
    if not i0:
        return False
    i0 = i0[k % len(i0)]
    b = mech.build(net, sided_spectra=sided)
    r = b.own('x', M.DisplacementReadout(terminal=b.ports[i0, 0]))
    ac = b.own('ac', RO.ACReadout(portD=b.els[i0].F.i, portN=r.d.o))
    n = len(fs)
    arr = lambda x: np.broadcast_to(np.asarray(x), (n,))
    w = 2 * math.pi * np.array(fs)
    chi = arr(ac.AC_sensitivity)
    S = arr(ac.AC_PSD)
    ref = 0
    for t in T:     # roundoff floor of the imaginary part
        x = t.drive(i0, 'F', 1.0)
        ref = max(ref, maxabs(x), maxabs(t.inv))
    want = (4 if sided == 1 else 2) * KT * (-chi.imag) / w
    close(S, want, 'displacement noise', rtol=3e-5, atol=1e-9 * 4 * KT / w.min() * ref)
    if not np.any(np.abs(chi.imag) > 1e-6 * ref):
        return False
    return dict(lossy=sum(1 for e in net['els'] if 'phi' in e), dampers=min(3, sum(1 for e in net['els'] if e['t'] in ('TD', 'SD'))))
