from vlib.core import *
from vlib import opt
from checks.C13_optical_response import ac_case, oracle_run

R = Registry('C14', 'quantum noise of light')


def run(case, cross=False):
    import phasor.readouts as RO
    t = oracle_run(case)
    if t is None:
        return False
    net, fs, o = t
    P = o.powers()
    tags = [g for g in sorted(P) if P[g] > 1e-4]
    if not tags:
        return False
    A = tags[case['pick'] % len(tags)]
    B = tags[(case['pick'] // 3) % len(tags)]
    want = dict((k, []) for k in ('AA', 'AB', 'BA', 'BB'))
    per = {}
    for f in fs:
        ra, rb = o.noise_rows(f, A), o.noise_rows(f, B)
        if ra is None or rb is None or o.cond > 1e6:
            return False
        tot = dict((k, 0.0) for k in want)
        for x, y in zip(ra, rb):
            assert x[:2] == y[:2]
            rows = dict(A=x, B=y)
            for k in want:
                p, q = rows[k[0]], rows[k[1]]
                # two-sided vacuum h nu / 2 per quadrature pair; the spectra are one-sided
                c = 2 * p[2] / 2 * (p[3] * np.conj(q[3]) + p[4] * np.conj(q[4]))
                tot[k] = tot[k] + c
                if k == 'AA':
                    per.setdefault(x[0], {}).setdefault(f, 0.0)
                    per[x[0]][f] += c.real
        for k in want:
            want[k].append(tot[k])
    b = opt.build(net, freq=case['F'])
    n = len(fs)
    arr = lambda v: np.broadcast_to(v, (n,))
    nz = b.own('nz', RO.NoiseReadout(port_map=dict(A=b.pds[A].Wpd.o, B=b.pds[B].Wpd.o)))
    dc = b.own('dc', RO.DCReadout(port=b.pds[A].Wpd.o))
    csd = nz.CSD
    rt = 1e-5       # the Planck constant is rounded differently here and there
    AA = maxabs(want['AA'])
    BB = maxabs(want['BB'])
    for k in want:
        sc = {'AA': AA, 'BB': BB}.get(k, (AA * BB) ** 0.5)
        close(arr(csd[k[0], k[1]]), np.array(want[k]), 'CSD %s' % k, rtol=rt, scale=sc)
    require(np.all(np.real(arr(csd['A', 'A'])) > 0), 'detector noise vanished')
    close(arr(csd['A', 'B']), np.conj(arr(csd['B', 'A'])), 'cross spectrum is Hermitian', rtol=1e-6, scale=(AA * BB) ** 0.5)
    tot = 0
    for nobj, d in nz.CSD_by_source.items():
        tot = tot + arr(d['A', 'A'])
    close(tot, arr(csd['A', 'A']), 'sum over sources', rtol=1e-9)
    # one carrier on the detector: white shot noise 2 h nu P, whatever the optics in between
    lams = set(k[0] for k, E in o.carriers().items())
    if len(lams) == 1 and A[0] in 'Ee':      # detectors inside a loop see the cavity instead
        hv = opt.H_JS * opt.C_M_S / opt.WAVES[lams.pop()]
        close(np.real(arr(csd['A', 'A'])), np.full(n, 2 * hv * P[A]), 'shot noise 2 h nu P', rtol=rt)
        close(dc.DC_readout, P[A], 'power', rtol=1e-7)
    return dict(mirrors=len(net['mirrors']), same=A == B, lossy=any(m['L'] + m['Lt'] > 0 for m in net['mirrors']),
                corr='high' if abs(want['AB'][0]) > 1e-3 * (AA * BB) ** 0.5 else 'low')


@R.law(ac_case(mods=False, max_mirrors=4, bs=True, pds=3), n=700, thorough=12000, shards=8,
       rule='an illuminated detector and a well conditioned network')
def detector_noise_matches_vacuum_oracle(case):
    return run(case)
