from vlib.core import *
from vlib import opt

R = Registry('C12', 'optical fields')


def dc_case(**kw):
    return opt.network(**kw)


def run_dc(net):
    import phasor.readouts as RO
    n = opt.arr_len(net)
    want = []
    for k in range(n or 1):
        o = opt.Oracle(net, k)
        P = o.powers()
        if P is None or o.cond > 1e6:
            return False
        want.append(P)
    tags = sorted(want[0])
    if not tags:
        return False
    b = opt.build(net)
    for t in tags:
        b.own('dc_' + t, RO.DCReadout(port=b.pds[t].Wpd.o))
    scale = max(maxabs([w[t] for w in want]) for t in tags)
    for t in tags:
        got = getattr(b.sys, 'dc_' + t).DC_readout
        close(np.broadcast_to(got, (n or 1,)), np.array([w[t] for w in want]), 'power at %s' % t, rtol=1e-8,
              scale=scale * 1e-3, atol=1e-12)
    return dict(mirrors=len(net['mirrors']), links=len(net['links']), lit=sum(1 for t in tags if want[0][t] > 1e-6),
                arr=bool(n))


@R.law(dc_case(max_mirrors=5, bs=True, bsphase=True), n=800, thorough=20000, shards=4,
       rule='network with a detector whose linear system is well conditioned')
def carrier_powers_match_scattering_oracle(net):
    return run_dc(net)
