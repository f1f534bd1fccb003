from vlib.core import *
from vlib import opt

R = Registry('C13', 'optical response to modulation')


@st.composite
def ac_case(draw, mods='all', **kw):
    net = draw(opt.network(mods=mods, array=False, **kw))
    f = draw(st.one_of(logf(-2, 7), st.lists(logf(-2, 7), min_size=2, max_size=3)))
    return dict(net=net, F=f, pick=draw(st.integers(0, 20)))


def oracle_run(case):
    net = case['net']
    fs = case['F'] if isinstance(case['F'], list) else [case['F']]
    o = opt.Oracle(net)
    if o.carriers() is None or o.cond > 1e6:
        return None
    return net, fs, o


@R.law(ac_case(max_mirrors=4, bs=True), n=520, thorough=15000, shards=8,
       rule='a detector and a drive (mirror motion or modulator) exist and the network is well conditioned')
def detector_response_matches_sideband_oracle(case):
    import phasor.readouts as RO
    t = oracle_run(case)
    if t is None:
        return False
    net, fs, o = t
    drives = [('Z', i) for i in range(len(net['mirrors']))]
    for j, d in enumerate(net['links']):
        if d.get('mod'):
            drives.append(('mod', 'l%d' % j))
    for j, d in enumerate(net['ends']):
        if d.get('mod') and d['L'] is not None:
            drives.append(('mod', 'e%d' % j))
    tags = sorted(o.taps(opt.WAVES[0], 0))
    if not tags:
        return False
    # up to three drives, favouring modulators
    drives = (drives[::-1] + drives)[case['pick'] % len(drives):][:3]
    drives = sorted(set(drives))
    want = {}
    for dr in drives:
        for f in fs:
            r = o.pd_response(f, dr)
            if r is None or o.cond > 1e6:
                return False
            for tg in tags:
                want.setdefault((dr, tg), []).append(r[tg])
    b = opt.build(net, freq=case['F'])
    ros = {}
    for dr in drives:
        port = b.mirrors[dr[1]].Z.d.o if dr[0] == 'Z' else b.drv[dr[1]].i
        for tg in tags:
            ros[dr, tg] = b.own('ac_%s%s_%s' % (dr[0], dr[1], tg), RO.ACReadout(
                portD=port, portN=b.pds[tg].Wpd.o, include_noise=False))
    live = 0
    for key, ro in ros.items():
        w = np.array(want[key])
        dr, tg = key
        sc = 1e7 if dr[0] == 'Z' else 1.0
        g = ro.AC_sensitivity
        g = np.broadcast_to(g, (len(fs),))
        close(g, w, 'response of %s to %s' % (tg, dr), rtol=1e-6, scale=1e-3 * sc, atol=1e-9 * sc)
        live += maxabs(w) > 1e-6 * sc
    return dict(live=min(live, 3), Z=any(d[0] == 'Z' for d in drives), mod=any(d[0] == 'mod' for d in drives),
                mirrors=len(net['mirrors']))
