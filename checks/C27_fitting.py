import copy
import math
from vlib.core import *
from vlib import alm

R = Registry('C27', 'fitting')

# parameters of an element that can be fitted: key in the layout -> stem of the library's attributes
STEMS = dict(lens=[('f', 'f')], mir=[('R', 'R')], sp=[('L', 'L')], plcx=[('R', 'R'), ('L', 'L')], plcxm=[('R', 'R'), ('L', 'L')],
             cxcx=[('R1', 'R1'), ('R2', 'R2'), ('L', 'L')])
SUFFIX = ['m', 'm', 'mm', 'in', 'cm', 'preferred']


def walk_nodes(d, path=()):
    yield path, d
    if d['k'] == 'sys':
        for i, ch in enumerate(d['ch']):
            for x in walk_nodes(ch, path + (i,)):
                yield x


def node_at(root, path):
    for i in path:
        root = root['ch'][i]
    return root


def width(d):
    k = d['k']
    if k == 'sys':
        return d['loc'][-1] + width(d['ch'][-1]) - d['loc'][0] if 'loc' in d else sum(width(c) for c in d['ch']) + sum(g[0] for g in d['gaps'][1:])
    if k == 'sp':
        return d['L'][0]
    if k in ('plcx', 'cxcx'):
        return d['L'][0] if d['L'] else 6.35e-3
    if k == 'plcxm':
        return 2 * (d['L'][0] if d['L'] else 6.35e-3)
    return 0.0


def locate(lay):
    """every child gets the position it is built at"""
    for path, d in walk_nodes(lay['root']):
        if d['k'] == 'sys':
            z, d['loc'] = d['gaps'][0][0], []
            for i, c in enumerate(d['ch']):
                if i:
                    z += d['gaps'][i][0]
                d['loc'].append(z)
                # positions inside are given below, so the width by the gaps
                z += width({k: v for k, v in c.items() if k != 'loc'})


def regap(lay):
    """the gaps that the positions imply; False if elements overlap"""
    ok = True
    for path, d in sorted(walk_nodes(lay['root']), key=lambda x: -len(x[0])):
        if d['k'] == 'sys':
            d['gaps'] = [[d['loc'][0], 'm']]
            for i in range(1, len(d['ch'])):
                g = d['loc'][i] - d['loc'][i - 1] - width(d['ch'][i - 1])
                if g < 0:
                    ok &= g > -1e-12
                    g = 0.0
                d['gaps'].append([g, 'm'])
    return ok


def least_gap(lay, most=0.0):
    return min([d['loc'][i] - d['loc'][i - 1] - width(d['ch'][i - 1]) for path, d in walk_nodes(lay['root']) if d['k'] == 'sys'
                for i in range(1, len(d['ch']))] + [most])


def ordered(lay, orig):
    """no elements came to one spot (where the order of the layout would be decided by rounding)"""
    for (path, d), (path, o) in zip(walk_nodes(lay['root']), walk_nodes(orig['root'])):
        if d['k'] == 'sys':
            for i in range(1, len(d['ch'])):
                g = d['gaps'][i][0]
                if g < 1e-7 and not (d['loc'][i] - d['loc'][i - 1] == o['loc'][i] - o['loc'][i - 1] and g == o['gaps'][i][0]):
                    return False
    return True


def parameters(lay):
    """[(path, what, key, stem)]"""
    out = []
    for path, d in walk_nodes(lay['root']):
        if path:
            out.append((path, 'loc', None, 'loc'))
        for key, stem in STEMS.get(d['k'], []):
            if d[key] is not None:
                out.append((path, 'par', key, stem))
    return out


def getp(lay, p):
    path, what, key, stem = p
    if what == 'loc':
        return node_at(lay['root'], path[:-1])['loc'][path[-1]]
    return node_at(lay['root'], path)[key][0]


def setp(lay, p, v):
    path, what, key, stem = p
    if what == 'loc':
        node_at(lay['root'], path[:-1])['loc'][path[-1]] = v
    else:
        node_at(lay['root'], path)[key] = [v, 'm']


def attribute(b, p, suffix):
    """the library's parameter and the metres per its unit"""
    path, what, key, stem = p
    o = b.objs[path]
    if path and node_at(b.lay['root'], path)['k'] == 'sys':
        suffix = 'm' if suffix == 'preferred' else suffix
    if suffix == 'preferred':
        # loc is always built in metres
        u = 'm' if what == 'loc' else node_at(b.lay['root'], path)[key][1]
    else:
        u = suffix
    return getattr(o, stem + '_' + suffix), alm.UNITS[u]


PICKS = st.lists(st.tuples(st.integers(0, 999), st.sampled_from(SUFFIX)), min_size=1, max_size=4)


def setup(lay, picks, syms=(('plain',),), avoid=()):
    """the parameter picked as number i goes to fitting group i modulo their number"""
    b = alm.build(lay)
    b.lay = lay
    import phasor.fitting.casadi as FIT
    fr = FIT.FitterRoot()
    for j, y in enumerate(syms):
        if y[0] == 'plain':
            g = FIT.FitterSym()
        elif y[0] == 'shift':
            g = FIT.FitterSymJitterPlacement(shift='%r%s' % (y[1], y[2]))
        else:
            g = FIT.FitterSymJitterRelative(percent_adjust=y[1])
        setattr(fr.own, 'sym%d' % j, g)
    fr.systems.alm = b.sys
    cand = [p for p in parameters(lay) if p[0] not in avoid]
    ps, scale = [], []
    b.groups = []
    for j, (i, suffix) in enumerate(picks):
        if not cand:
            break
        p = cand[i % len(cand)]
        if p in ps:
            continue
        if p[1] == 'loc':
            at = node_at(lay['root'], p[0][:-1])['loc']
            if sum(abs(z - at[p[0][-1]]) < 1e-9 for z in at) > 1:
                suffix = 'm'  # converting units rounds, which would order elements at one spot
        try:
            a, u = attribute(b, p, suffix)
        except AttributeError:
            continue
        g = j % len(syms)
        getattr(fr, 'sym%d' % g).parameter(a)
        ps.append(p)
        b.groups.append(g)
        scale.append(u)
    return b, fr, ps, scale


def evaluate(fr, xs, vals):
    """numbers for a list of expressions (symbolic or not) at the values of the fitter's symbols"""
    import casadi
    out, exprs, where = [], [], []
    from phasor.math.complex import Complex
    for x in xs:
        parts = (x.real, x.imag) if isinstance(x, Complex) else (x,)
        got = []
        for y in parts:
            if isinstance(y, casadi.MX):
                got.append(len(exprs))
                exprs.append(y)
            else:
                got.append(None)
        out.append((parts, got, isinstance(x, Complex)))
    if exprs:
        f = casadi.Function('f', fr.symbol_map.sym_list, exprs)
        r = f(*vals)
        r = [r] if len(exprs) == 1 else r
    res = []
    for parts, got, cp in out:
        v = [complex(parts[j]) if g is None else float(r[g]) for j, g in enumerate(got)]
        res.append(v[0] + 1j * v[1] if cp else v[0])
    return res, len(exprs)


def arrange(fr, b, ps, scale):
    """starting values of the fitter's symbols, parameters in the order of the symbols"""
    iv = [float(x) for x in fr.symbol_map.ival_list]
    order = sorted(range(len(ps)), key=lambda i: b.groups[i])
    b.groups = [b.groups[i] for i in order]
    return iv, [ps[i] for i in order], [scale[i] for i in order]


def matrix_entries(m):
    return [m[i, j] for i in range(2) for j in range(2)]


MOVES = st.lists(st.lists(st.floats(-1, 1), min_size=4, max_size=4), min_size=2, max_size=3)


def moved(lay, ps, how):
    """the layout with the parameters changed, or None if elements would overlap"""
    for f in (1, 0.2, -0.2, 0.03):
        got = moved_by(lay, ps, [f * x for x in how])
        if got is not None:
            return got


def moved_by(lay, ps, how):
    new = copy.deepcopy(lay)
    vals = []
    for p, x in zip(ps, how):
        v = getp(lay, p)
        if p[1] == 'loc':
            v = v + 0.3 * x * (0.05 + abs(v))
        else:
            v = v * math.exp(0.7 * x)
        setp(new, p, v)
        vals.append(v)
    if not regap(new):
        return None
    return new, vals


KINDS = [k for k in alm.LEAVES if k != 'abcd']


@R.law(st.tuples(alm.layout(kinds=KINDS, min_targets=2), PICKS, MOVES, st.lists(st.integers(0, 99), min_size=4, max_size=4)),
       n=240, thorough=6000, shards=6, rule='the matrix or the overlap depends on a parameter, at values that are not the starting ones')
def layouts_at_any_values(case):
    """expressions of the fitter's layout, evaluated at any values, are those of the layout built with these values"""
    lay, picks, moves, pick = case
    lay = copy.deepcopy(lay)
    locate(lay)
    tr0 = alm.Trace(lay)
    if maxabs(tr0.M) > 1e4:
        return False
    b, fr, ps, scale = setup(lay, picks)
    if not ps:
        return False
    fs = fr.fit_systems.alm
    iv, ps, scale = arrange(fr, b, ps, scale)
    require(len(iv) == len(ps), "symbols of the fitter: %d of %d" % (len(iv), len(ps)))
    close(np.array(iv), np.array([getp(lay, p) / u for p, u in zip(ps, scale)]), 'starting values in the units asked for', rtol=1e-9)
    n = len(lay['root']['ch'])
    t1, t2 = 'c%d' % (n - 1), 'c%d' % (n - 2)
    paths = sorted(tr0.idx)
    pa, pb = paths[pick[0] % len(paths)], paths[pick[1] % len(paths)]
    sa, sb = ['left', 'right'][pick[2] % 2], ['left', 'right'][pick[3] % 2]

    def sym(path):
        o = fs
        for i in path:
            o = getattr(o, 'c%d' % i)
        return o
    xs = matrix_entries(fs.matrix) + matrix_entries(fs.matrix_between(sym(pa).as_target(sa), sym(pb).as_target(sb)))
    xs += [fs.measurements.overlap(t1, t2), fs.measurements.object_z(sym(pa), direction=sa), fs.width_m]
    base, nsym = evaluate(fr, xs, iv)
    dep = nt = 0
    for how in [[0.0] * 4] + moves:
        got = moved(lay, ps, how)
        if got is None:
            continue
        new, vals = got
        tr = alm.Trace(new)
        k = max([maxabs(m) for m in tr.cum] + [maxabs(alm.symp_inv(m)) for m in tr.cum])
        if k > 1e4:
            continue
        r, _ = evaluate(fr, xs, [v / u for v, u in zip(vals, scale)])
        what = 'at ' + ', '.join('%s.%s=%r' % (p[0], p[3], v) for p, v in zip(ps, vals))
        close(np.array(r[:4]).reshape(2, 2), tr.M, 'matrix ' + what, rtol=1e-9, scale=k)
        M = tr.before(pb, sb) @ alm.symp_inv(tr.before(pa, sa))
        close(np.array(r[4:8]).reshape(2, 2), M, 'matrix between elements ' + what, rtol=1e-9, scale=k * k)
        nb = alm.build(new)
        close(r[8], complex(nb.sys.measurements.overlap(t1, t2)), 'overlap ' + what, rtol=1e-6, scale=1e-3)
        close(r[9], tr.z_of(pa, sa), 'position ' + what, rtol=1e-9, scale=max(tr.width, 1))
        close(r[10], tr.width, 'width ' + what, rtol=1e-9, scale=max(tr.width, 1))
        if any(how):
            nt += 1
            dep |= maxabs(np.array(r[:9]) - np.array(base[:9])) > 1e-6
    # what is fitted is a copy
    close(b.sys.matrix, tr0.M, 'matrix of the layout itself', rtol=1e-9, scale=max(1, maxabs(tr0.M)))
    return dict(fitted=len(ps), at=nt, kinds=tuple(sorted(set(p[3] for p in ps)))[:2]) if nt and dep else False


GROUPS = st.lists(st.one_of(st.just(['plain']), st.tuples(st.just('shift'), st.sampled_from([1e-3, 0.01, 0.2]), st.sampled_from(['in', 'mm', 'cm', 'ft'])),
                            st.tuples(st.just('relative'), st.sampled_from([0.1, 1, 5]))), min_size=1, max_size=3)
FOOT = dict(mm=1e-3, cm=1e-2, ft=0.3048)
FOOT['in'] = 0.0254


def figure(which, goal):
    """(expression for the fitter, number from a layout of the library)"""
    def f(alm):
        if which == 'overlap':
            return abs(alm.measurements.overlap(*goal)) ** 4
        M = alm.matrix
        return -((M[0, 0] - goal[0]) ** 2 + (M[1, 0] - goal[1]) ** 2 * goal[2])
    return f


@R.law(st.tuples(alm.layout(kinds=KINDS, min_targets=2), PICKS, GROUPS, st.lists(st.floats(-1, 1), min_size=4, max_size=4), st.booleans()),
       n=200, thorough=5000, shards=4, rule='a jittered parameter that the figure depends on')
def jitter_averages(case):
    """with jitter the figure is its mean over the layout itself and those with one or two of the parameters shifted up or down"""
    import phasor.fitting.casadi as FIT
    lay, picks, groups, how, ovl = case
    lay = copy.deepcopy(lay)
    locate(lay)
    tr0 = alm.Trace(lay)
    if maxabs(tr0.M) > 1e4:
        return False
    n = len(lay['root']['ch'])
    b, fr, ps, scale = setup(lay, picks, groups)
    # a length cannot be added to nothing else
    if not ps or all(groups[g][0] == 'plain' for g in b.groups):
        return False
    f = figure('overlap', ('c%d' % (n - 1), 'c%d' % (n - 2))) if ovl else figure('matrix', (1.0, 0.5, 1.0))
    fr.own.goal = FIT.FitterExpression(function=f)
    iv, ps, scale = arrange(fr, b, ps, scale)
    got = moved(lay, ps, how)
    if got is None:
        return False
    vals = [v / u for v, u in zip(got[1], scale)]
    e = fr.goal.expression_remapped

    def shifts(j):
        g = groups[b.groups[j]]
        if g[0] == 'plain':
            return []
        if g[0] == 'shift':
            d = g[1] * FOOT[g[2]] / scale[j]
            return [lambda v: v + d, lambda v: v - d]
        return [lambda v: v * (1 + g[1] / 100.0), lambda v: v / (1 + g[1] / 100.0)]
    points = [vals]
    for i in range(len(ps)):
        for t in shifts(i):
            one = list(vals)
            one[i] = t(one[i])
            points.append(one)
            for j in range(i + 1, len(ps)):
                for t2 in shifts(j):
                    two = list(one)
                    two[j] = t2(two[j])
                    points.append(two)
    each = []
    for p in points:
        r, ns = evaluate(fr, [fr.goal.expression], p)
        each.append(float(np.real(r[0])))
    if not ns or not all(np.isfinite(each)):
        return False
    (got, exp), _ = evaluate(fr, [e.expr, e.expr_expanded], vals)
    want = sum(each) / len(each)
    close(got, want, 'figure averaged over %d layouts' % len(each), rtol=1e-9, scale=maxabs(each))
    close(exp, want, 'expanded figure', rtol=1e-9, scale=maxabs(each))
    jit = sum(groups[g][0] != 'plain' for g in b.groups)
    return dict(jittered=jit, plain=len(ps) - jit) if max(each) - min(each) > 1e-12 * maxabs(each) else False


def numbers(s, lay, ps, objs):
    """all fittable parameters of a layout, in metres"""
    out = []
    for path, what, key, stem in parameters(lay):
        o = s
        for i in path:
            o = getattr(o, 'c%d' % i)
        out.append(float(getattr(o, stem + '_m').val))
    return np.array(out)


@R.law(st.tuples(alm.layout(kinds=KINDS, width=4, min_targets=2), PICKS, GROUPS, st.lists(st.floats(-1, 1), min_size=4, max_size=4),
                 st.sampled_from(['overlap', 'overlap', 'matrix']), st.booleans()),
       n=160, thorough=4000, shards=6, rule='a fit that changes a parameter')
def fits_report_what_they_changed(case):
    """a fit changes the parameters given to it and nothing else, reports the values it found, and keeps the elements in order"""
    import phasor.fitting.casadi as FIT
    lay, picks, groups, how, which, again = case
    lay = copy.deepcopy(lay)
    locate(lay)
    tr0 = alm.Trace(lay)
    if maxabs(tr0.M) > 1e3:
        return False
    n = len(lay['root']['ch'])
    goal = ('c%d' % (n - 1), 'c%d' % (n - 2))
    b, fr, ps, scale = setup(lay, picks, groups)
    if not ps:
        return False
    if which == 'matrix':
        got = moved(lay, ps, [0.5 * x for x in how])
        if got is None:
            return False
        M = alm.Trace(got[0]).M
        goal = (M[0, 0], M[1, 0], 1.0)
    f = figure(which, goal)
    fr.own.goal = FIT.FitterExpression(function=f, max_iter=100, max_cpu_time=5)
    iv, ps, scale = arrange(fr, b, ps, scale)
    before = numbers(b.sys, lay, ps, b)
    try:
        ret = fr.goal.minimize_function()
    except Exception as E:
        if 'Invalid number' in str(E):
            return False
        raise
    tab = ret.symbol_values_fitted_table()
    require(len(tab) == len(ps), 'entries of the table of fitted values')
    fitted = dict((t[0], (t[1], t[2])) for t in tab)
    names = [d.name_global for d in fr.symbol_map.datum_list]
    vals = []
    for nm, p, u, v0 in zip(names, ps, scale, iv):
        close(float(fitted[nm][0]), v0, 'starting value of %s in the table' % nm, rtol=1e-12)
        vals.append(float(fitted[nm][1]))
    after = numbers(ret.systems.alm, lay, ps, None)
    allp = parameters(lay)
    for i, p in enumerate(allp):
        if p in ps:
            j = ps.index(p)
            close(after[i], vals[j] * scale[j], 'fitted %s of %s' % (p[3], p[0]), rtol=1e-9)
        else:
            close(after[i], before[i], '%s of %s, which was not fitted' % (p[3], p[0]), rtol=1e-9)
    close(numbers(b.sys, lay, ps, None), before, 'parameters of the layout that was fitted', rtol=0, atol=0)
    new = copy.deepcopy(lay)
    for p, v, u in zip(ps, vals, scale):
        setp(new, p, v * u)
    e = fr.goal.expression_remapped.expr
    (g0,), ns = evaluate(fr, [e], iv)
    if not ns:
        return False
    (g1,), _ = evaluate(fr, [e], vals)
    if not np.isfinite(g0):
        return False
    g0, g1 = float(np.real(g0)), float(np.real(g1))
    # the optimiser follows directions that the figure does not depend on, to values where rounding takes over
    wild = any(abs(v * u) > 1e3 or 0 < abs(v * u) < 1e-6 for v, u in zip(vals, scale))
    if wild:
        return False
    moved_ = max(abs(a / c - 1) if c else abs(a) for a, c in zip(vals, iv))
    gap = least_gap(new, 1.0)
    require(gap > -1e-6 * max(1, tr0.width), 'elements moved through each other by %r' % gap)
    if regap(new) and ordered(new, lay):
        tr = alm.Trace(new)
        k = max([maxabs(m) for m in tr.cum] + [maxabs(alm.symp_inv(m)) for m in tr.cum])
        if k < 1e4:
            close(ret.systems.alm.matrix, tr.M, 'matrix of the fitted layout', rtol=1e-9, scale=k)
            (plain,), _ = evaluate(fr, [fr.goal.expression], vals)
            close(float(np.real(complex(f(ret.systems.alm)))), float(np.real(plain)), 'figure of the fitted layout', rtol=1e-6, scale=1e-3)
    if again:
        ret2 = ret.goal.minimize_function()
        t2 = dict((t[0], (t[1], t[2])) for t in ret2.symbol_values_fitted_table())
        for nm, v in zip(names, vals):
            close(float(t2[nm][0]), v, 'second fit starts from %s' % nm, rtol=1e-9)
        v2 = [float(t2[nm][1]) for nm in names]
        require(ret2.sequence_N == 2, 'number of fits', ret2.sequence_N)
    return dict(fitted=len(ps), which=which, again=again) if moved_ > 1e-6 else False


MATCH = st.tuples(logf(-2, 0), st.lists(st.tuples(logf(-1, 0.3), logf(-1, 0.3), st.booleans()), min_size=2, max_size=3), logf(-1, 0),
                 st.lists(st.floats(-1, 1), min_size=6, max_size=6), st.lists(st.sampled_from(['m', 'mm', 'in', 'preferred']), min_size=6, max_size=6), st.booleans())


def recover(case):
    """(overlap, overlap after the fit) of a layout with displaced and misfigured lenses, None if it is too well or badly matched"""
    import phasor.fitting.casadi as FIT
    zr, lenses, last, off, suf, wide = case
    ch = [dict(k='tgt', q=[0, zr])]
    gaps = [[0, 'm']]
    for f, g, pos in lenses:
        ch.append(dict(k='lens', f=[f if pos else -f, 'm']))
        gaps.append([g, 'm'])
    ch.append(dict(k='tgt', q=[0, 1.0]))
    gaps.append([last, 'm'])
    lay = dict(root=dict(k='sys', ch=ch, gaps=gaps, rev=False, perm=list(range(len(ch)))), env='vacuum', nm=1064)
    locate(lay)
    M = alm.Trace(lay).M
    q = (M[0, 0] * 1j * zr + M[0, 1]) / (M[1, 0] * 1j * zr + M[1, 1])
    if not 1e-3 < q.imag < 30 or abs(q.real) > 30:
        return None
    ch[-1]['q'] = [q.real, q.imag]
    truth = copy.deepcopy(lay)
    j, ps = 0, []
    for i in range(1, len(ch) - 1):
        for p in (((i,), 'loc', None, 'loc'), ((i,), 'par', 'f', 'f')):
            v = getp(lay, p)
            setp(lay, p, v * (1 + off[j % 6] * 0.05))
            ps.append((p, suf[j % 6]))
            j += 1
    if not wide:
        ps = ps[:2] + ps[3:]
    if not regap(lay) or any(g[0] < 1e-3 for g in lay['root']['gaps'][1:]):
        return None
    b = alm.build(lay)
    b.lay = lay
    fr = FIT.FitterRoot()
    fr.own.sym = FIT.FitterSym()
    fr.systems.alm = b.sys
    for p, sx in ps:
        fr.sym.parameter(attribute(b, p, sx)[0])
    n = len(ch)
    f = figure('overlap', ('c0', 'c%d' % (n - 1)))
    fr.own.goal = FIT.FitterExpression(function=f, max_iter=300, max_cpu_time=5)
    f0 = float(f(b.sys))
    if not 0.8 < f0 < 0.9999:
        return None
    ret = fr.goal.minimize_function()
    f1 = float(f(ret.systems.alm))
    return f0, f1


@R.law(st.lists(MATCH, min_size=8, max_size=12), n=40, thorough=600, shards=5, rule='at least four starts with an overlap between 0.8 and 0.9999')
def fits_recover(case):
    """displaced and misfigured lenses are brought back to match the beams, from most starts (the optimiser is a local one)"""
    got = [x for x in (recover(c) for c in case) if x is not None]
    good = [x for x in got if x[1] > 1 - 1e-6]
    if len(got) < 4:
        return False
    require(2 * len(good) >= len(got), 'overlaps before and after the fits: ' + ', '.join('%.6f %.6f' % x for x in got))
    return dict(starts=len(got), recovered=len(good))
