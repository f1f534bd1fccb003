import cmath, math, operator
from vlib.core import *

R = Registry('C28', 'complex scalar arithmetic')
fl = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, -2.0, 3.0]), logf(-3, 3, signed=True))
KINDS = ['C', 'C', 'py', 'int', 'np']


@st.composite
def num(draw, kinds=KINDS):
    k = draw(st.sampled_from(kinds))
    if k == 'int':
        return [k, draw(st.integers(-5, 5)), 0]
    return [k, draw(fl), draw(fl)]


def lib(n):
    from phasor.math.complex import Complex
    k, a, b = n
    if k == 'C':
        return Complex(a, b)
    return a if k == 'int' else complex(a, b) if k == 'py' else np.complex128(complex(a, b))


def py(n):
    return complex(n[1], n[2])


def cv(z):
    return complex(float(z.real), float(z.imag))


OPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv)


@st.composite
def expr(draw, depth=3):
    if depth == 0 or draw(chance(0.3)):
        return draw(num())
    if draw(chance(0.25)):
        return [draw(st.sampled_from(['neg', 'conj', 'pos', 'sq'])), draw(expr(depth - 1))]
    return [draw(st.sampled_from(sorted(OPS))), draw(expr(depth - 1)), draw(expr(depth - 1))]


class Skip(Exception):
    pass


def ev(e, leaf, track):
    if e[0] in KINDS:
        v = leaf(e)
    elif e[0] in OPS:
        a, b = ev(e[1], leaf, track), ev(e[2], leaf, track)
        if e[0] == 'div' and abs(cv(b)) < 1e-6:
            raise Skip
        v = OPS[e[0]](a, b)
    else:
        a = ev(e[1], leaf, track)
        v = -a if e[0] == 'neg' else +a if e[0] == 'pos' else a.conjugate() if e[0] == 'conj' else a * a
    m = abs(cv(v))
    track.append(m)
    if m > 1e12:
        raise Skip
    return v


def fold(e, out):
    if e[0] in KINDS:
        out.add(e[0])
    else:
        for x in e[1:]:
            fold(x, out)
    return out


@R.law(expr(), n=1500, thorough=40000, shards=2, rule='mixes the library type with another number type')
def expressions(e):
    t = []
    try:
        want = ev(e, py, t)
        got = ev(e, lib, [])
    except Skip:
        return False
    lo = min([x for x in t if x > 0] or [1])
    close(cv(got), want, 'value', rtol=1e-9, scale=max(t) * max(1, max(t) / lo) ** 0.5)
    kinds = fold(e, set())
    return dict(ops=len(t)) if 'C' in kinds and len(kinds) > 1 else False


@R.law(st.tuples(num(['C']), st.one_of(st.integers(-7, 9), st.sampled_from([0.5, 1.5, 0.25, -0.5, 2.0, 3.0, 1 / 3., -1.7, -2.0, 4.0]))),
       n=1200, thorough=20000, rule='exponent not 0 or 1')
def powers(case):
    n, p = case
    z = py(n)
    if abs(z) < 1e-2 and p < 0 or z == 0 or abs(z) > 100:
        return False
    if p == 0.5 and z.imag == 0 and z.real < 0:
        return False                        # on the branch cut
    if z.imag == 0 and z.real < 0 and p != int(p):
        return False
    want = z ** p
    got = lib(n) ** p
    close(cv(got), want, 'power', rtol=1e-8, scale=abs(want))
    return p not in (0, 1)


@R.law(st.tuples(num(['C']), num(['C', 'py', 'np', 'int'])), n=900, thorough=15000, rule='both parts non zero')
def functions_and_comparison(case):
    from phasor.math import complex as pc, dispatched as d
    a, b = case
    z, w = py(a), py(b)
    A, B = lib(a), lib(b)
    close(abs(A), abs(z), 'magnitude', rtol=1e-12)
    close(A.abs_sq(), abs(z) ** 2, 'squared magnitude', rtol=1e-12)
    require((A == B) == (z == w), 'equality', (a, b))
    require((A != B) == (z != w), 'inequality', (a, b))
    require(A == lib(['py', a[1], a[2]]) and not (A != lib(['py', a[1], a[2]])), 'equals the same python number', a)
    require(complex(A) == z, 'conversion to a python number', a)
    if z != 0:
        close(pc.angle(A), cmath.phase(z) if z.imag or z.real > 0 else math.pi, 'angle', rtol=1e-9, scale=1)
        close(pc.angle(A, deg=True), math.degrees(cmath.phase(z)) if z.imag or z.real > 0 else 180., 'angle in degrees', rtol=1e-9, scale=1)
    if abs(z.real) < 50 and abs(z.imag) < 1e4:
        close(cv(pc.exp(A)), cmath.exp(z), 'exponential', rtol=1e-8, scale=abs(cmath.exp(z)))
    close(cv(A.conjugate()), z.conjugate(), 'conjugate', rtol=1e-12)
    close([float(d.re(A)), float(d.im(A))], [z.real, z.imag], 'parts', rtol=1e-12)
    return z.real != 0 and z.imag != 0


@R.law(st.tuples(st.lists(st.tuples(fl, fl), min_size=2, max_size=4), num(['C', 'py', 'int']), st.sampled_from(sorted(OPS)), st.booleans()),
       n=500, thorough=8000, rule='an array of complex numbers')
def arrays(case):
    """an array inside the type behaves as the stack of its elements"""
    from phasor.math.complex import Complex
    zs, n, op, left = case
    A = Complex(np.array([a for a, b in zs]), np.array([b for a, b in zs]))
    w = py(n)
    W = lib(n)
    args = [(complex(*z), w) if left else (w, complex(*z)) for z in zs]
    if op == 'div' and min(abs(y) for x, y in args) < 1e-6:
        return False
    got = OPS[op](A, W) if left else OPS[op](W, A)
    want = np.array([OPS[op](x, y) for x, y in args])
    close(np.asarray(got.real) + 1j * np.asarray(got.imag), want, op, rtol=1e-9, scale=maxabs(want))
    for i in range(len(zs)):
        close(cv(A[i]), complex(*zs[i]), 'element', rtol=1e-12)
    return True
