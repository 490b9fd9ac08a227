"""C23: reference elements, shape functions and Gauss localizations"""
from functools import lru_cache
from itertools import product
from math import factorial as fac, prod, sqrt
import numpy as np
from fields import *

GL = mc.MEDCouplingGaussLocalization
GNE = mc.MEDCouplingFieldDiscretizationGaussNE
SEG2, SEG3, SEG4, TRI3, TRI6, TRI7, QUAD4, QUAD8, QUAD9 = [getattr(mc, 'NORM_' + x) for x in 'SEG2 SEG3 SEG4 TRI3 TRI6 TRI7 QUAD4 QUAD8 QUAD9'.split()]
TETRA4, TETRA10, PYRA5, PYRA13, PENTA6, PENTA15, PENTA18, HEXA8, HEXA20, HEXA27 = [getattr(mc, 'NORM_' + x) for x in 'TETRA4 TETRA10 PYRA5 PYRA13 PENTA6 PENTA15 PENTA18 HEXA8 HEXA20 HEXA27'.split()]
NAME = {getattr(mc, 'NORM_' + x): x for x in 'SEG2 SEG3 SEG4 TRI3 TRI6 TRI7 QUAD4 QUAD8 QUAD9 TETRA4 TETRA10 PYRA5 PYRA13 PENTA6 PENTA15 PENTA18 HEXA8 HEXA20 HEXA27'.split()}
T3 = 1 / 3.
# the reference coordinates supported for each element: (name, type, flat coordinates)
SETS = [
    ('SEG2A', SEG2, [-1, 1]),
    ('SEG2B', SEG2, [0, 1]),
    ('SEG3', SEG3, [-1, 1, 0]),
    ('SEG4', SEG4, [-1, 1, -T3, T3]),
    ('TRIA3A', TRI3, [-1, 1, -1, -1, 1, -1]),
    ('TRIA3B', TRI3, [0, 0, 1, 0, 0, 1]),
    ('TRIA6A', TRI6, [-1, 1, -1, -1, 1, -1, -1, 0, 0, -1, 0, 0]),
    ('TRIA6B', TRI6, [0, 0, 1, 0, 0, 1, 0.5, 0, 0.5, 0.5, 0, 0.5]),
    ('TRIA7A', TRI7, [0, 0, 1, 0, 0, 1, 0.5, 0, 0.5, 0.5, 0, 0.5, T3, T3]),
    ('QUAD4A', QUAD4, [-1, 1, -1, -1, 1, -1, 1, 1]),
    ('QUAD4B', QUAD4, [-1, -1, 1, -1, 1, 1, -1, 1]),
    ('QUAD8A', QUAD8, [-1, 1, -1, -1, 1, -1, 1, 1, -1, 0, 0, -1, 1, 0, 0, 1]),
    ('QUAD8B', QUAD8, [-1, -1, 1, -1, 1, 1, -1, 1, 0, -1, 1, 0, 0, 1, -1, 0]),
    ('QUAD9A', QUAD9, [-1, -1, 1, -1, 1, 1, -1, 1, 0, -1, 1, 0, 0, 1, -1, 0, 0, 0]),
    ('TETRA4A', TETRA4, [0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0]),
    ('TETRA4B', TETRA4, [0, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0]),
    ('TETRA10A', TETRA10, [0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0.5, 0.5, 0, 0, 0.5, 0, 0.5, 0, 0.5, 0.5, 0, 0.5, 0, 0.5, 0.5, 0, 0]),
    ('TETRA10B', TETRA10, [0, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0.5, 0, 0, 0, 0.5, 0, 0.5, 0.5, 0.5, 0.5, 0, 0.5, 0, 0, 0.5, 0, 0.5]),
    ('PYRA5A', PYRA5, [1, 0, 0, 0, 1, 0, -1, 0, 0, 0, -1, 0, 0, 0, 1]),
    ('PYRA5B', PYRA5, [1, 0, 0, 0, -1, 0, -1, 0, 0, 0, 1, 0, 0, 0, 1]),
    ('PYRA13A', PYRA13, [1, 0, 0, 0, 1, 0, -1, 0, 0, 0, -1, 0, 0, 0, 1, 0.5, 0.5, 0, -0.5, 0.5, 0, -0.5, -0.5, 0, 0.5, -0.5, 0, 0.5, 0, 0.5, 0, 0.5, 0.5, -0.5, 0, 0.5, 0, -0.5, 0.5]),
    ('PYRA13B', PYRA13, [1, 0, 0, 0, -1, 0, -1, 0, 0, 0, 1, 0, 0, 0, 1, 0.5, -0.5, 0, -0.5, -0.5, 0, -0.5, 0.5, 0, 0.5, 0.5, 0, 0.5, 0, 0.5, 0, -0.5, 0.5, -0.5, 0, 0.5, 0, 0.5, 0.5]),
    ('PENTA6A', PENTA6, [-1, 1, 0, -1, 0, 1, -1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0]),
    ('PENTA6B', PENTA6, [-1, 1, 0, -1, 0, 0, -1, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1]),
    ('PENTA15A', PENTA15, [-1, 1, 0, -1, 0, 1, -1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0, -1, 0.5, 0.5, -1, 0, 0.5, -1, 0.5, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0.5, 0.5, 1, 0, 0.5, 1, 0.5, 0]),
    ('PENTA15B', PENTA15, [-1, 1, 0, -1, 0, 0, -1, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, -1, 0.5, 0, -1, 0, 0.5, -1, 0.5, 0.5, 1, 0.5, 0, 1, 0, 0.5, 1, 0.5, 0.5, 0, 1, 0, 0, 0, 0, 0, 0, 1]),
    ('PENTA18A', PENTA18, [-1, 1, 0, -1, 0, 1, -1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0, -1, 0.5, 0.5, -1, 0, 0.5, -1, 0.5, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0.5, 0.5, 1, 0, 0.5, 1, 0.5, 0, 0, 0.5, 0.5, 0, 0, 0.5, 0, 0.5, 0]),
    ('PENTA18B', PENTA18, [-1, 1, 0, -1, 0, 0, -1, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, -1, 0.5, 0, -1, 0, 0.5, -1, 0.5, 0.5, 1, 0.5, 0, 1, 0, 0.5, 1, 0.5, 0.5, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0.5, 0, 0, 0, 0.5, 0, 0.5, 0.5]),
    ('HEXA8A', HEXA8, [-1, -1, -1, 1, -1, -1, 1, 1, -1, -1, 1, -1, -1, -1, 1, 1, -1, 1, 1, 1, 1, -1, 1, 1]),
    ('HEXA8B', HEXA8, [-1, -1, -1, -1, 1, -1, 1, 1, -1, 1, -1, -1, -1, -1, 1, -1, 1, 1, 1, 1, 1, 1, -1, 1]),
    ('HEXA20A', HEXA20, [-1, -1, -1, 1, -1, -1, 1, 1, -1, -1, 1, -1, -1, -1, 1, 1, -1, 1, 1, 1, 1, -1, 1, 1, 0, -1, -1, 1, 0, -1, 0, 1, -1, -1, 0, -1, -1, -1, 0, 1, -1, 0, 1, 1, 0, -1, 1, 0, 0, -1, 1, 1, 0, 1, 0, 1, 1, -1, 0, 1]),
    ('HEXA20B', HEXA20, [-1, -1, -1, -1, 1, -1, 1, 1, -1, 1, -1, -1, -1, -1, 1, -1, 1, 1, 1, 1, 1, 1, -1, 1, -1, 0, -1, 0, 1, -1, 1, 0, -1, 0, -1, -1, -1, 0, 1, 0, 1, 1, 1, 0, 1, 0, -1, 1, -1, -1, 0, -1, 1, 0, 1, 1, 0, 1, -1, 0]),
    ('HEXA27A', HEXA27, [-1, -1, -1, -1, 1, -1, 1, 1, -1, 1, -1, -1, -1, -1, 1, -1, 1, 1, 1, 1, 1, 1, -1, 1, -1, 0, -1, 0, 1, -1, 1, 0, -1, 0, -1, -1, -1, 0, 1, 0, 1, 1, 1, 0, 1, 0, -1, 1, -1, -1, 0, -1, 1, 0, 1, 1, 0, 1, -1, 0, 0, 0, -1, -1, 0, 0, 0, 1, 0, 1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0]),
    ('QUAD4C', QUAD4, [-1, -1, -1, 1, 1, 1, 1, -1]),
]
DIM = {t: 1 if n.startswith('SEG') else 2 if n[:3] in ('TRI', 'QUA') else 3 for t, n in NAME.items()}
REFS = {}
for n_, t_, v_ in SETS:
    REFS[n_] = (t_, [tuple(float(x) for x in v_[i:i + DIM[t_]]) for i in range(0, len(v_), DIM[t_])])
BYTYPE = {}
for n_, (t_, c_) in REFS.items():
    BYTYPE.setdefault(t_, []).append(n_)


def monos(t):
    """functions spanning the interpolation space: exponents; None when it is not a polynomial space"""
    n = NAME[t]
    if n.startswith('SEG'):
        return [(k,) for k in range(int(n[3]))]
    if n in ('TRI3', 'TRI6'):
        return [e for e in product(range(3), repeat=2) if sum(e) <= (1 if n == 'TRI3' else 2)]
    if n in ('QUAD4', 'HEXA8'):
        return list(product(range(2), repeat=DIM[t]))
    if n in ('QUAD9', 'HEXA27'):
        return list(product(range(3), repeat=DIM[t]))
    if n in ('QUAD8', 'HEXA20'):  # serendipity: superlinear degree at most 2
        return [e for e in product(range(3), repeat=DIM[t]) if sum(k for k in e if k > 1) <= 2]
    if n in ('TETRA4', 'TETRA10'):
        return [e for e in product(range(3), repeat=3) if sum(e) <= (1 if n == 'TETRA4' else 2)]
    if n == 'PENTA6':
        return [(a, b, c) for a, b, c in product(range(2), repeat=3) if b + c <= 1]
    if n == 'PENTA15':
        return [e for e in product(range(3), repeat=3) if e[1] + e[2] <= 2 and (e[0] < 2 or e[1] + e[2] <= 1)]
    if n == 'PENTA18':
        return [e for e in product(range(3), repeat=3) if e[1] + e[2] <= 2]
    return None


def fbasis(name):
    """list of functions of a point spanning the interpolation space of the element with the reference coordinates name"""
    t = REFS[name][0]
    ms = monos(t)
    if ms is not None:
        return [lambda p, e=e: prod(x ** k for x, k in zip(p, e)) for e in ms]
    if t == TRI7:
        return [lambda p, e=e: p[0] ** e[0] * p[1] ** e[1] for e in monos(TRI6)] + [lambda p: p[0] * p[1] * (1 - p[0] - p[1])]
    if t == PYRA5:
        return [lambda p: 1., lambda p: p[0], lambda p: p[1], lambda p: p[2], lambda p: (p[0] ** 2 - p[1] ** 2) / (1 - p[2])]
    return None


@lru_cache(None)
def basis_inv(name):
    fs = fbasis(name)
    if fs is None:
        return None
    pts = REFS[name][1]

    def val(f, p):
        if NAME[REFS[name][0]] == 'PYRA5' and p[2] == 1.:
            p = (p[0], p[1], 1 - 1e-300)
            return f((0., 0., 0.)) if f((.5, 0., 0.)) == .25 else f((0., 0., 1.)) if f((.5, 0., 0.)) != .5 else 0.
        return f(p)
    V = np.array([[val(f, p) for f in fs] for p in pts])
    return fs, np.linalg.inv(V)


def ref_shape(name, p):
    b = basis_inv(name)
    if b is None:
        return None
    fs, iv = b
    return list(np.array([f(p) for f in fs]) @ iv)


def in_ref(d, name, spread=.3):
    """point in (or slightly around) the reference element"""
    t, pts = REFS[name]
    n = d.choice([0, 0, 1])
    if n:
        return tuple(d.sint(8) / 8. for _ in range(DIM[t]))
    nv = {'SEG': 2, 'TRI': 3, 'QUA': 4, 'TET': 4, 'PYR': 5, 'PEN': 6, 'HEX': 8}[NAME[t][:3]]
    w = [d.uniform(0, 1) for _ in range(nv)]
    s = sum(w) or 1.
    return tuple(sum(wi * q[k] for wi, q in zip(w, pts)) / s for k in range(DIM[t]))


def loc_of(name, pts, w=None):
    t, rc = REFS[name]
    return GL(t, [x for p in rc for x in p], [x for p in pts for x in p], w or [1. / len(pts)] * len(pts))


def pyr(t):
    return t in (PYRA5, PYRA13)


def pick(d, types=None):
    ns = [n for n in REFS if types is None or REFS[n][0] in types]
    return ns[d.below(len(ns))]


def away(name, p):
    """not on the singular lines of the pyramids (the apex)"""
    return not pyr(REFS[name][0]) or p[2] < .95


@check(n=15000, rule='the point is not a node')
def shape(d):
    """partition of unity, value at the nodes, linear reproduction, and equality with the interpolation space"""
    name = pick(d)
    t, rc = REFS[name]
    k = d.bool(.3)
    pts = [rc[d.below(len(rc))] if k else in_ref(d, name) for _ in range(d.int(1, 3))]
    if not k:
        d.assume(all(away(name, p) for p in pts))
    d.nontrivial(not k)
    d.label(name)
    d.sample('%s at %r' % (name, pts))
    l = loc_of(name, pts)
    N = T(l.getShapeFunctionValues())
    eq(d, len(N), len(pts), '%s: number of points' % name)
    for p, v in zip(pts, N):
        eq(d, len(v), len(rc), '%s: number of shape functions' % name)
        d.check(close(sum(v), 1., 1e-12 * 10), '%s: shape functions at %r sum to %r' % (name, p, sum(v)))
        if p in rc:
            near(d, list(v), [1. if q == p else 0. for q in rc], '%s: shape functions at node %d' % (name, rc.index(p)), 1e-11)
        near(d, [sum(a * q[j] for a, q in zip(v, rc)) for j in range(DIM[t])], list(p), '%s: reference coordinates of %r interpolated from the nodes' % (name, p), 1e-11)
        r = ref_shape(name, p) if p not in rc else None
        if r is not None:
            near(d, list(v), r, '%s: shape functions at %r' % (name, p), 1e-10)
        # quadratic elements reproduce quadratic functions of the reference coordinates
        if t in (PYRA13,) and p not in rc:
            q = [[d.sint(3) for _ in range(3)] for _ in range(3)]
            fn = lambda x: sum(q[i][j] * x[i] * x[j] for i in range(3) for j in range(3))
            near(d, [sum(a * fn(x) for a, x in zip(v, rc))], [fn(p)], '%s: quadratic function %r at %r' % (name, q, p), 1e-10)


@check(n=10000, rule='always')
def derivatives(d):
    """derivatives are those of the shape functions (high order finite differences and interpolation space)"""
    name = pick(d)
    t, rc = REFS[name]
    D = DIM[t]
    p = in_ref(d, name)
    d.assume(not pyr(t) or p[2] < .8)
    d.nontrivial()
    d.label(name)
    d.sample('%s at %r' % (name, p))
    h = 1. / 1024
    if pyr(t):  # stay on one side of the planes where the formulas may change
        d.assume(all(abs(abs(p[0]) - abs(p[1])) > 4 * h and abs(x) > 4 * h for x in p[:2]))
    got = T(loc_of(name, [p]).getDerivativeOfShapeFunctionValues())
    eq(d, (len(got), len(got[0])), (1, len(rc) * D), '%s: size of the derivatives' % name)
    st = []
    for j in range(D):
        for m in (-2, -1, 1, 2):
            st.append(tuple(x + m * h * (i == j) for i, x in enumerate(p)))
    N = T(loc_of(name, st).getShapeFunctionValues())
    want = []
    for i in range(len(rc)):
        for j in range(D):
            a, b, c, e = [N[4 * j + m][i] for m in range(4)]
            want.append((a - 8 * b + 8 * c - e) / (12 * h))
    near(d, list(got[0]), want, '%s: derivatives at %r' % (name, p), 1e-7 if pyr(t) else 1e-9)
    for j in range(D):
        s = sum(got[0][i * D + j] for i in range(len(rc)))
        d.check(abs(s) < 1e-10, '%s: derivatives along %d at %r sum to %r' % (name, j, p, s))


def cellmesh(d, name, nc):
    """nc cells of the type, images of the reference element by affine maps plus noise, in a space of any dimension allowed"""
    t, rc = REFS[name]
    sd = d.int(DIM[t], 3)
    xyz, cells = [], []
    for _ in range(nc):
        A = [[d.sint(8) / 4. for _ in range(DIM[t])] for _ in range(sd)]
        b = [d.sint(8) / 2. for _ in range(sd)]
        z = d.choice([0, .25])
        c = []
        for q in rc:
            c.append(len(xyz))
            xyz.append(tuple(b[k] + sum(A[k][j] * q[j] for j in range(DIM[t])) + d.uniform(-z, z) for k in range(sd)))
        cells.append((t, c))
    o = d.perm(len(xyz))
    xyz2 = [None] * len(xyz)
    for i, p in enumerate(xyz):
        xyz2[o[i]] = p
    return PM(sd, DIM[t], xyz2, [(t, [o[i] for i in c]) for t, c in cells])


@check(n=8000, rule='at least two cells')
def localize(d):
    """physical points of reference points are the sums of the shape functions times the coordinates of the nodes"""
    name = pick(d)
    t, rc = REFS[name]
    pm = cellmesh(d, name, d.int(1, 3))
    pts = [in_ref(d, name) for _ in range(d.int(1, 4))]
    d.assume(all(away(name, p) for p in pts))
    d.nontrivial(pm.nc > 1)
    d.label(name)
    d.sample('%s at %r in %r' % (name, pts, pm))
    N = [ref_shape(name, p) for p in pts]
    if N[0] is None:
        N = T(loc_of(name, pts).getShapeFunctionValues())
    want = [[sum(N[g][k] * pm.xyz[v][j] for k, v in enumerate(c)) for j in range(pm.sd)] for _, c in pm.cells for g in range(len(pts))]
    u = to_mc(pm)
    l = loc_of(name, [pts[0]])
    got = T(l.localizePtsInRefCooForEachCell(Dbl(pts, DIM[t]), u))
    eq(d, len(got), len(want), 'number of points')
    for i, (g, w) in enumerate(zip(got, want)):
        near(d, list(g), list(w), '%s: physical point %d of %r' % (name, i, pts), 1e-10, 10.)
    # the same through a field on Gauss points
    f = CLS['double'](mc.ON_GAUSS_PT, mc.ONE_TIME)
    f.setMesh(u)
    w = [d.int(1, 4) / 8. for _ in pts]
    flat, gflat = [x for p in rc for x in p], [x for p in pts for x in p]
    if d.bool():
        f.setGaussLocalizationOnType(t, flat, gflat, w)
    else:
        f.setGaussLocalizationOnCells(I(list(range(pm.nc))), flat, gflat, w)
    got = T(f.getLocalizationOfDiscr())
    eq(d, len(got), len(want), 'number of points')
    for i, (g, x) in enumerate(zip(got, want)):
        near(d, list(g), list(x), '%s: Gauss point %d of %r' % (name, i, pts), 1e-10, 10.)


@check(n=800, rule='always')
def defaults(d):
    """default reference coordinates, reference cell, dimension and sizes of localizations, accessors"""
    t = d.choice(sorted(NAME))
    name = BYTYPE[t][0]
    rc = REFS[name][1]
    D = DIM[t]
    d.nontrivial()
    d.label(name)
    d.sample(name)
    got = T(GL.GetDefaultReferenceCoordinatesOf(t))
    if D == 1:
        got = [(x,) if not isinstance(x, tuple) else x for x in got]
    near(d, [x for p in got for x in p], [x for p in rc for x in p], 'default reference coordinates of ' + name, 1e-13)
    n = d.int(1, 4)
    pts = [in_ref(d, name) for _ in range(n)]
    w = [d.sint(8) / 4. for _ in range(n)]
    l = loc_of(name, pts, w)
    eq(d, (l.getType(), l.getDimension(), l.getNumberOfGaussPt(), l.getNumberOfPtsInRefCell()), (t, D, n, len(rc)), 'type, dimension, sizes')
    l.checkConsistencyLight()
    eq(d, list(l.getWeights()), w, 'weights')
    eq(d, list(l.getRefCoords()), [x for p in rc for x in p], 'reference coordinates')
    eq(d, list(l.getGaussCoords()), [x for p in pts for x in p], 'Gauss coordinates')
    m = l.buildRefCell()
    m.checkConsistency()
    eq(d, (m.getNumberOfCells(), m.getTypeOfCell(0), m.getNodeIdsOfCell(0)), (1, t, list(range(len(rc)))), 'reference cell')
    eq(d, [tuple(x) if isinstance(x, (list, tuple)) else (x,) for x in T(m.getCoords())], rc, 'coordinates of the reference cell')
    i, j = d.below(n), d.below(D)
    r, q = d.below(len(rc)), d.below(D)
    eq(d, (l.getGaussCoord(i, j), l.getWeight(i), l.getRefCoord(r, q)), (pts[i][j], w[i], rc[r][q]), 'single accessors')
    for fn in (lambda: l.getGaussCoord(n, 0), lambda: l.getGaussCoord(0, D), lambda: l.getGaussCoord(-1, 0), lambda: l.getWeight(n), lambda: l.getRefCoord(len(rc), 0), lambda: l.getRefCoord(0, D)):
        d.check(raises(fn), 'out of range accessor accepted')
    l2 = loc_of(name, pts, w)
    d.check(l.isEqual(l2, 1e-12), 'a localization is not equal to its copy')
    k = d.below(3)
    x = d.choice([1e-3, -.5, 2.])
    if k == 0:
        l2.setGaussCoord(i, j, pts[i][j] + x)
    elif k == 1:
        l2.setWeight(i, w[i] + x)
    else:
        l2.setRefCoord(r, q, rc[r][q] + x)
    d.check(not l.isEqual(l2, 1e-6), 'localizations differing by %r (%s) are equal' % (x, ['Gauss coordinate', 'weight', 'reference coordinate'][k]))
    d.check(l.isEqual(l2, 2 * abs(x)), 'localizations differing by %r are not equal with a tolerance of twice that' % x)
    e1 = [x for p in pts for x in p]
    e2 = [y for p in l2.getGaussCoords() for y in (p if isinstance(p, tuple) else (p,))]
    e1[i * D + j] += x * (k == 0)
    eq(d, e2, e1, 'Gauss coordinates after set')
    e1 = list(w)
    e1[i] += x * (k == 1)
    eq(d, list(l2.getWeights()), e1, 'weights after set')
    # inconsistent sizes are refused
    flat = [x for p in rc for x in p]
    d.check(raises(lambda: GL(t, flat[:-1], [x for p in pts for x in p], w)), 'too few reference coordinates accepted')
    d.check(raises(lambda: GL(t, flat, [x for p in pts for x in p][:-1], w)), 'too few Gauss coordinates accepted')
    d.check(raises(lambda: GL(t, flat, [x for p in pts for x in p], w + [1.])), 'too many weights accepted')


def i1(n):
    return 0. if n % 2 else 2. / (n + 1)


def exact(t, e):
    """integral of a monomial over the reference element of GetRefCoordsFromGeometricType"""
    n = NAME[t]
    if n[:3] in ('SEG', 'QUA', 'HEX'):
        return prod(i1(k) for k in e)
    if n[:3] in ('TRI', 'TET'):
        return prod(map(fac, e)) / fac(sum(e) + len(e))
    if n[:3] == 'PEN':
        return i1(e[0]) * fac(e[1]) * fac(e[2]) / fac(e[1] + e[2] + 2)
    if e[0] % 2 or e[1] % 2:
        return 0.
    a, b, c = e
    k = a + b + 2
    return 4. * fac(a) * fac(b) / fac(k) * fac(k) * fac(c) / fac(k + c + 1)


# total degree the rule integrates exactly at least
RULES = {SEG2: 3, SEG3: 5, SEG4: 7, TRI3: 2, TRI6: 4, TRI7: 5, QUAD4: 3, QUAD9: 5, TETRA4: 2, PENTA6: 2, HEXA8: 3, PYRA5: 2}
PLACEHOLDER = (QUAD8, TETRA10, PENTA15, PENTA18, HEXA20, HEXA27, PYRA13)
GREF = {SEG2: 'SEG2A', SEG3: 'SEG3', SEG4: 'SEG4', TRI3: 'TRIA3B', TRI6: 'TRIA6B', TRI7: 'TRIA7A', QUAD4: 'QUAD4B', QUAD8: 'QUAD8B', QUAD9: 'QUAD9A', TETRA4: 'TETRA4A', TETRA10: 'TETRA10A', PENTA6: 'PENTA6A',
        PENTA15: 'PENTA15A', PENTA18: 'PENTA18A', HEXA8: 'HEXA8A', HEXA20: 'HEXA20A', HEXA27: 'HEXA27A', PYRA5: 'PYRA5A', PYRA13: 'PYRA13B'}


def rule_error(t, deg):
    D = DIM[t]
    w, l = GNE.GetWeightArrayFromGeometricType(t), GNE.GetLocsFromGeometricType(t)
    P = [l[i * D:(i + 1) * D] for i in range(len(w))]
    out = 0.
    for e in product(range(deg + 1), repeat=D):
        if sum(e) <= deg:
            out = max(out, abs(sum(a * prod(x ** k for x, k in zip(p, e)) for a, p in zip(w, P)) - exact(t, e)))
    return out


@check(n=400, rule='always')
def rules(d):
    """the rules of the element nodes discretization integrate polynomials of low degree exactly; one point per node, inside the element"""
    t = d.choice(sorted(GREF))
    D = DIM[t]
    w, l, r = GNE.GetWeightArrayFromGeometricType(t), GNE.GetLocsFromGeometricType(t), GNE.GetRefCoordsFromGeometricType(t)
    rc = REFS[GREF[t]][1]
    d.nontrivial()
    d.label(NAME[t])
    d.sample('%s' % NAME[t])
    eq(d, (len(w), len(l), len(r)), (len(rc), len(rc) * D, len(rc) * D), '%s: sizes' % NAME[t])
    near(d, list(r), [x for p in rc for x in p], '%s: reference coordinates' % NAME[t], 1e-13)
    GL(t, list(r), list(l), list(w)).checkConsistencyLight()
    # located inside
    shp = T(GL(t, [x for p in rc for x in p], list(l), list(w)).getShapeFunctionValues())
    for i in range(len(w)):
        p = l[i * D:(i + 1) * D]
        k = NAME[t][:3]
        if k in ('SEG', 'QUA', 'HEX'):
            s = max(map(abs, p)) <= 1
        elif k in ('TRI', 'TET'):
            s = min(p) >= 0 and sum(p) <= 1 + 1e-9
        elif k == 'PEN':
            s = abs(p[0]) <= 1 and min(p[1:]) >= 0 and sum(p[1:]) <= 1 + 1e-9
        else:
            s = abs(p[0]) + abs(p[1]) + p[2] <= 1 + 1e-9 and p[2] >= 0
        d.check(s, '%s: point %d %r of the rule is outside the element' % (NAME[t], i, p))
        near(d, [sum(a * q[j] for a, q in zip(shp[i], rc)) for j in range(D)], list(p), '%s: point %d' % (NAME[t], i), 1e-10)
    if t in RULES:
        # a random polynomial
        deg = RULES[t]
        es = [e for e in product(range(deg + 1), repeat=D) if sum(e) <= deg]
        co = [d.sint(4) for _ in es]
        got = sum(a * sum(c * prod(x ** k for x, k in zip(l[i * D:(i + 1) * D], e)) for c, e in zip(co, es)) for i, a in enumerate(w))
        want = sum(c * exact(t, e) for c, e in zip(co, es))
        d.check(close(got, want, 1e-9 * (1 + sum(map(abs, co)))), '%s: polynomial %r of degree %d: the rule gives %r, exact %r' % (NAME[t], [(c, e) for c, e in zip(co, es) if c], deg, got, want))


def demo_placeholder():
    return all(rule_error(t, 1) > 1e-3 for t in PLACEHOLDER)


@check(n=8000, rule='some cell was assigned twice')
def assignment(d):
    """histories of setGaussLocalizationOnType/OnCells/clear against a model giving for each cell its localization"""
    pm = gen.any_mesh(d, dims=(1, 2, 3), nmax=d.int(2, 4))
    d.assume(all(t in NAME for t, _ in pm.cells))
    u = to_mc(pm)
    f = CLS['double'](mc.ON_GAUSS_PT, mc.ONE_TIME)
    f.setMesh(u)
    state = [None] * pm.nc
    order = []
    touched = [0] * pm.nc
    log = []
    for _ in range(d.int(1, 6)):
        op = d.weighted([(5, 'type'), (6, 'cells'), (1, 'clear'), (1, 'wrong')])
        if op == 'clear':
            f.clearGaussLocalizations()
            state = [None] * pm.nc
            order = []
            log.append('clear')
            continue
        types = sorted({t for t, _ in pm.cells})
        t = d.choice(types)
        name = d.choice(BYTYPE[t])
        n = d.int(1, 3)
        pts = [in_ref(d, name) for _ in range(n)]
        w = [d.int(1, 8) / 8. for _ in range(n)]
        flat, gf = [x for p in REFS[name][1] for x in p], [x for p in pts for x in p]
        loc = (t, flat, gf, w)
        if op == 'wrong':
            ids = [i for i in range(pm.nc)]
            if len(types) > 1:
                d.check(raises(lambda: f.setGaussLocalizationOnCells(I(ids), flat, gf, w)), 'cells of several types accepted')
            d.check(raises(lambda: f.setGaussLocalizationOnType(t, flat, gf, w + [1.])), 'too many weights accepted')
            other = [x for x in NAME if DIM[x] != pm.md]
            d.check(raises(lambda: f.setGaussLocalizationOnType(d.choice(other), flat, gf, w)), 'type of another dimension accepted')
            log.append('wrong')
        elif op == 'type':
            if d.bool(.15):  # a type absent from the mesh
                t2 = d.choice([x for x in NAME if DIM[x] == pm.md])
                nm = BYTYPE[t2][0]
                pts = [in_ref(d, nm)]
                loc = (t2, [x for p in REFS[nm][1] for x in p], list(pts[0]), [1.])
            f.setGaussLocalizationOnType(*loc)
            new = object()
            ids = [i for i in range(pm.nc) if pm.cells[i][0] == loc[0]]
            order.append(loc)
            for i in ids:
                state[i] = len(order) - 1
                touched[i] += 1
            log.append('type %s' % NAME[loc[0]])
        else:
            all_ids = [i for i in range(pm.nc) if pm.cells[i][0] == t]
            ids = [all_ids[k] for k in d.sample_ids(len(all_ids), d.int(1, len(all_ids)))]
            f.setGaussLocalizationOnCells(I(ids), *loc[1:])
            order.append(loc)
            for i in ids:
                state[i] = len(order) - 1
                touched[i] += 1
            log.append('cells %r' % (ids,))
    # model: localizations no longer used are dropped, the others keep their order of creation
    used = sorted({s for s in state if s is not None})
    d.nontrivial(max(touched) > 1)
    d.label('%d localizations' % len(used))
    d.sample('%s on %d cells' % ('; '.join(log), pm.nc))
    eq(d, f.getNbOfGaussLocalization(), len(used), 'number of localizations after ' + '; '.join(log))
    for k, s in enumerate(used):
        l = f.getGaussLocalization(k)
        t, rc, gs, w = order[s]
        eq(d, (l.getType(), list(l.getRefCoords()), list(l.getGaussCoords()), list(l.getWeights())), (t, rc, gs, w), 'localization %d after %s' % (k, '; '.join(log)))
        eq(d, L(f.getCellIdsHavingGaussLocalization(k)), [i for i in range(pm.nc) if state[i] == s], 'cells having localization %d after %s' % (k, '; '.join(log)))
    if not used:
        return
    for i in range(pm.nc):
        if state[i] is None:
            d.check(raises(lambda: f.getGaussLocalizationIdOfOneCell(i)), 'localization given for cell %d without any' % i)
        else:
            eq(d, f.getGaussLocalizationIdOfOneCell(i), used.index(state[i]), 'localization of cell %d after %s' % (i, '; '.join(log)))
    for t in {t for t, _ in pm.cells}:
        want = [k for k, s in enumerate(used) if order[s][0] == t]
        eq(d, sorted(f.getGaussLocalizationIdsOfOneType(t)), want, 'localizations of type %s' % NAME[t])
        if len(want) == 1:
            eq(d, f.getGaussLocalizationIdOfOneType(t), want[0], 'localization of type %s' % NAME[t])
        else:
            d.check(raises(lambda: f.getGaussLocalizationIdOfOneType(t)), 'one localization given for type %s having %d' % (NAME[t], len(want)))
    d.check(raises(lambda: f.getGaussLocalization(len(used))), 'localization out of range given')
    if None not in state:
        n = [len(order[s][3]) for s in state]
        eq(d, f.getNumberOfTuplesExpected(), sum(n), 'number of tuples')
        off = [0]
        for x in n:
            off.append(off[-1] + x)
        g = f.clone(False)
        eq(d, g.getNbOfGaussLocalization(), len(used), 'localizations of the clone')
        pts = T(f.getLocalizationOfDiscr())
        eq(d, len(pts), sum(n), 'number of Gauss points')
        if all(x in (TRI3, QUAD4, TETRA4, HEXA8, PENTA6, PYRA5, SEG2, SEG3, TRI6, TETRA10) for x, _ in pm.cells):
            # each cell uses its own localization
            for i, (t, c) in enumerate(pm.cells):
                _, rc, gs, w = order[state[i]]
                nm = [x for x in BYTYPE[t] if [y for p in REFS[x][1] for y in p] == rc][0]
                for k in range(n[i]):
                    p = tuple(gs[k * pm.md:(k + 1) * pm.md])
                    if pyr(t) and p[2] > .95:
                        continue
                    N = ref_shape(nm, p)
                    near(d, list(pts[off[i] + k]), [sum(N[q] * pm.xyz[v][j] for q, v in enumerate(c)) for j in range(pm.sd)], 'Gauss point %d of cell %d' % (k, i), 1e-9, 10.)


@check(n=6000, rule='the cell is not affine')
def inversion(d):
    """coordinates in the reference element of the image of a reference point"""
    name = pick(d, (TETRA4, TETRA10, PENTA6, PENTA15, PENTA18, HEXA8, HEXA20, HEXA27))
    t, _ = REFS[name]
    name = BYTYPE[t][0]
    rc = REFS[name][1]
    D = DIM[t]
    for _ in range(20):
        A = [[d.sint(4) / 2. for _ in range(D)] for _ in range(D)]
        det = np.linalg.det(np.array(A))
        if det > .5 and np.linalg.cond(np.array(A)) < 20:
            break
    else:
        raise Discard()
    z = d.choice([0, .05])
    xyz = [tuple(sum(A[k][j] * q[j] for j in range(D)) + d.uniform(-z, z) for k in range(D)) for q in rc]
    pm = PM(D, D, xyz, [(t, list(range(len(rc))))])
    w = [d.int(1, 4) for _ in rc[:{'TET': 4, 'PEN': 6, 'HEX': 8}[NAME[t][:3]]]]
    p = tuple(sum(a * q[k] for a, q in zip(w, rc)) / sum(w) for k in range(D))
    N = ref_shape(name, p)
    x = [sum(N[k] * xyz[k][j] for k in range(len(rc))) for j in range(D)]
    d.nontrivial(z > 0)
    d.label(NAME[t])
    d.sample('%s %r %r' % (name, p, pm))
    f = CLS['double'](mc.ON_NODES_FE, mc.ONE_TIME)
    f.setMesh(to_mc(pm))
    f.setArray(Dbl([(q[0],) for q in xyz], 1))
    got = T(f.getDiscretization().getCooInRefElement(f.getMesh(), Dbl([x], D)))
    near(d, list(got[0]), list(p), '%s: reference coordinates' % name, 1e-5)
