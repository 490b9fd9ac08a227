"""C32 shape recognition: regular samples of the primitives, arbitrary triangulations, normals and curvatures, linear algebra helpers."""
import ctypes
import numpy as np
from common import *
from ref import *
import gen

ASSUMPTIONS = ['sampling accuracy: closed, evenly staggered samples of at least 24 points per turn with cells of bounded aspect; parameters are compared within the discretisation error',
               'the sign of curvatures, axes and of the radius of cones and tori depends on the orientation of the triangles and is not compared']


def sample(d, kind):
    """points and triangles of a regular sample in the frame of the primitive, and its parameters"""
    nu = d.int(24, 48) if kind != 'plane' else d.int(3, 20)
    par = {}
    if kind == 'plane':
        nv = d.int(3, 20)
        f = lambda u, v: (u, v * d0, 0.)
        d0 = nv / nu * d.uniform(.6, 1.6)
        closed = tor = False
        jit = d.bool()
    else:
        jit = False
        closed, tor = True, kind == 'tor'
        nu = max(nu, 34) if kind == 'sph' else nu
        h = 2 * math.pi / nu
        asp = d.uniform(.7, 1.4)
        if kind == 'cyl':
            R, nv = d.uniform(.5, 2), d.int(6, 30)
            H = nv * h * R * asp
            f = lambda u, v: (R * math.cos(2 * math.pi * u), R * math.sin(2 * math.pi * u), H * v)
            par = dict(R=R)
        elif kind == 'cone':
            ang = d.uniform(.25, .75)
            r0, r1 = 1., d.uniform(2., 3.5)
            length = (r1 - r0) / math.sin(ang)
            nv = max(6, int(round(length / (h * (r0 + r1) / 2 * asp))))
            f = lambda u, v: ((r0 + v * (r1 - r0)) * math.cos(2 * math.pi * u), (r0 + v * (r1 - r0)) * math.sin(2 * math.pi * u), (r0 + v * (r1 - r0)) / math.tan(ang))
            par = dict(ang=ang, L=r1 / math.tan(ang))
        elif kind == 'sph':
            R = d.uniform(.5, 2)
            b0, b1 = -d.uniform(.5, 1.1), d.uniform(.5, 1.1)
            nv = max(6, int(round((b1 - b0) / (h * asp))))
            f = lambda u, v: (R * math.cos(2 * math.pi * u) * math.cos(b0 + v * (b1 - b0)), R * math.sin(2 * math.pi * u) * math.cos(b0 + v * (b1 - b0)), R * math.sin(b0 + v * (b1 - b0)))
            par = dict(R=R)
        else:
            R, r = 1., d.uniform(.25, .5)
            nv = max(12, int(round(2 * math.pi * r / (h * R * asp))))
            nv += nv % 2
            f = lambda u, v: ((R + r * math.cos(2 * math.pi * v)) * math.cos(2 * math.pi * u), (R + r * math.cos(2 * math.pi * v)) * math.sin(2 * math.pi * u), r * math.sin(2 * math.pi * v))
            par = dict(R=R, r=r)
    nu1, nv1 = nu + (not closed), nv + (not tor)
    P = []
    for j in range(nv1):
        for i in range(nu1):
            u, v = (i + (.5 * (j % 2) if closed else 0)) / nu, j / nv
            if jit:
                u, v = u + d.uniform(-.3, .3) / nu, v + d.uniform(-.3, .3) / nv
            P.append(f(u, v))
    tris = []
    for j in range(nv):
        for i in range(nu):
            i2, j2 = (i + 1) % nu1, (j + 1) % nv1
            a, b, c, e = j * nu1 + i, j * nu1 + i2, j2 * nu1 + i2, j2 * nu1 + i
            tris += [[a, b, e], [b, c, e]] if (j % 2 == 0 if closed else d.bool()) else [[a, b, c], [a, c, e]]
    return P, tris, par


def umesh(P, tris):
    m = mc.MEDCouplingUMesh('m', 2)
    m.setCoords(mc.DataArrayDouble([float(x) for p in P for x in p], len(P), 3))
    m.allocateCells(len(tris))
    for t in tris:
        m.insertNextCell(mc.NORM_TRI3, t)
    return m


def shuffled(d, P, tris):
    p = d.perm(len(P))
    Q = [None] * len(P)
    for i, k in enumerate(p):
        Q[k] = P[i]
    T = [[p[x] for x in t] for t in tris]
    T = [T[i] for i in d.perm(len(T))]
    return Q, [t[k:] + t[:k] for t in T for k in (d.below(3),)], p


FIELDS = [('getNodeK1', 1), ('getNodeK2', 1), ('getNodePrimitiveType', 1), ('getNodeNormal', 3), ('getAreaId', 1), ('getAreaPrimitiveType', 1), ('getAreaNormal', 3), ('getMinorRadius', 1), ('getRadius', 1), ('getAngle', 1),
          ('getCenter', 3), ('getAxis', 3), ('getApex', 3)]
PRIM = {'Plane': 0, 'Sphere': 1, 'Cylinder': 2, 'Cone': 3, 'Torus': 4, 'Unknown': 5}


def recognise(d, m):
    """result of the recognition, its own consistency checked; {name: array}, [(type, node ids)]"""
    b = mc.ShapeRecognMeshBuilder(m)
    r = b.recognize()
    a = b.getAreas()
    n = m.getNumberOfNodes()
    F = {}
    for nm, nc in FIELDS:
        f = getattr(r, nm)()
        ar = f.getArray()
        eq(d, (ar.getNumberOfTuples(), ar.getNumberOfComponents(), f.getTypeOfField(), f.getMesh().getNumberOfNodes()), (n, nc, mc.ON_NODES, n), nm)
        F[nm] = ar.toNumPyArray().reshape(n, nc).copy()
    A = [(a.getPrimitiveTypeName(i), sorted(int(x) for x in a.getNodeIds(i))) for i in range(a.getNumberOfAreas())]
    want = [-1] * n
    for i, (t, ids) in enumerate(A):
        eq(d, a.getNumberOfNodes(i), len(ids), 'getNumberOfNodes of an area')
        d.check(len(ids) >= max(5, n // 500), 'area %d keeps %d nodes only out of %d' % (i, len(ids), n))
        for x in ids:
            d.check(want[x] == -1, 'node %d in two areas' % x)
            want[x] = i
        for nm, nc in FIELDS[5:]:
            v = F[nm][ids]
            d.check(bool(((v == v[0]) | (np.isnan(v) & np.isnan(v[0]))).all()), '%s is not constant over area %d' % (nm, i))
        eq(d, int(F['getAreaPrimitiveType'][ids[0], 0]), PRIM[t], 'primitive of area %d' % i)
    eq(d, [int(x) for x in F['getAreaId'][:, 0]], want, 'area ids of the nodes')
    for nm, nc in FIELDS[6:]:
        d.check(bool((F[nm][[i for i in range(n) if want[i] < 0]] == sys.float_info.max).all()), nm + ' outside of areas')
    return F, A, b


def tr(R, s, t, p):
    return [s * sum(R[i][k] * p[k] for k in range(3)) + t[i] for i in range(3)]


@check(n=160, rule='curved primitive, moved and scaled')
def primitives(d):
    """regular sample of a primitive in any position: one area of all the nodes, of the right type, with the right parameters"""
    kind = d.choice(('plane', 'cyl', 'cone', 'sph', 'tor'))
    P, tris, par = sample(d, kind)
    s = 10 ** d.uniform(-3, 3)
    R = gen.rotation3(d)
    t = [s * d.uniform(-5, 5) for _ in range(3)]
    Q, T, p = shuffled(d, [tr(R, s, t, x) for x in P], tris)
    if d.bool():
        T = [x[::-1] for x in T]
    d.nontrivial(kind != 'plane')
    d.label(kind)
    d.sample('%s %d points %s scale %.3g' % (kind, len(P), {k: round(v, 3) for k, v in par.items()}, s))
    F, A, b = recognise(d, umesh(Q, T))
    nm = {'plane': 'Plane', 'cyl': 'Cylinder', 'cone': 'Cone', 'sph': 'Sphere', 'tor': 'Torus'}[kind]
    if kind != 'tor':
        eq(d, [(x, len(y)) for x, y in A], [(nm, len(P))], 'areas of a regular sample of a ' + kind)
    else:                               # the two circles where a curvature vanishes may be told apart
        big = [y for x, y in A if x == nm and len(y) >= .25 * len(P)]
        d.check(sum(len(y) for y in big) >= .6 * len(P), 'torus seen as %s of %d nodes' % ([(x, len(y)) for x, y in A], len(P)))
        d.label('torus in %d parts' % len(big))
        for y in big:
            g = lambda k: [float(x) for x in F[k][y[0]]]
            tol = 1. if len(big) == 1 else 2.
            for got, want, what, e in ((g('getRadius')[0], par['R'], 'major', .03), (abs(g('getMinorRadius')[0]), par['r'], 'minor', .12)):
                d.check(abs(got - s * want) <= e * tol * s * want, '%s radius of the torus %.6g instead of %.6g' % (what, got, s * want))
            c = g('getCenter')
            d.check(norm(sub(c, tr(R, s, t, (0, 0, 0)))) < .02 * tol * s, 'centre of the torus %s' % short(c))
        return
    axis = [R[k][2] for k in range(3)]
    g = lambda k: [float(x) for x in F[k][0]]
    par_ = lambda v, what, tol: d.check(abs(abs(dot(v, axis)) / norm(v) - 1) < tol, '%s %s is not along %s' % (what, short(v), short(axis)))
    rel = lambda got, want, what, tol: d.check(abs(got - want) <= tol * abs(want), '%s %.6g instead of %.6g' % (what, got, want))
    at = lambda got, want, what, tol: d.check(norm(sub(got, want)) <= tol * s, '%s %s instead of %s (scale %g)' % (what, short(got), short(want), s))
    o = tr(R, s, t, (0, 0, 0))
    if kind == 'plane':
        par_(g('getAreaNormal'), 'normal of the plane', 1e-9)
        near(d, [norm(g('getAreaNormal'))], [1.], 'norm of the normal', 1e-9)
        nb = [set() for _ in P]
        for x in T:
            for y in x:
                nb[y] |= set(x)
        ins = [x for x in range(len(P)) if len(nb[x]) > 6] or [0]   # fits with a margin
        k = F['getNodeK1'][ins] * (len(ins) > 1), F['getNodeK2'][ins] * (len(ins) > 1)
        d.check(max(abs(k[0]).max(), abs(k[1]).max()) * s < 1e-4, 'curvature of a plane %g %g scale %g' % (max(abs(k[0]).max(), abs(k[1]).max()), len(P), s))
        ap = b.buildAreaAffinePoint().getArray().toNumPyArray()
        d.check(bool((abs((ap - np.array(o)) @ np.array(axis)) < 1e-9 * s).all()), 'affine point out of the plane')
    elif kind == 'cyl':
        par_(g('getAxis'), 'axis of the cylinder', 1e-4)
        rel(g('getRadius')[0], s * par['R'], 'radius of the cylinder', .02)
        q = [float(x) for x in b.buildAreaAxisPoint().getArray().toNumPyArray()[0]]
        w = sub(q, o)
        d.check(norm(sub(w, mul(axis, dot(w, axis)))) < .02 * s * par['R'], 'axis point out of the axis')
    elif kind == 'cone':
        par_(g('getAxis'), 'axis of the cone', 1e-3)
        rel(g('getAngle')[0], par['ang'], 'angle of the cone', .05)
        at(g('getApex'), o, 'apex of the cone', .2 * par['L'])
    elif kind == 'sph':
        rel(g('getRadius')[0], s * par['R'], 'radius of the sphere', .03)
        at(g('getCenter'), o, 'centre of the sphere', .03 * par['R'])
    if kind in ('cyl', 'sph'):
        # interior nodes see the curvatures of the surface
        near_in = [p[x] for x in range(len(P)) if .2 < (x / len(P)) < .8]
        big = np.maximum(abs(F['getNodeK1']), abs(F['getNodeK2']))[near_in, 0] * s * par['R']
        d.check(bool((abs(big - 1) < .1).all()), 'main curvature %s of a surface of radius 1' % short(sorted(set(round(float(x), 3) for x in big))))


def rough(d):
    """any triangulated surface: jittered, random diagonals, several parts, orphan nodes, flipped triangles"""
    P, T = [], []
    for _ in range(d.int(1, 3)):
        nu, nv, amp = d.int(1, 14), d.int(1, 14), d.choice((0., 1e-6, .05, .4))
        kind, off = d.choice(('plane', 'cyl', 'cone', 'sph', 'tor', 'noise')), len(P)
        for j in range(nv + 1):
            for i in range(nu + 1):
                u, v = (i + amp * d.uniform(-1, 1)) / nu, (j + amp * d.uniform(-1, 1)) / nv
                a = u * 4.
                x = {'plane': lambda: (u, v, 0.), 'cyl': lambda: (math.cos(a), math.sin(a), 3 * v), 'cone': lambda: ((.3 + v) * math.cos(a), (.3 + v) * math.sin(a), 2 * v),
                     'sph': lambda: (math.cos(a) * math.cos(v), math.sin(a) * math.cos(v), math.sin(v)), 'tor': lambda: ((2 + math.cos(6 * v)) * math.cos(a), (2 + math.cos(6 * v)) * math.sin(a), math.sin(6 * v)),
                     'noise': lambda: (u, v, d.uniform(-.2, .2))}[kind]()
                P.append(add(x, (5. * off, 0, 0)))
        for j in range(nv):
            for i in range(nu):
                if d.below(12) == 0:
                    continue
                a = off + j * (nu + 1) + i
                b, c, e = a + 1, a + nu + 2, a + nu + 1
                for t in ([[a, b, c], [a, c, e]] if d.bool() else [[a, b, e], [b, c, e]]):
                    T.append(t)
    if d.bool(.3):
        T = [t[::-1] if d.below(6) == 0 else t for t in T]
    return P, T


@check(n=260, rule='at least one area and one node out of the first area')
def any_surface(d):
    """any triangulation: an answer on all nodes, areas and fields consistent, normals following their definition; other meshes refused"""
    P, T = rough(d)
    s = 10 ** d.uniform(-2, 2)
    R, t = gen.rotation3(d), [s * d.uniform(-3, 3) for _ in range(3)]
    Q = [tr(R, s, t, x) for x in P]
    if not T:
        return
    m = umesh(Q, T)
    ref = m.deepCopy()
    F, A, b = recognise(d, m)
    d.nontrivial(len(A) >= 1 and len(A[0][1]) < len(P))
    d.label('%d areas' % min(len(A), 4))
    d.check(m.isEqual(ref, 0.), 'the mesh was changed')
    N = np.zeros((len(P), 3))
    W = np.zeros(len(P))
    X = np.array(Q)
    for a, b_, c in T:
        v = np.cross(X[b_] - X[a], X[c] - X[a])
        for k in (a, b_, c):
            N[k] += v
            W[k] += np.linalg.norm(v)
    ok = np.linalg.norm(N, axis=1) > 1e-6 * np.maximum(W, 1e-300)
    got = F['getNodeNormal'][ok]
    want = N[ok] / np.linalg.norm(N[ok], axis=1)[:, None]
    d.check(bool((abs(got - want) < 1e-6).all()), 'node normals are not those of the surrounding triangles')
    if ok.all():
        for x in ('NodeWeakDirections', 'NodeMainDirections'):
            v = getattr(b, 'build' + x)().getArray().toNumPyArray()
            fin = np.isfinite(v).all(axis=1)
            d.check(bool((abs((v * F['getNodeNormal']).sum(1))[fin] < 1e-6).all()), x + ' out of the tangent plane')
    k = d.below(4)
    if k == 0:
        bad = umesh(Q, T)
        bad.insertNextCell(mc.NORM_QUAD4, [0, 1, 2, 3])
        d.check(raises(lambda: mc.ShapeRecognMeshBuilder(bad)), 'a mesh with a quadrangle was accepted')
    elif k == 1:
        bad = m.buildDescendingConnectivity()[0]
        d.check(raises(lambda: mc.ShapeRecognMeshBuilder(bad)), 'a mesh of segments was accepted')


@check(n=200, rule='moved, scaled and turned over')
def invariance(d):
    """normals turn with the mesh, curvatures scale as 1 / length and change sign with the orientation"""
    P, T = rough(d)
    d.assume(bool(T))
    m = umesh(P, T)
    s = 2. ** d.int(-6, 6)
    R, t = gen.rotation3(d), [d.uniform(-1, 1) for _ in range(3)]
    flip = d.bool()
    d.nontrivial(flip)
    used = sorted(set(x for c in T for x in c))
    F, A, b = recognise(d, m)
    m2 = umesh([tr(R, s, t, x) for x in P], [[c[0], c[2], c[1]] for c in T] if flip else T)
    G, B, b2 = recognise(d, m2)
    N0, N1 = F['getNodeNormal'][used], G['getNodeNormal'][used]
    ok = np.isfinite(N0).all(1) & np.isfinite(N1).all(1)
    X = np.array(P)
    S, W = np.zeros((len(P), 3)), np.zeros(len(P))
    for a, b_, c in T:
        v = np.cross(X[b_] - X[a], X[c] - X[a])
        for k in (a, b_, c):
            S[k] += v
            W[k] += np.linalg.norm(v)
    solid = np.linalg.norm(S, axis=1) > 1e-3 * W
    ok &= solid[used]
    sg = -1. if flip else 1.
    d.check(bool((abs(sg * N1 - N0 @ np.array(R).T)[ok] < 1e-6).all()), 'normals do not follow the move')
    # curvatures, where the fit is well conditioned: at least five neighbours, with sound normals, and a clear greatest curvature
    nb = [set() for _ in P]
    for c in T:
        for x in c:
            nb[x] |= set(c) - {x}
    K0 = np.hstack([F['getNodeK1'], F['getNodeK2']])
    K1 = np.hstack([G['getNodeK1'], G['getNodeK2']]) * s
    cmpd = 0
    for x in used:
        if len(nb[x]) < 5 or not all(solid[y] for y in nb[x] | {x}):
            continue
        n = F['getNodeNormal'][x]
        tg = [X[y] - X[x] for y in nb[x]]
        tg = [v - n * (v @ n) for v in tg]
        if min(np.linalg.norm(v) for v in tg) < 1e-3:
            continue
        tg = [v / np.linalg.norm(v) for v in tg]
        u = np.array(unit3(n))
        w = np.cross(n, u)
        M = np.array([[(v @ u) ** 2, (v @ u) * (v @ w), (v @ w) ** 2] for v in tg])
        if np.linalg.cond(M) > 50:
            continue
        nv = lambda H, P_, y: ((P_[y] - P_[x]) @ (H[y] - H[x])) / ((P_[y] - P_[x]) @ (P_[y] - P_[x]))
        kap = np.array([nv(F['getNodeNormal'], X, y) for y in nb[x]])
        a, b_, c = np.linalg.lstsq(M, kap, rcond=None)[0]
        h, q = (a + c) / 2, math.sqrt(((a - c) / 2) ** 2 + (b_ / 2) ** 2)
        sc = max(abs(kap).max(), abs(h) + q, 1e-3 / min(np.linalg.norm(X[y] - X[x]) for y in nb[x]))
        cmpd += 1
        d.check(abs(K0[x][0] - (h + q)) < 1e-5 * sc and abs(K0[x][1] - (h - q)) < 1e-5 * sc, 'curvatures %s instead of %s' % (short([float(v) for v in K0[x]]), short((h + q, h - q))))
        w2 = (h + q, h - q) if not flip else (q - h, -q - h)
        d.check(abs(K1[x][0] - w2[0]) < 1e-5 * sc and abs(K1[x][1] - w2[1]) < 1e-5 * sc, 'curvatures %s after the move instead of %s' % (short([float(v) for v in K1[x]]), short(w2)))
    d.label('curvatures compared' if cmpd else 'none compared')


def unit3(n):
    v = np.eye(3)[int(np.argmin(abs(n)))]
    v = v - n * (v @ n)
    return v / np.linalg.norm(v)


_lib = None


def lib():
    global _lib
    if _lib is None:
        try:
            _lib = ctypes.CDLL('libsrshim.so')
            _lib.c_mathops.restype = ctypes.c_long
        except OSError:
            _lib = False
    return _lib


def call(op, x, y=(0., 0., 0.), q=0.):
    x, y, out = np.ascontiguousarray(x, dtype=float).ravel(), np.ascontiguousarray(y, dtype=float), np.zeros(max(16, np.size(x) + 16))
    P = lambda a: a.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
    n = lib().c_mathops(op, P(x), ctypes.c_long(x.size), P(y), ctypes.c_double(q), P(out))
    return out[:n]


@check(n=8000, rule='more than one vector or a special position')
def mathops(d):
    """linear algebra helpers against their defining equations"""
    d.assume(lib())
    n = d.size(8, 1)
    s = 2. ** d.int(-10, 10)
    vec = lambda: np.array([s * d.sint(64) / 8 for _ in range(3)])
    X = np.array([vec() for _ in range(n)])
    y = vec()
    nz = np.linalg.norm(X[0]) > 0 and np.linalg.norm(y) > 0
    op = d.choice(('cross', 'norm', 'dot', 'mean', 'cov', 'pca', 'quantile', 'angle', 'oriented', 'var', 'base', 'lstsq'))
    d.nontrivial(n > 1)
    d.label(op)
    cl = lambda got, want, what, sc=1., eps=1e-11: near(d, [float(v) for v in np.ravel(got)], [float(v) for v in np.ravel(want)], what, eps, sc)
    if op == 'cross':
        cl(call(0, X[0], y), np.cross(X[0], y), 'cross', s * s * 64)
    elif op == 'norm':
        cl(call(2, X[0]), np.linalg.norm(X[0]), 'computeNorm', s * 8)
        cl(call(3, X), np.linalg.norm(X, axis=1), 'computeNorm of vectors', s * 8)
        if nz:
            cl(call(1, X[0]), X[0] / np.linalg.norm(X[0]), 'normalize')
    elif op == 'dot':
        cl(call(4, X[0], y), X[0] @ y, 'dot', s * s * 64)
        cl(call(5, X, y), X @ y, 'dot of vectors', s * s * 64)
    elif op == 'mean':
        cl(call(6, X), X.mean(), 'mean', s * 8)
        cl(call(7, X), X.mean(0), 'meanCoordinates', s * 8)
    elif op in ('cov', 'pca'):
        d.assume(n > 1)
        C = np.cov(X.T)
        cl(call(8, X), C, 'computeCov', s * s * 64)
        V = call(9, X).reshape(3, 3)
        cl(V @ V.T, np.eye(3), 'computePCA is not orthonormal', 1., 1e-10)
        ev = np.array([v @ C @ v for v in V])
        cl(C @ V.T, V.T * ev, 'computePCA: eigenvectors', s * s * 64, 1e-10)
        d.check(bool((np.diff(ev) >= -1e-9 * s * s * 64).all()), 'computePCA: order of the eigenvalues')
        cl(call(10, X), V[2], 'computePCAFirstAxis')
        cl(call(11, X), V[0], 'computePCAThirdAxis')
    elif op == 'quantile':
        q = d.choice((0., 1., .5, .1, .9, d.uniform(0, 1)))
        cl(call(12, X, q=q), np.quantile(X.ravel(), q), 'computeQuantile(%g)' % q, s * 8, 1e-10)
    elif op in ('angle', 'oriented'):
        d.assume(nz)
        w = X[0]
        if d.bool(.4):
            y = w * d.choice((1., -1., 2., -.5, -3.))           # parallel or opposite
            d.nontrivial(True)
        want = math.atan2(np.linalg.norm(np.cross(w, y)), w @ y)
        if op == 'angle':
            cl(call(13, w, y), want, 'computeAngle', 1., 1e-7)
            nn = [v for v in X if np.linalg.norm(v) > 0]
            cl(call(14, nn, y), [math.atan2(np.linalg.norm(np.cross(v, y)), v @ y) for v in nn], 'computeAngles', 1., 1e-7)
        else:
            nrm = vec()
            side = np.cross(w, y) @ nrm
            d.assume(side == 0 and np.linalg.norm(np.cross(w, y)) == 0 or abs(side) > 1e-9 * s ** 3)
            cl(call(15, np.array([w, y]), nrm), want if side >= 0 else -want, 'computeOrientedAngle', 1., 1e-7)
    elif op == 'var':
        cl(call(16, X), X.var(), 'computeVariance', s * s * 64, 1e-10)
    elif op == 'base':
        d.assume(np.linalg.norm(y) > 0)
        B = call(17, [0., 0, 0], y).reshape(2, 3)
        u = y / np.linalg.norm(y)
        M = np.vstack([B, u])
        cl(M @ M.T, np.eye(3), 'computeBaseFromNormal: orthonormal basis of the plane', 1., 1e-10)
    else:
        m = d.int(1, 8)
        M = np.array([[d.sint(16) / 2 for _ in range(3)] for _ in range(m)])
        if d.bool(.3) and m > 1:
            M[:, 2] = M[:, 0]                                   # deficient rank: least norm solution
        b = np.array([d.sint(32) / 2 for _ in range(m)])
        sv = np.linalg.svd(M, compute_uv=False)
        d.assume(not any(1e-9 < v / max(sv[0], 1e-300) < 1e-3 for v in sv))
        want = np.linalg.lstsq(M, b, rcond=None)[0]
        sc = max(1., abs(want).max())
        cl(call(18, np.concatenate([M.T.ravel(), b])), want, 'lstsq', sc, 1e-8)
        cl(call(19, np.concatenate([M.ravel(), b])), want, 'lstsqRow', sc, 1e-8)
