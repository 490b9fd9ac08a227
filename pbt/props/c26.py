"""C26 node-based interpolation: dual cells and barycentric weights by exact clipping, point location by exhaustive geometry, affine reproduction."""
from common import *
from ref import *
import gen
from interp import *

ASSUMPTIONS = ['target points closer than 1e-6 to the border of a source cell are not compared entry by entry (either side is right), only the affine reproduction is']


def ok_affine(pm):
    return all(t in (TRI3, TETRA4, SEG2) for t, c in pm.cells)


def aff(d, sd):
    c = [d.sint(16) / 4 for _ in range(sd + 1)]
    return (lambda p: c[0] + sum(a * b for a, b in zip(c[1:], p))), c


def nodal(m, fn, on=mc.ON_NODES, locs=None):
    f = mc.MEDCouplingFieldDouble(on, mc.ONE_TIME)
    f.setMesh(m)
    f.setTime(0., 0, 0)
    pts = T(m.getCoords()) if locs is None else locs
    f.setArray(mc.DataArrayDouble([fn(p) for p in pts]))
    f.setNature(mc.IntensiveMaximum)
    return f


def add_to(out, i, j, v):
    if v:
        out[i, j] = out.get((i, j), 0.) + v


def cmp(d, M, want, tol, what):
    for i, r in enumerate(M):
        for j, v in r.items():
            if abs(v - want.get((i, j), 0.)) > tol:
                d.fail('%s: entry (target %d, source %d) is %r, expected %r' % (what, i, j, v, want.get((i, j), 0.)))
    for (i, j), v in want.items():
        if abs(v) > tol and j not in M[i]:
            d.fail('%s: entry (target %d, source %d) missing, expected %r' % (what, i, j, v))


# ---------------------------------------------------------------- pieces: dual cells
def ccw(p):
    return p if poly_area2d(p) > 0 else p[::-1]


def dual2(p, i):
    """region of the triangle p attached to its node i (between the medians)"""
    a, b, c = p[i], p[(i + 1) % 3], p[(i + 2) % 3]
    return ccw([a, mul(add(a, b), .5), mul(add(add(a, b), c), 1 / 3.), mul(add(a, c), .5)])


def pieces2(pm, nodal):
    """[(entity, convex polygon)]"""
    out = []
    for k, (t, c) in enumerate(pm.cells):
        p = [pm.xyz[v] for v in c]
        if nodal:
            out += [(c[i], dual2(p, i)) for i in range(3)]
        else:
            out.append((k, p))
    return out


def dual3(p, i):
    """region of the tetrahedron p attached to its node i: halfspaces lambda_i >= lambda_j"""
    fs = solid_faces(TETRA4, [0, 1, 2, 3], p)
    for j in range(4):
        if j != i:      # plane through the edge opposite to (i, j) and the middle of (i, j)
            k, l = [x for x in range(4) if x not in (i, j)]
            m = mul(add(p[i], p[j]), .5)
            n = cross(sub(p[k], m), sub(p[l], m))
            if dot(n, sub(p[j], m)) < 0:
                n = mul(n, -1)
            fs = clip_solid(fs, n, dot(n, m))
    return [f if dot(poly_normal3d(f), sub(f[0], centroid_pts([q for g in fs for q in g]))) > 0 else f[::-1] for f in fs]


def pieces3(pm, nodal):
    out = []
    for k, (t, c) in enumerate(pm.cells):
        if nodal:
            p = [pm.xyz[v] for v in c]
            out += [(c[i], dual3(p, i)) for i in range(4)]
        else:
            out.append((k, solid_faces(t, c, pm.xyz)))
    return out


def boxed(pieces, dim):
    return [(e, p, bbox(p if dim == 2 else [q for f in p for q in f])) for e, p in pieces]


def apart(a, b):
    return any(x[0] > y[1] or y[0] > x[1] for x, y in zip(a, b))


def overlap(P, Q, dim):
    out = {}
    P, Q = boxed(P, dim), boxed(Q, dim)
    for i, p, a in P:
        for j, q, b in Q:
            if not apart(a, b):
                add_to(out, i, j, convex_inter2d(p, q)[0] if dim == 2 else convex_inter3d(p, q))
    return out


def tri_mesh(d, n=2):
    return gen.mesh2d(d, d.int(1, n), ('tri', 'center'), uniform_kind=1)


def nodal_ok(pm, T0):
    return all(t == T0 for t, c in pm.cells)


@check(n=6000, rule='at least four non-null entries')
def dual2d(d):
    """2D and planar surfaces, P0P1 / P1P0 / P1P1: areas of intersection with the dual cells"""
    meth = d.choice(['P0P1', 'P1P0', 'P1P1'])
    it = d.choice(['Triangulation', 'Geometric2D'])
    mk = lambda nod: tri_mesh(d) if nod else gen.mesh2d(d, d.int(1, 2), ('quad', 'tri', 'poly', 'center'))
    s, t = mk(meth[:2] == 'P1'), mk(meth[2:] == 'P1')
    for pm, m in ((s, meth[:2]), (t, meth[2:])):
        if m == 'P1' and not nodal_ok(pm, TRI3):
            raise Discard()
    t = PM(2, 2, place(d, t, bbox(s.xyz)), t.cells)
    if d.bool(.3):
        s, t = gen.shuffle(d, s), gen.shuffle(d, t)
    if not all(is_convex2d([pm.xyz[v] for v in c]) for pm in (s, t) for k, c in pm.cells):
        raise Discard()
    w = overlap(pieces2(t, meth[2:] == 'P1'), pieces2(s, meth[:2] == 'P1'), 2)
    d.nontrivial(len(w) >= 4)
    d.label(meth + it)
    d.sample(('%s %s %r -> %r' % (meth, it, s, t))[:700])
    ms, mt = to_mc(s), to_mc(t)
    if d.bool(.25):
        R, o = gen.rotation3(d), tuple(d.sint(8) / 4 for _ in range(3))
        up = lambda pm: to_mc(PM(3, 2, [gen.apply3(R, o, (x, y, 0.)) for x, y in pm.xyz], pm.cells))
        ms, mt = up(s), up(t)
        d.label('surface')
    r = remap(d, ms, mt, meth, itype=it)
    cmp(d, r.getCrudeMatrix(), w, 1e-8, meth + ' ' + it)
    eq(d, r.getNumberOfColsOfMatrix(), s.nn if meth[:2] == 'P1' else s.nc, 'number of columns')
    eq(d, len(r.getCrudeMatrix()), t.nn if meth[2:] == 'P1' else t.nc, 'number of rows')


def generic(d, t):
    """rotated and shifted so that nothing is aligned any more"""
    a = d.uniform(.2, 1.1)
    o = tuple(x + d.uniform(-.1, .1) for x in (.1137, .0871, .1313))
    R = [[math.cos(a), -math.sin(a), 0.], [math.sin(a), math.cos(a), 0.], [0., 0., 1.]]
    S = [[1., 0., 0.], [0., math.cos(.5137), -math.sin(.5137)], [0., math.sin(.5137), math.cos(.5137)]]
    return PM(3, 3, [gen.apply3(R, o, gen.apply3(S, (0., 0., 0.), p)) for p in t.xyz], t.cells)


def demo_coincident():
    """two tetrahedra sharing a vertex, dual cells with coincident planes: wrong volumes"""
    s = PM(3, 3, [(0., 0., 0.), (1., 0., -.25), (-.75, 1., -.75), (.75, -.25, 1.5)], [(TETRA4, [0, 2, 1, 3])])
    t = PM(3, 3, [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)], [(TETRA4, [0, 2, 1, 3])])
    r = mc.MEDCouplingRemapper()
    r.prepare(to_mc(s), to_mc(t), 'P1P1')
    w = overlap(pieces3(t, True), pieces3(s, True), 3)
    return abs(r.getCrudeMatrix()[2].get(2, 0.) - w.get((2, 2), 0.)) > 1e-6


@check(n=1200, rule='at least four non-null entries')
def dual3d(d):
    """3D, tetrahedra on the nodal sides"""
    meth = d.choice(['P0P1', 'P1P0', 'P1P1'])

    def mk(nod):
        if nod:
            k = d.below(3)
            if k:
                c = [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (1., 1., 1.)]
                A = gen.rand_affine3(d)
                return PM(3, 3, [tuple(dot(r, p) for r in A) for p in c], [(TETRA4, [0, 2, 1, 3])] + ([(TETRA4, [1, 2, 3, 4])] if k == 2 and not d.bool(.2) else []))
            return gen.mesh3d(d, 1, kinds=('tets',), kinds2=('quad', 'tri'), zmax=1)
        return gen.mesh3d(d, 1, kinds2=('quad', 'tri', 'poly'), zmax=2)
    s, t = mk(meth[:2] == 'P1'), mk(meth[2:] == 'P1')
    for pm, m in ((s, meth[:2]), (t, meth[2:])):
        if m == 'P1' and not nodal_ok(pm, TETRA4):
            raise Discard()
        if any(cell_measure_centroid(3, k, c, pm.xyz)[0] <= 1e-5 for k, c in pm.cells):
            c2 = []
            raise Discard()
    t = PM(3, 3, place(d, t, bbox(s.xyz)), t.cells)
    t = generic(d, t)       # see the known finding demo_coincident
    if len(s.cells) * len(t.cells) > 60:
        raise Discard()
    w = overlap(pieces3(t, meth[2:] == 'P1'), pieces3(s, meth[:2] == 'P1'), 3)
    d.nontrivial(len(w) >= 4)
    d.label(meth)
    d.sample(('%s %r -> %r' % (meth, s, t))[:700])
    r = remap(d, to_mc(s), to_mc(t), meth)
    cmp(d, r.getCrudeMatrix(), w, 1e-7, meth)


def dual1(pm, nod):
    out = []
    for k, (t, c) in enumerate(pm.cells):
        a, b = pm.xyz[c[0]][0], pm.xyz[c[1]][0]
        m = (a + b) / 2
        out += [(c[0], a, m), (c[1], m, b)] if nod else [(k, a, b)]
    return out


@check(n=3000, rule='at least two non-null entries')
def dual1d(d):
    """segments in 1D, all the methods and PointLocator P1P1"""
    meth = d.choice(['P0P1', 'P1P0', 'P1P1'])
    s, t = gen.seg_mesh(d, 1, 7), gen.seg_mesh(d, 1, 7)
    t = PM(1, 1, place(d, t, bbox(s.xyz)), t.cells)
    d.sample(('%s %r -> %r' % (meth, s, t))[:500])
    w = {}
    for i, a, b in dual1(t, meth[2:] == 'P1'):
        for j, c, e in dual1(s, meth[:2] == 'P1'):
            add_to(w, i, j, max(0., min(max(a, b), max(c, e)) - max(min(a, b), min(c, e))))
    d.nontrivial(len(w) >= 2)
    d.label(meth)
    cmp(d, remap(d, to_mc(s), to_mc(t), meth).getCrudeMatrix(), w, 1e-8, meth + ' 1D')
    # point locator
    r = remap(d, to_mc(s), to_mc(t), 'P1P1', itype='PointLocator')
    f, co = aff(d, 1)
    g = L(r.transferField(nodal(to_mc(s), f), 1e300).getArray())
    segs = [sorted((s.xyz[c[0]][0], s.xyz[c[1]][0])) for k, c in s.cells]
    for v in {v for k, c in t.cells for v in c}:
        x = t.xyz[v][0]
        if any(a - 1e-13 <= x <= b + 1e-13 for a, b in segs):
            if abs(g[v] - f((x,))) > 1e-7 * 100:
                d.fail('PointLocator P1P1 1D: affine field at %r is %r, expected %r' % (x, g[v], f((x,))))
        elif all(x < a - 1e-6 or x > b + 1e-6 for a, b in segs):
            eq(d, g[v], 1e300, 'PointLocator P1P1 1D: target out of the source')


@check(n=4000, rule='at least three non-null entries')
def bary2d(d):
    """Barycentric P1P0 and P0P1: integrals of the shape functions over the intersections"""
    rev = d.bool()
    it = d.choice(['Barycentric', 'BarycentricGeo2D'])
    s = tri_mesh(d)
    t = gen.mesh2d(d, d.int(1, 2), ('quad', 'tri', 'poly', 'center'))
    if not nodal_ok(s, TRI3) or not all(is_convex2d([t.xyz[v] for v in c]) for k, c in t.cells):
        raise Discard()
    t = PM(2, 2, place(d, t, bbox(s.xyz)), t.cells)
    w = {}
    for i, (k, c) in enumerate(t.cells):
        p = [t.xyz[v] for v in c]
        for k2, c2 in s.cells:
            q = [s.xyz[v] for v in c2]
            a, poly = convex_inter2d(p, q)
            if a > 1e-13:
                g = poly_centroid2d(poly)
                A = poly_area2d(q)
                for n in range(3):
                    lam = poly_area2d([g, q[(n + 1) % 3], q[(n + 2) % 3]]) / A
                    add_to(w, i, c2[n], a * lam)
    d.nontrivial(len(w) >= 3)
    d.label('%s %d' % (it, rev))
    d.sample(('%s %s %r -> %r' % (it, rev, s, t))[:700])
    ms, mt = to_mc(s), to_mc(t)
    if not rev:
        r = remap(d, ms, mt, 'P1P0', itype=it)
        cmp(d, r.getCrudeMatrix(), w, 1e-8, 'P1P0 ' + it)
        f, _ = aff(d, 2)
        g = L(r.transferField(nodal(ms, f), 1e300).getArray())
        S = [[s.xyz[v] for v in c] for k, c in s.cells]
        for i, (k, c) in enumerate(t.cells):        # covered cells: value of the affine field at the barycentre
            p = [t.xyz[v] for v in c]
            a = sum(v for (x, j), v in w.items() if x == i)
            if abs(a - abs(poly_area2d(p))) < 1e-12:
                e = f(poly_centroid2d(p))
                if abs(e - g[i]) > 1e-6 * 50:
                    d.fail('P1P0 %s: affine field on the covered cell %d is %r, expected %r' % (it, i, g[i], e))
    else:
        r = remap(d, mt, ms, 'P0P1', itype=it)
        cmp(d, transposed(r.getCrudeMatrix(), t.nc), w, 1e-8, 'P0P1 ' + it)


@check(n=3000, rule='at least three non-null entries')
def bary3d(d):
    """Barycentric P1P0 in 3D"""
    A = gen.rand_affine3(d)
    c = [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (1., 1., 1.)]
    s = PM(3, 3, [tuple(dot(r, p) for r in A) for p in c], [(TETRA4, [0, 2, 1, 3])] + ([(TETRA4, [1, 2, 3, 4])] if d.bool() else []))
    t = gen.mesh3d(d, 1, kinds2=('quad', 'tri', 'poly'), zmax=2)
    if any(cell_measure_centroid(3, k, c, pm.xyz)[0] <= 1e-5 for pm in (s, t) for k, c in pm.cells):
        raise Discard()
    t = PM(3, 3, place(d, t, bbox(s.xyz)), t.cells)
    if d.bool(.7):
        t = generic(d, t)
    w = {}
    for i, (k, c) in enumerate(t.cells):
        fs = solid_faces(k, c, t.xyz)
        for k2, c2 in s.cells:
            q = [s.xyz[v] for v in c2]
            cur = fs
            for f in solid_faces(k2, c2, s.xyz):
                n = poly_normal3d(f)
                cur = clip_solid(cur, n, dot(n, f[0]))
                if len(cur) < 4:
                    break
            if len(cur) >= 4:
                ctr = centroid_pts([x for f in cur for x in f])
                cur = [f if dot(poly_normal3d(f), sub(f[0], ctr)) > 0 else f[::-1] for f in cur]
                V, g = solid_volume_centroid(cur)
                if V > 1e-12:
                    for n, lam in enumerate(bary4(q, g)):
                        add_to(w, i, c2[n], V * lam)
    d.nontrivial(len(w) >= 3)
    d.sample(('%r -> %r' % (s, t))[:700])
    r = remap(d, to_mc(s), to_mc(t), 'P1P0', itype='Barycentric')
    M = r.getCrudeMatrix()
    for i, row in enumerate(M):
        if abs(sum(row.values()) - sum(v for (a, j), v in w.items() if a == i)) > 1e-7:
            d.fail('P1P0 Barycentric 3D: row %d %r sums to %r, volume %r' % (i, row, sum(row.values()), sum(v for (a, j), v in w.items() if a == i)))
        # the barycentre of the intersection is approximate in 3D (middles of its faces, pinned by the unit tests)
        V = sum(row.values())
        for j in set(row) | {j for (a, j) in w if a == i}:
            if abs(row.get(j, 0.) - w.get((i, j), 0.)) > .35 * V + 1e-9:
                d.fail('P1P0 Barycentric 3D: entry (target %d, source %d) is %r, expected about %r' % (i, j, row.get(j, 0.), w.get((i, j), 0.)))


def bary4(q, p):
    V = dot(sub(q[1], q[0]), cross(sub(q[2], q[0]), sub(q[3], q[0])))
    out = []
    for n in range(4):
        z = list(q)
        z[n] = p
        out.append(dot(sub(z[1], z[0]), cross(sub(z[2], z[0]), sub(z[3], z[0]))) / V)
    return out


def bary3(q, p):
    A = poly_area2d(q)
    return [poly_area2d([p, q[(n + 1) % 3], q[(n + 2) % 3]]) / A for n in range(3)]


def locate(pm, p):
    """(cells strictly containing p, some border within 1e-6 of p)"""
    ins, near_ = [], False
    for i, (t, c) in enumerate(pm.cells):
        if pm.sd == 2:
            a, dm = pt_in_poly2d(p, [pm.xyz[v] for v in c])
            if dm < 1e-6:
                near_ = True
        else:
            a, dm = pt_in_solid(p, solid_faces(t, c, pm.xyz))
            if dm < 1e-6:
                near_ = True
        if a:
            ins.append(i)
    return ins, near_


@check(n=5000, rule='at least two targets strictly in a source cell')
def points(d):
    """PointLocator in 2D and 3D: the source cell containing the target point, barycentric weights"""
    dim = d.choice([2, 2, 3])
    meth = d.choice(['P0P0', 'P0P1', 'P1P0', 'P1P1'])
    it = 'PointLocator'
    if meth == 'P1P1' and dim == 3 and d.bool():
        it = 'Barycentric'
    if dim == 2:
        s = tri_mesh(d, 3) if meth[:2] == 'P1' else gen.mesh2d(d, d.int(1, 3), ('quad', 'tri', 'poly', 'center'))
        t = gen.mesh2d(d, d.int(1, 3), ('quad', 'tri', 'poly', 'center'))
        T0 = TRI3
    else:
        s = gen.mesh3d(d, 1, kinds=('tets',), kinds2=('quad', 'tri'), zmax=2) if meth[:2] == 'P1' else gen.mesh3d(d, 1, kinds2=('quad', 'tri', 'poly'), zmax=2)
        t = gen.mesh3d(d, 1, kinds2=('quad', 'tri'), kinds=('asis', 'pyra', 'tets'), zmax=2)
        T0 = TETRA4
    if meth[:2] == 'P1' and not nodal_ok(s, T0):
        raise Discard()
    if dim == 3 and any(cell_measure_centroid(3, k, c, pm.xyz)[0] <= 1e-5 for pm in (s, t) for k, c in pm.cells):
        raise Discard()
    if dim == 2 and not all(is_convex2d([pm.xyz[v] for v in c]) for pm in (s, t) for k, c in pm.cells):
        raise Discard()
    t = PM(dim, dim, place(d, t, bbox(s.xyz)), t.cells)
    if d.bool(.3):
        s, t = gen.shuffle(d, s), gen.shuffle(d, t)
    d.label('%s %dD %s' % (meth, dim, it))
    d.sample(('%s %s %r -> %r' % (meth, it, s, t))[:700])
    ms, mt = to_mc(s), to_mc(t)
    r = remap(d, ms, mt, meth, itype=it)
    M = r.getCrudeMatrix()
    if meth[2:] == 'P1':
        pts = {v: t.xyz[v] for k, c in t.cells for v in cell_nodes(k, c)}
    elif dim == 2 and meth == 'P0P0':
        pts = {i: poly_centroid2d([t.xyz[v] for v in c]) for i, (k, c) in enumerate(t.cells)}
    else:
        pts = {i: centroid_pts([t.xyz[v] for v in cell_nodes(k, c)]) for i, (k, c) in enumerate(t.cells)}
    nloc = 0
    f, _ = aff(d, dim)
    if meth[:2] == 'P1':
        g = L(r.transferField(nodal(ms, f), 1e300).getArray())
    for i, p in pts.items():
        ins, border = locate(s, p)
        if meth[:2] == 'P1' and (ins or M[i]):
            if abs(g[i] - f(p)) > 1e-6 * 50 and (len(ins) == 1 and not border or g[i] != 1e300):
                d.fail('%s %s: affine field at %r is %r, expected %r' % (meth, it, p, g[i], f(p)))
        if border:
            continue
        if not ins:
            if M[i]:
                d.fail('%s: target %d out of the source has the row %r' % (meth, i, M[i]))
            continue
        nloc += 1
        if meth[:2] == 'P0':
            if set(M[i]) != set(ins):
                d.fail('%s: target %d is in the source cells %r, row %r' % (meth, i, ins, M[i]))
            if any(v != 1. for v in M[i].values()):
                d.fail('%s: row %r of a located target' % (meth, M[i]))
        else:
            c = s.cells[ins[0]][1]
            q = [s.xyz[v] for v in c]
            lam = dict(zip(c, bary3(q, p) if dim == 2 else bary4(q, p)))
            tot = sum(M[i].values())
            for j in set(lam) | set(M[i]):
                if abs(M[i].get(j, 0.) / tot - lam.get(j, 0.)) > 1e-7:
                    d.fail('%s %s: weights %r of target %d, expected %r' % (meth, it, M[i], i, lam))
    d.nontrivial(nloc >= 2)


@check(n=3000, rule='at least one target at less than 1e-3 of a border')
def points_near(d):
    """PointLocator, targets at 2^-10 .. 2^-26 of the edges, faces and nodes of the source cells: no weight may be lost"""
    dim = d.choice([2, 2, 3])
    meth = d.choice(['P1P0', 'P1P1', 'P0P0', 'P0P1'])
    if dim == 2:
        s = tri_mesh(d, 2)
        T0 = TRI3
    else:
        s = gen.mesh3d(d, 1, kinds=('tets',), kinds2=('quad', 'tri'), zmax=1)
        T0 = TETRA4
    if not nodal_ok(s, T0) or any(abs(poly_area2d([s.xyz[v] for v in c])) < 1e-3 if dim == 2 else cell_measure_centroid(3, k, c, s.xyz)[0] <= 1e-4 for k, c in s.cells):
        raise Discard()
    xyz, cells, pts, own = [], [], [], []
    for _ in range(d.int(1, 4)):
        i = d.below(len(s.cells))
        q = [s.xyz[v] for v in s.cells[i][1]]
        w = [d.weighted([(2, 2. ** -d.int(10, 26)), (1, d.int(1, 7) / 8.)]) for _ in q]
        k = d.below(len(q))
        w[k] = 1. - (sum(w) - w[k])
        if w[k] < .01:
            raise Discard()
        p = tuple(sum(a * x[b] for a, x in zip(w, q)) for b in range(dim))
        if meth[2:] == 'P0':
            v = [tuple(d.sint(8) / 16. for _ in range(dim)) for _ in range(dim)]
            D = v[0][0] * v[1][1] - v[0][1] * v[1][0] if dim == 2 else dot(v[0], cross(v[1], v[2]))
            if abs(D) < .01:
                raise Discard()
            v.append(tuple(-sum(x[b] for x in v) for b in range(dim)))
        else:
            v = [(0.,) * dim] + [tuple((.25 if a == b else 0.) for b in range(dim)) for a in range(dim)]
        n = len(xyz)
        xyz += [add(p, x) for x in v]
        cells.append((T0, list(range(n, n + dim + 1))))
        pts.append(p)
        own.append(i)
    if dim == 3 and meth[2:] == 'P0':
        for t, c in cells:
            if cell_measure_centroid(3, t, c, xyz)[0] < 0:
                c[0], c[1] = c[1], c[0]
    t = PM(dim, dim, xyz, cells)
    d.label('%s %dD' % (meth, dim))
    d.sample(('%s %r -> %r' % (meth, s, t))[:700])
    ms, mt = to_mc(s), to_mc(t)
    r = remap(d, ms, mt, meth, itype='PointLocator')
    M = r.getCrudeMatrix()
    f, co = aff(d, dim)
    near_ = False
    if meth[:2] == 'P1':
        g = L(r.transferField(nodal(ms, f), 1e300).getArray())
    for k, (p, i) in enumerate(zip(pts, own)):
        row = k if meth[2:] == 'P0' else k * (dim + 1)
        q = [s.xyz[v] for v in s.cells[i][1]]
        lam = bary3(q, p) if dim == 2 else bary4(q, p)
        near_ = near_ or any(abs(x) < 1e-3 for x in lam)
        if not M[row]:
            d.fail('%s: target at %r in the source cell %d is not found' % (meth, p, i))
        if meth[:2] == 'P0':
            if i not in M[row]:
                d.fail('%s: target at %r of the source cell %d has the row %r' % (meth, p, i, M[row]))
        elif abs(g[row] - f(p)) > 1e-9 * 50 * (1. + max(abs(x) for x in co)):
            d.fail('%s: affine field at %r is %r, expected %r (row %r, barycentric coordinates %r)' % (meth, p, g[row], f(p), M[row], lam))
    d.nontrivial(near_)


@check(n=2500, rule='at least two targets covered by the source')
def mapped(d):
    """MappedBarycentric P1P1 on QUAD4 (2D) and HEXA8 (3D, parallelepipeds and prisms over quadrangles): affine reproduction, partition of unity"""
    dim = d.choice([2, 2, 3])
    if dim == 2:
        s = gen.mesh2d(d, d.int(1, 3), ('quad',))
        t = gen.mesh2d(d, d.int(1, 3), ('quad', 'tri', 'center'))
        if not all(k == QUAD4 and is_convex2d([s.xyz[v] for v in c]) for k, c in s.cells):
            raise Discard()
    else:
        pert = d.bool(.3)
        s = gen.mesh3d(d, 1, kinds=('asis',), kinds2=('quad',), perturb=pert, zmax=2)
        t = gen.mesh3d(d, 1, kinds=('asis', 'tets'), kinds2=('quad', 'tri'), zmax=2)
        if not all(k == HEXA8 for k, c in s.cells):
            raise Discard()
    t = PM(dim, dim, place(d, t, bbox(s.xyz)), t.cells)
    if d.bool(.3):
        s, t = gen.shuffle(d, s), gen.shuffle(d, t)
    d.label('%dD' % dim)
    d.sample(('%r -> %r' % (s, t))[:700])
    ms, mt = to_mc(s), to_mc(t)
    # in 3D the reference coordinates are ratios of distances to opposite faces: exact on parallelepipeds
    exact = dim == 2 or not pert
    r = remap(d, ms, mt, 'P1P1', itype='MappedBarycentric')
    M = r.getCrudeMatrix()
    f, _ = aff(d, dim)
    g = L(r.transferField(nodal(ms, f), 1e300).getArray())
    n = 0
    for i in sorted({v for k, c in t.cells for v in cell_nodes(k, c)}):
        p = t.xyz[i]
        ins, border = locate(s, p)
        if ins and not border or M[i]:
            n += 1
            tot = sum(M[i].values())        # once per source cell holding the point
            if tot < .5 or abs(tot - round(tot)) > 1e-9:
                d.fail('MappedBarycentric: weights %r do not sum to 1' % M[i])
            if exact and abs(g[i] - f(p)) > 1e-6 * 50:
                d.fail('MappedBarycentric: affine field at %r is %r, expected %r (row %r)' % (p, g[i], f(p), M[i]))
            if ins and not border and set(M[i]) - set(s.cells[ins[0]][1]):
                d.fail('MappedBarycentric: target %d in the source cell %r has the row %r' % (i, s.cells[ins[0]], M[i]))
        elif not ins and not border and M[i]:
            d.fail('MappedBarycentric: target %d out of the source has the row %r' % (i, M[i]))
    d.nontrivial(n >= 2)


@check(n=2500, rule='at least two points in the mesh')
def fe(d):
    """finite-element nodes: interpolation FE -> FE and evaluation at points reproduce affine fields"""
    dim = d.choice([2, 2, 3])
    if dim == 2:
        s = gen.mesh2d(d, d.int(1, 3), ('quad', 'tri', 'center'))
        if not all(is_convex2d([s.xyz[v] for v in c]) for k, c in s.cells):
            raise Discard()
        if d.bool(.3):
            s = gen.quadratic(s, d, 0.)
    else:
        s = gen.mesh3d(d, 1, kinds=('asis', 'tets'), kinds2=('quad', 'tri'), zmax=2)
    lin = PM(s.sd, s.md, s.xyz, [linear_conn(k, c) for k, c in s.cells])
    if dim == 3 and any(cell_measure_centroid(3, k, c, s.xyz)[0] <= 1e-5 for k, c in lin.cells):
        raise Discard()
    if not all(k in (TRI3, QUAD4, TRI6, QUAD8, TETRA4, HEXA8, PENTA6) for k, c in s.cells):
        raise Discard()
    if d.bool(.3):
        s = gen.shuffle(d, s, unused=False)
        lin = PM(s.sd, s.md, s.xyz, [linear_conn(k, c) for k, c in s.cells])
    n = d.int(1, 6)
    b = bbox(s.xyz)
    pts = []
    for _ in range(n):          # convex combinations of the nodes of a cell, in the cell
        k, c = lin.cells[d.below(lin.nc)]
        ns = cell_nodes(k, c)
        wts = [d.uniform(.05, 1) for _ in ns]
        z = sum(wts)
        pts.append(tuple(sum(x * s.xyz[v][j] for x, v in zip(wts, ns)) / z for j in range(dim)))
    d.nontrivial(n >= 2)
    d.label('%dD' % dim)
    d.sample(('%r at %r' % (s, pts))[:600])
    ms = to_mc(s)
    f, _ = aff(d, dim)
    F = nodal(ms, f, mc.ON_NODES_FE)
    got = L(F.getValueOnMulti(mc.DataArrayDouble([x for p in pts for x in p], n, dim)))
    near(d, got, [f(p) for p in pts], 'getValueOnMulti of an affine field on finite-element nodes', 1e-6, 20.)
    # remapper
    mt = mc.MEDCouplingUMesh.Build0DMeshFromCoords(mc.DataArrayDouble([x for p in pts for x in p], n, dim))
    a, b = mc.MEDCouplingFieldTemplate(mc.ON_NODES_FE), mc.MEDCouplingFieldTemplate(mc.ON_NODES_FE)
    a.setMesh(ms)
    b.setMesh(mt)
    r = mc.MEDCouplingRemapper()
    r.setIntersectionType(mc.PointLocator)
    r.prepareEx(a, b)
    M = r.getCrudeMatrix()
    for i, p in enumerate(pts):
        if abs(sum(M[i].values()) - 1.) > 1e-4:
            d.fail('FE: weights %r of a covered point do not sum to 1' % M[i])
        if abs(sum(w * f(s.xyz[j]) for j, w in M[i].items()) - f(p)) > 1e-6 * 50:
            d.fail('FE: affine field at %r with the weights %r: %r expected' % (p, M[i], f(p)))


@check(n=2500, rule='at least two points')
def kriging(d):
    """kriging of nodal values: exact at the nodes, reproduces affine fields everywhere"""
    dim = d.choice([1, 2, 3])
    n = d.int(dim + 2, 12)
    pts = list({tuple(d.sint(16) / 4 for _ in range(dim)) for _ in range(n)})
    rk = np.linalg.matrix_rank(np.array([[1.] + list(p) for p in pts]))
    if rk < dim + 1:
        raise Discard()
    n = len(pts)
    arr = mc.DataArrayDouble([x for p in pts for x in p], n, dim)
    m = mc.MEDCouplingUMesh.Build0DMeshFromCoords(arr)
    f, _ = aff(d, dim)
    q = [tuple(d.uniform(-5, 5) for _ in range(dim)) for _ in range(d.int(1, 5))]
    d.nontrivial(len(q) >= 2)
    d.label('%dD' % dim)
    d.sample(repr((pts, q))[:500])
    A = lambda z: mc.DataArrayDouble([x for p in z for x in p], len(z), dim)
    F = nodal(m, f, mc.ON_NODES_KR)
    cond = np.linalg.cond(np.array([[math.dist(a, b) if dim > 1 else abs(a[0] - b[0]) ** 3 for a in pts] for b in pts]) + 1e-300)
    if cond > 1e7:
        raise Discard()
    near(d, L(F.getValueOnMulti(A(q))), [f(p) for p in q], 'kriging of an affine field', 1e-6, 100.)
    vals = [d.sint(32) / 4 for _ in pts]
    F.setArray(mc.DataArrayDouble(vals))
    near(d, L(F.getValueOnMulti(arr)), vals, 'kriging at the nodes', 1e-6, 100.)
    # numbering does not change the result
    got = L(F.getValueOnMulti(A(q)))
    p = d.perm(n) if hasattr(d, 'perm') else list(range(n))[::-1]
    m2 = mc.MEDCouplingUMesh.Build0DMeshFromCoords(A([pts[i] for i in p]))
    F2 = nodal(m2, f, mc.ON_NODES_KR)
    F2.setArray(mc.DataArrayDouble([vals[i] for i in p]))
    near(d, L(F2.getValueOnMulti(A(q))), got, 'kriging after a renumbering of the nodes', 1e-6, 100.)


@check(n=2000, rule='targets both in and out of the source')
def gauss(d):
    """Gauss -> Gauss with PointLocator: closest Gauss point of the cell that contains the target, else closest of all"""
    def mk():
        m = gen.mesh2d(d, d.int(1, 2), ('quad', 'tri', 'center'))
        if not all(is_convex2d([m.xyz[v] for v in c]) for k, c in m.cells):
            raise Discard()
        return m
    s, t = mk(), mk()
    t = PM(2, 2, place(d, t, bbox(s.xyz)), t.cells)

    def ft(pm):
        m = to_mc(pm)
        f = mc.MEDCouplingFieldDouble(mc.ON_GAUSS_PT, mc.NO_TIME)
        f.setMesh(m)
        for ty in {k for k, c in pm.cells}:
            ids = [i for i, (k, c) in enumerate(pm.cells) if k == ty]
            rc = [0., 0., 1., 0., 0., 1.] if ty == TRI3 else [-1., -1., 1., -1., 1., 1., -1., 1.]
            n = d.int(1, 3)
            gs = [d.uniform(.05, .45) if ty == TRI3 else d.uniform(-.9, .9) for _ in range(2 * n)]
            f.setGaussLocalizationOnCells(I(ids), rc, gs, [1. / n] * n)
        return m, f
    (ms, f), (mt, g) = ft(s), ft(t)
    a, b = mc.MEDCouplingFieldTemplate(f), mc.MEDCouplingFieldTemplate(g)
    d.sample(('%r -> %r' % (s, t))[:500])
    r = mc.MEDCouplingRemapper()
    r.setIntersectionType(mc.PointLocator)
    r.prepareEx(a, b)
    M = r.getCrudeMatrix()
    ls, lt = T(a.getLocalizationOfDiscr()), T(b.getLocalizationOfDiscr())
    eq(d, (len(M), r.getNumberOfColsOfMatrix()), (len(lt), len(ls)), 'size of the Gauss matrix')
    owner = []
    for i, (k, c) in enumerate(s.cells):
        owner += [i] * f.getGaussLocalization(f.getGaussLocalizationIdOfOneCell(i)).getNumberOfGaussPt()
    nin = nout = 0
    for i, p in enumerate(lt):
        ins, border = locate(s, p)
        if border:
            continue
        cand = [j for j in range(len(ls)) if not ins or owner[j] == ins[0]]
        ds = sorted((dist(p, ls[j]), j) for j in cand)
        if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-9:
            continue
        nin += bool(ins)
        nout += not ins
        eq(d, M[i], {ds[0][1]: 1. if ins else 2.}, 'row of the target Gauss point %d at %r' % (i, p))
    d.nontrivial(nin and nout)
