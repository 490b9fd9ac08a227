"""C13 point location and point to mesh distance: exhaustive geometric tests on vertex lists (ref.py), far enough from the borders."""
from common import *
from ref import *
import gen

ASSUMPTIONS = ['cells are convex with flat faces, except polygons and polyhedra (concave polygons; convex polyhedra) and quadratic 2D cells (arcs of circles)',
               'points closer than a tolerance to the border of a cell are only required to be found when clearly inside another one']
MARGIN = 1e-6


def box2(ps):
    return [min(c) for c in zip(*ps)], [max(c) for c in zip(*ps)]


def fat(pm):
    try:
        return all(abs(cell_measure_centroid(pm.sd, t, c, pm.xyz)[0]) > 1e-4 for t, c in pm.cells)
    except ZeroDivisionError:
        return False


def points_for(d, pm, n):
    """points near the cells: inside some cell, anywhere in the enlarged box, far away"""
    pts = []
    lo, hi = box2(pm.xyz)
    for _ in range(n):
        k = d.weighted([(4, 0), (3, 1), (1, 2)])
        if k == 0:
            t, c = pm.cells[d.below(pm.nc)]
            ps = [pm.xyz[v] for v in sorted({v for v in c if v >= 0})]
            w = [d.int(0, 6) for _ in ps]
            s = float(sum(w)) or 1.
            w = w if sum(w) else [1.] + [0.] * (len(ps) - 1)
            p = tuple(sum(w[q] * ps[q][j] for q in range(len(ps))) / s for j in range(pm.sd))
        elif k == 1:
            p = tuple(lo[j] - .125 + (hi[j] - lo[j] + .25) * d.below(65) / 64. for j in range(pm.sd))
        else:
            p = tuple(hi[j] + d.sint(40) / 4. for j in range(pm.sd))
        pts.append(p)
    return pts


def inside_cell(pm, i, p):
    """(inside, distance to the border)"""
    t, c = pm.cells[i]
    if pm.md == 1:
        a, b = sorted((pm.xyz[c[0]][0], pm.xyz[c[1]][0]))
        return a < p[0] < b, min(abs(p[0] - a), abs(p[0] - b))
    if pm.md == 2:
        return pt_in_poly2d(p, [pm.xyz[v] for v in linear_conn(t, c)[1]])
    return pt_in_solid(p, solid_faces(t, c, pm.xyz))


def compare(d, got, pm, p, what, margin=MARGIN, test=None):
    """got: ids reported for point p"""
    got = list(got)
    if len(got) != len(set(got)):
        d.fail('%s: repeated ids %r' % (what, got))
    amb = False
    for i in range(pm.nc):
        ins, dm = (test or inside_cell)(pm, i, p)
        if dm < margin:
            amb = True
            continue
        if ins != (i in got):
            d.fail('%s at %r: cell %d %s is %s, distance to its border %g' % (what, p, i, pm.cells[i], 'missing' if ins else 'wrongly reported', dm))
    return amb


def all_queries(d, m, pm, pts, eps, test=None, margin=MARGIN):
    e, ei = m.getCellsContainingPoints(Dbl(pts, pm.sd), len(pts), eps)
    multi = packs(e, ei)
    eq(d, len(multi), len(pts), 'number of packs')
    for p, got in zip(pts, multi):
        amb = compare(d, got, pm, p, 'getCellsContainingPoints', margin, test)
        eq(d, L(m.getCellsContainingPoint(list(p), eps)), list(got), 'single and multiple queries at %r' % (p,))
        first = m.getCellContainingPoint(list(p), eps)
        eq(d, first, min(got) if len(got) else -1, 'getCellContainingPoint(%r)' % (p,))
        d.label('border' if amb else 'inside' if len(got) else 'outside')


def concave_polygons(d):
    """disjoint star-shaped polygons, possibly concave, on a grid of boxes"""
    nx, ny = d.int(1, 3), d.int(1, 2)
    xyz, cells = [], []
    for bx in range(nx):
        for by in range(ny):
            n = d.int(3, 8)
            k = len(xyz)
            for j in range(n):
                r = d.int(1, 7) / 8.
                a = 2 * math.pi * j / n
                xyz.append((2. * bx + r * math.cos(a), 2. * by + r * math.sin(a)))
            c = list(range(k, k + n))
            if abs(poly_area2d([xyz[v] for v in c])) < 1e-3 or min(pt_seg_dist(xyz[c[i]], xyz[c[(i + 1) % n]], xyz[c[(i + 2) % n]]) for i in range(n)) < 1e-4:
                del xyz[k:]
                continue
            cells.append((POLYGON, c if d.bool() else c[::-1]))
    d.assume(cells)
    return PM(2, 2, xyz, cells, 'star')


@check(n=3500, rule='at least two cells and three points')
def locate(d):
    """linear cells of any dimension: exactly the cells containing the point"""
    md = d.weighted([(1, 1), (3, 2), (3, 3)])
    if md == 1:
        pm = gen.seg_mesh(d, sd=1)
    elif md == 2:
        if d.bool(.25):
            pm = concave_polygons(d)
        else:
            pm = gen.mesh2d(d, 3, hanging=True)
            d.assume(all(is_convex2d([pm.xyz[v] for v in c]) or t == POLYGON for t, c in pm.cells))
            if d.bool(.2):
                pm = PM(2, 2, pm.xyz, [(t, c if d.bool() else c[::-1]) for t, c in pm.cells], 'm')
    else:
        pm = gen.mesh3d(d, nmax=2, zmax=2, perturb=False)
    d.assume(fat(pm))
    pm = gen.shuffle(d, pm)
    s = 2. ** d.choice([0, 0, 0, -10, 10])
    if s != 1:
        pm = PM(pm.sd, pm.md, [mul(p, s) for p in pm.xyz], pm.cells, pm.name)
    pts = points_for(d, PM(pm.sd, pm.md, [mul(p, 1 / s) for p in pm.xyz], pm.cells), d.int(1, 8))
    pts = [mul(p, s) for p in pts]
    d.nontrivial(pm.nc > 1 and len(pts) > 2)
    d.label('%dD' % md)
    d.sample('%r points %r' % (pm, pts))
    m = to_mc(pm)
    # in 2D the tolerance is compared to twice the area of the triangle made with an edge
    all_queries(d, m, pm, pts, d.choice([1e-8, 1e-10, 1e-12]) * (min(1., s) ** 2 if md == 2 else 1.), margin=MARGIN * max(1., s) * (1. if s >= 1 else s))


def arc_polyline(a, m, b, n=48):
    """points of the arc a-m-b, a included and b excluded, and the largest distance to the arc"""
    ux, uy = b[0] - a[0], b[1] - a[1]
    h = ((m[0] - a[0]) * -uy + (m[1] - a[1]) * ux) / math.hypot(ux, uy)
    if abs(h) < 1e-9:
        return [a], 0.
    A = np.array([[2 * (m[0] - a[0]), 2 * (m[1] - a[1])], [2 * (b[0] - a[0]), 2 * (b[1] - a[1])]])
    c = np.linalg.solve(A, [m[0] ** 2 + m[1] ** 2 - a[0] ** 2 - a[1] ** 2, b[0] ** 2 + b[1] ** 2 - a[0] ** 2 - a[1] ** 2])
    R = math.hypot(a[0] - c[0], a[1] - c[1])
    t0, t1, t2 = (math.atan2(p[1] - c[1], p[0] - c[0]) for p in (a, m, b))
    ccw = (t1 - t0) % (2 * math.pi) < (t2 - t0) % (2 * math.pi)
    span = (t2 - t0) % (2 * math.pi) if ccw else -((t0 - t2) % (2 * math.pi))
    ps = [(c[0] + R * math.cos(t0 + span * k / n), c[1] + R * math.sin(t0 + span * k / n)) for k in range(n)]
    ps[0] = a
    return ps, R * (1 - math.cos(span / n / 2))


def curved_mesh(d):
    """conformal planar mesh with quadratic cells, some edges arcs of circles"""
    pm = gen.mesh2d(d, 2, perturb=d.bool(.5), kinds=('quad', 'tri', 'poly', 'merge'))
    d.assume(all(is_convex2d([pm.xyz[v] for v in c]) for t, c in pm.cells))
    # smallest distance of a node to an edge it is not on limits the bulge
    q = gen.quadratic(pm, d, 0., False)
    sides = {}
    for t, c in q.cells:
        n = len(c) // 2
        for i in range(n):
            sides[c[n + i]] = (c[i], c[(i + 1) % n])
    h = min(pt_seg_dist(pm.xyz[v], pm.xyz[c[i]], pm.xyz[c[(i + 1) % len(c)]]) for t, c in pm.cells for i in range(len(c)) for v in c if v not in (c[i], c[(i + 1) % len(c)]))
    d.assume(h > 1e-2)
    xyz = list(q.xyz)
    for mnode, (a, b) in sorted(sides.items()):
        k = d.choice([0, 0, 1, 2, -1, -2])
        if k:
            A, B = xyz[a], xyz[b]
            u = sub(B, A)
            l = norm(u)
            s = min(h / 5, l / 4) * k / 2
            xyz[mnode] = add(mul(add(A, B), .5), (-u[1] / l * s, u[0] / l * s))
    return PM(2, 2, xyz, q.cells, 'curved')


def curved_test(pm, i, p, cache={}):
    t, c = pm.cells[i]
    n = len(c) // 2
    ps, e = [], 0.
    for k in range(n):
        q, s = arc_polyline(pm.xyz[c[k]], pm.xyz[c[n + k]], pm.xyz[c[(k + 1) % n]])
        ps += q
        e = max(e, s)
    ins, dm = pt_in_poly2d(p, ps)
    return ins, max(0., dm - 2 * e)


@check(n=2500, rule='a curved edge and three points')
def curved(d):
    """quadratic planar cells: the region bounded by arcs of circles"""
    pm = curved_mesh(d)
    pm = gen.shuffle(d, pm, rotate=False)
    pts = points_for(d, pm, d.int(1, 8))
    d.nontrivial(len(pts) > 2)
    d.sample('%r points %r' % (pm, pts))
    conv = all(t == QPOLYG for t, c in pm.cells)
    d.label('polygons' if conv else 'any')
    m = to_mc(pm)
    all_queries(d, m, pm, pts, 1e-9, curved_test, 1e-5)


@check(n=2500, rule='at least two cells')
def linear_part(d):
    """getCellsContainingPointsLinearPartOnlyOnNonDynType: quadratic cells seen through their vertices"""
    md = d.int(2, 3)
    pm = gen.mesh2d(d, 3, kinds=('quad', 'tri', 'center')) if md == 2 else gen.mesh3d(d, nmax=1, zmax=2, kinds=('asis', 'tets'), kinds2=('quad', 'tri'), perturb=False)
    d.assume(md == 3 or all(is_convex2d([pm.xyz[v] for v in c]) for t, c in pm.cells))
    d.assume(fat(pm))
    q = gen.quadratic(pm, d, .03, d.bool())
    q = gen.shuffle(d, q, rotate=False)
    pts = points_for(d, q, d.int(1, 6))
    d.nontrivial(q.nc > 1)
    d.label('%dD' % md)
    d.sample('%r points %r' % (q, pts))
    a, b = to_mc(q).getCellsContainingPointsLinearPartOnlyOnNonDynType(Dbl(pts, q.sd), len(pts), 1e-10)
    for p, got in zip(pts, packs(a, b)):
        compare(d, got, q, p, 'linear part', 1e-5)


@check(n=2500, rule='at least two cells in two directions')
def structured(d):
    """cartesian, image, curvilinear and single type meshes agree with the geometry"""
    kind = d.choice(['cart', 'image', 'curve', '1sgt', '1dgt'])
    sd = d.int(1, 3)
    if kind in ('1sgt', '1dgt'):
        sd = max(sd, 2)
        if kind == '1sgt':
            pm = gen.mesh2d(d, 3, kinds=(d.choice(['quad', 'tri']),), uniform_kind=1.) if sd == 2 else gen.mesh3d(d, nmax=2, kinds=(d.choice(['asis', 'tets']),), kinds2=('quad',), perturb=False)
        else:
            pm = gen.mesh2d(d, 3, kinds=('poly', 'merge')) if sd == 2 else gen.mesh3d(d, nmax=2, kinds=('polyhed',), kinds2=('quad', 'merge'), perturb=False)
        pm = gen.shuffle(d, pm)
        d.assume(len({t for t, c in pm.cells}) == 1 and (sd == 3 or all(is_convex2d([pm.xyz[v] for v in c]) for t, c in pm.cells)))
        d.assume(fat(pm))
        m = to_mc(pm).convertIntoSingleGeoTypeMesh() if kind == '1sgt' else mc.MEDCoupling1DGTUMesh(to_mc(pm))
    else:
        dims = [d.int(1, 4) for _ in range(sd)]
        if kind == 'image':
            org = [d.sint(8) / 4 for _ in range(sd)]
            st = [d.int(1, 8) / 4. for _ in range(sd)]
            xs = [[o + s * i for i in range(n + 1)] for o, s, n in zip(org, st, dims)]
            m = mc.MEDCouplingIMesh('m', sd, mc.DataArrayInt([n + 1 for n in dims]), mc.DataArrayDouble(org), mc.DataArrayDouble(st))
        elif kind == 'cart':
            xs = [gen.incr(d, n + 1) for n in dims]
            m = mc.MEDCouplingCMesh('m')
            m.setCoords(*[mc.DataArrayDouble(x) for x in xs])
        else:
            xs = [gen.incr(d, n + 1) for n in dims]
            m = mc.MEDCouplingCMesh('m')
            m.setCoords(*[mc.DataArrayDouble(x) for x in xs])
            m = m.buildCurveLinear()
            if sd > 1:
                sh = [d.sint(4) / 8. for _ in range(sd - 1)]
                co = [list(p) for p in T(m.getCoords())]
                for p in co:
                    for j in range(1, sd):
                        p[j] += sh[j - 1] * p[0]
                m.setCoords(Dbl(co, sd))
        u = m.buildUnstructured()
        pm = from_mc(u)
        if d.bool(.5):
            pts = points_for(d, pm, d.int(1, 6))
            w = d.bool()
            all_queries(d, m.buildUnstructured(), pm, pts, 1e-10)
    pts = points_for(d, pm, d.int(1, 8))
    d.nontrivial(pm.nc > 1)
    d.label(kind, '%dD' % sd)
    d.sample('%s %r points %r' % (kind, pm, pts))
    e, ei = m.getCellsContainingPoints(Dbl(pts, pm.sd), len(pts), 1e-10)
    for p, got in zip(pts, packs(e, ei)):
        amb = compare(d, got, pm, p, kind)
        one = m.getCellContainingPoint(list(p), 1e-10)
        if not amb:
            eq(d, one, min(got) if len(got) else -1, '%s getCellContainingPoint(%r)' % (kind, p))
            eq(d, L(m.getCellsContainingPoint(list(p), 1e-10)), list(got), '%s getCellsContainingPoint(%r)' % (kind, p))


def cell_distance(pm, i, p):
    t, c = pm.cells[i]
    ps = [pm.xyz[v] for v in linear_conn(t, c)[1]]
    if pm.md == 1:
        return pt_seg_dist(p, ps[0], ps[1])
    if pm.sd == 3:
        return min(pt_tri_dist(p, ps[0], ps[k], ps[k + 1]) for k in range(1, len(ps) - 1))


@check(n=3500, rule='at least two cells and two points')
def distance(d):
    """distance to a line mesh in 2D or to a surface in 3D: minimum over the cells, reached by the reported cell"""
    md = d.int(1, 2)
    if md == 1:
        pm = gen.seg_mesh(d, sd=2)
    else:
        pm = gen.surf3d(d, 3)
        d.assume(all(is_convex2d([pm.xyz[v][:2] for v in c]) for t, c in pm.cells))
        if d.bool(.5):
            A = gen.rotation3(d)
            pm = PM(3, 2, [gen.apply3(A, (0., 0., 0.), p) for p in pm.xyz], pm.cells, pm.name)
    d.assume(fat(pm))
    pm = gen.shuffle(d, pm)
    pts = points_for(d, pm, d.int(1, 8))
    d.nontrivial(pm.nc > 1 and len(pts) > 1)
    d.label('%dD' % md)
    d.sample('%r points %r' % (pm, pts))
    m = to_mc(pm)
    ds, cs = m.distanceToPoints(Dbl(pts, pm.sd))
    for p, x, c in zip(pts, L(ds), L(cs)):
        alld = [cell_distance(pm, i, p) for i in range(pm.nc)]
        near(d, [x], [min(alld)], 'distance of %r to the mesh' % (p,), 1e-7, 1.)
        d.check(0 <= c < pm.nc, 'cell id %r' % c)
        near(d, [alld[c]], [min(alld)], 'distance of %r to the reported cell %d' % (p, c), 1e-7, 1.)
        x1, c1 = m.distanceToPoint(list(p))
        near(d, [x1], [min(alld)], 'distanceToPoint(%r)' % (p,), 1e-7, 1.)
        near(d, [alld[c1]], [min(alld)], 'distance of %r to the cell %d reported by distanceToPoint' % (p, c1), 1e-7, 1.)


@check(n=3000, rule='at least three cells')
def boxes(d):
    """getCellsInBoundingBox never misses a cell whose box meets the query, and reports only cells whose enlarged box meets it"""
    pm = gen.any_mesh(d, (1, 2, 3))
    lo, hi = box2(pm.xyz)
    a = [lo[j] - .5 + (hi[j] - lo[j] + 1.) * d.below(33) / 32. for j in range(pm.sd)]
    b = [x + d.int(0, 12) / 8. for x in a]
    e = d.choice([1e-9, .01, .25])
    d.nontrivial(pm.nc > 2)
    d.label('%d in %dD' % (pm.md, pm.sd))
    d.sample('%r box %r %r eps %r' % (pm, a, b, e))
    m = to_mc(pm)
    got = L(m.getCellsInBoundingBox([x for j in range(pm.sd) for x in (a[j], b[j])], e))
    eq(d, sorted(set(got)), got, 'sorted ids')
    for i in range(pm.nc):
        l, h = box2(pm.pts(i))
        g = max(max(l[j] - b[j], a[j] - h[j]) for j in range(pm.sd))       # gap, negative when the boxes overlap
        if g < -1e-9 and i not in got:
            d.fail('cell %d of box %r %r is not reported for the box %r %r (eps %r)' % (i, l, h, a, b, e))
        if i in got and g > e * max(1., max(b[j] - a[j] for j in range(pm.sd)), max(h[j] - l[j] for j in range(pm.sd))) * 2 + 1e-9:
            d.fail('cell %d of box %r %r is reported for the box %r %r (eps %r)' % (i, l, h, a, b, e))
