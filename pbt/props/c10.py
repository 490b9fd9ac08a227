"""C10 measures, centres, diameters, boxes, normals: exact formulas on vertex lists (ref.py), arcs of circles analytically."""
from common import *
from ref import *
import gen

ASSUMPTIONS = ['cells have flat faces and a non zero measure; curved edges are arcs of circles in 2D']
SIZES = dict(eps=1e-9)


def flip(t, c):
    """same cell with the opposite orientation"""
    c = list(c)
    if t in (SEG2, SEG3, SEG4):
        return [c[1], c[0]] + (c[2:] if t == SEG3 else c[:1:-1])
    if t == POLYL:
        return c[::-1]
    if DIM[t] == 2:
        n = len(linear_conn(t, c)[1])
        a, b, e = c[:n], c[n:2 * n] if is_quad(t) else [], c[2 * n:] if is_quad(t) else []
        return [a[0]] + a[:0:-1] + b[::-1] + e
    if t == POLYHED:
        return join_faces([f[::-1] for f in poly_faces(c)])
    if t == TETRA4:
        return [c[0], c[2], c[1], c[3]]
    if t == PYRA5:
        return [c[0], c[3], c[2], c[1], c[4]]
    if t in (PENTA6, HEXA8, HEXGP12):
        n = len(c) // 2
        return c[n:] + c[:n]
    return None


def meas(sd, md, t, c, xyz):
    """(signed measure in the conventions of the library, centre of mass)"""
    m, g = cell_measure_centroid(sd, t, c, xyz)
    if md == 2 and sd == 2:
        m = -m                  # clockwise cells are positive
    return m, g


def star(d):
    """a concave polygon"""
    n = d.int(4, 8)
    ps = []
    for i in range(n):
        a = 2 * math.pi * (i + .3 * d.uniform(-1, 1)) / n
        r = d.choice([1., 2., 4.])
        ps.append((r * math.cos(a), r * math.sin(a)))
    return ps


def concave_mesh(d, sd, md):
    xyz, cells = [], []
    for k in range(d.int(1, 3)):
        ps = star(d)
        o = len(xyz)
        n = len(ps)
        if md == 2:
            a, b, c = (d.sint(4) / 4, d.sint(4) / 4, d.sint(4) / 4) if sd == 3 else (0, 0, 0)
            xyz += [(x, y, a * x + b * y + c) if sd == 3 else (x, y) for x, y in ps]
            cells.append((POLYGON, [o + i for i in range(n)]))
        else:
            h = d.choice([.5, 1., 2.])
            s, t = d.sint(4) / 4, d.sint(4) / 4
            xyz += [(x, y, 0.) for x, y in ps] + [(x + s, y + t, h) for x, y in ps]
            cells.append((POLYHED, gen.prism_faces([o + i for i in range(n)], [o + n + i for i in range(n)])))
    return PM(sd, md, xyz, cells)


def draw(d):
    k = d.below(8)
    if k == 0:
        sd, md = d.choice([(2, 2), (3, 2), (3, 3)])
        pm = gen.shuffle(d, concave_mesh(d, sd, md))
    else:
        pm = gen.any_mesh(d, (1, 2, 3), 3, quad=.25)
    cells = []
    fl = d.choice([0, 0, .5])
    for t, c in pm.cells:
        f = flip(t, c) if fl and d.bool(fl) else None
        cells.append((t, f if f is not None else c))
    pm = PM(pm.sd, pm.md, pm.xyz, cells)
    if d.bool(.3) and not any(is_quad(t) for t, _ in pm.cells):              # generic motion (rounding bends straight quadratic edges)
        s = d.choice([1., 1., 10., .01, 1000.])
        big = max(max(abs(x) for x in p) for p in pm.xyz)
        t = [d.sint(8) * d.choice([0, 1., 1., .3]) * s * big for _ in range(pm.sd)]
        if pm.sd == 3:
            R = gen.rotation3(d)
        elif pm.sd == 2:
            a = d.uniform(0, 7)
            R = [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]
        else:
            R = [[1.]]
        pm.xyz = [tuple(s * dot(R[i], p) + t[i] for i in range(pm.sd)) for p in pm.xyz]
        d.label('moved')
    return pm


def degen(pm):
    """a cell with a null edge, or a flat 2D cell"""
    for t, c in pm.cells:
        ps = [pm.xyz[v] for v in linear_conn(t, c)[1] if v >= 0]
        if pm.md == 1 and ps[0] == ps[-1]:
            return True
        if pm.md == 2:
            e = max(dist(ps[0], p) for p in ps)
            a = abs(poly_area2d(ps)) if pm.sd == 2 else norm(poly_normal3d(ps))
            if a <= 1e-6 * e * e:
                return True
    return False


def size(pm):
    b = bbox(pm.xyz)
    ext = max(1e-300, max(h - l for l, h in b))
    mag = max(ext, max(max(abs(l), abs(h)) for l, h in b))
    return ext, mag


@check(n=25000, rule='a mesh with at least two cells or a non convex cell')
def measures(d):
    """getMeasureField(abs or not), parts, computeCellCenterOfMass, isobarycentre, measure on nodes, conversion to polygons/polyhedra"""
    pm = draw(d)
    d.sample(repr(pm)[:500])
    m = to_mc(pm, 'mm')
    ext, mag = size(pm)
    scale = ext ** pm.md if pm.md else 1.
    eps = 1e-9 * max(1., mag / ext)
    if degen(pm):
        raise Discard()
    want = [meas(pm.sd, pm.md, t, c, pm.xyz) for t, c in pm.cells]
    if pm.md >= 1 and any(abs(w[0]) < 1e-6 * scale for w in want):
        raise Discard()
    d.nontrivial(pm.nc > 1 or any(t in (POLYGON, POLYHED) for t, _ in pm.cells))
    f = m.getMeasureField(False)
    # signed: 1D in 1D, 2D in 2D, 3D; otherwise always positive
    near(d, L(f.getArray()), [w[0] for w in want], 'getMeasureField(False)', eps, scale)
    eq(d, (f.getTypeOfField(), f.getMesh().getHiddenCppPointer() if hasattr(f.getMesh(), 'getHiddenCppPointer') else None), (mc.ON_CELLS, m.getHiddenCppPointer() if hasattr(m, 'getHiddenCppPointer') else None), 'support of the measure field')
    near(d, L(m.getMeasureField(True).getArray()), [abs(w[0]) for w in want], 'getMeasureField(True)', eps, scale)
    ids = [d.below(pm.nc) for _ in range(d.below(6))]
    ab = d.bool()
    if ids:
        near(d, L(m.getPartMeasureField(ab, I(ids))), [abs(want[i][0]) if ab else want[i][0] for i in ids], 'getPartMeasureField', eps, scale)
    flatc = lambda ws: [x for w in ws for x in w]
    cen = m.computeCellCenterOfMass()
    near(d, L(cen), flatc([w[1] for w in want]), 'computeCellCenterOfMass', eps, mag)
    if ids:
        near(d, L(m.getPartBarycenterAndOwner(I(ids))), flatc([want[i][1] for i in ids]), 'getPartBarycenterAndOwner', eps, mag)
    near(d, L(m.computeCellCenterOfMassWithPrecision(1e-12)), flatc([w[1] for w in want]), 'computeCellCenterOfMassWithPrecision', eps, mag)
    iso = [centroid_pts([pm.xyz[v] for v in sorted(cell_nodes(t, c))]) for t, c in pm.cells]
    near(d, L(m.computeIsoBarycenterOfNodesPerCell()), flatc(iso), 'computeIsoBarycenterOfNodesPerCell', eps, mag)
    # on nodes
    fn = m.getMeasureFieldOnNode(ab)
    w = [0.] * pm.nn
    for (t, c), (v, _) in zip(pm.cells, want):
        ns = [x for x in c if x >= 0]
        for x in ns:
            w[x] += (abs(v) if ab else v) / len(ns)
    near(d, L(fn.getArray()), w, 'getMeasureFieldOnNode', eps, scale)
    # independence of the storage type
    if pm.md in (2, 3) and pm.nc:
        m2 = m.deepCopy()
        if pm.md == 2 or all(t in (TETRA4, PYRA5, PENTA6, HEXA8, HEXGP12, POLYHED) for t, _ in pm.cells):
            m2.convertAllToPoly()
            near(d, L(m2.getMeasureField(False).getArray()), [x[0] for x in want], 'getMeasureField after convertAllToPoly', eps, scale)
            near(d, L(m2.computeCellCenterOfMass()), flatc([x[1] for x in want]), 'computeCellCenterOfMass after convertAllToPoly', eps, mag)


@check(n=20000, rule='at least one cell that is not a simplex')
def sizes(d):
    """bounding boxes, diameters, normals, directions, plane equations"""
    pm = draw(d)
    d.sample(repr(pm)[:500])
    d.nontrivial(any(len(c) > pm.md + 1 for _, c in pm.cells))
    m = to_mc(pm)
    ext, mag = size(pm)
    if degen(pm):
        raise Discard()
    eps = 1e-9 * max(1., mag / ext)
    near(d, [x for b in m.getBoundingBox() for x in b], [x for b in bbox(pm.xyz) for x in b], 'getBoundingBox', 1e-15, mag)
    bb = [[x for b in bbox([pm.xyz[v] for v in c if v >= 0]) for x in b] for t, c in pm.cells]
    got = m.getBoundingBoxForBBTree()
    if got.getNumberOfComponents() != 2 * pm.sd:
        d.fail('getBoundingBoxForBBTree: %d components' % got.getNumberOfComponents())
    near(d, L(got), [x for b in bb for x in b], 'getBoundingBoxForBBTree', eps, mag)
    near(d, L(m.getBoundingBoxForBBTreeFast()), [x for b in bb for x in b], 'getBoundingBoxForBBTreeFast', 1e-15, mag)
    # elements in a box
    if d.bool(.5):
        i = d.below(pm.nc)
        lo, hi = zip(*[(bb[i][2 * k], bb[i][2 * k + 1]) for k in range(pm.sd)])
        sh = [d.choice([0, 0, .25, -.25, 1.]) * ext for _ in range(pm.sd)]
        box = [(l + s, h + s) for l, h, s in zip(lo, hi, sh)]
        e = d.choice([1e-6, 1e-3, .1])          # relative to the largest extent of each cell
        r = set(L(m.getCellsInBoundingBox(box, e)))
        for k in range(pm.nc):
            gap = max(max(bb[k][2 * j] - box[j][1], box[j][0] - bb[k][2 * j + 1]) for j in range(pm.sd))
            add = e * max(bb[k][2 * j + 1] - bb[k][2 * j] for j in range(pm.sd))
            if gap < .999 * add - 1e-12 * mag and k not in r:
                d.fail('getCellsInBoundingBox(%s, %g) misses cell %d of box %s' % (box, e, k, bb[k]))
            if gap > 1.001 * add + 1e-12 * mag and k in r:
                d.fail('getCellsInBoundingBox(%s, %g) returns cell %d of box %s' % (box, e, k, bb[k]))
    DT = {TRI3, TRI6, TRI7, QUAD4, QUAD8, QUAD9, TETRA4, TETRA10, HEXA8, HEXA20, HEXA27, PENTA6, PENTA15, PYRA5, PYRA13}
    if pm.md >= 2:
        sup = [i for i, (t, c) in enumerate(pm.cells) if t in DT]
        if sup:
            sub_ = m[sup]
            w = []
            for i in sup:
                ps = [pm.xyz[v] for v in linear_conn(*pm.cells[i])[1]]
                w.append(max(dist(a, b) for a in ps for b in ps))
            f = sub_.computeDiameterField()
            near(d, L(f.getArray()), w, 'computeDiameterField %s' % [NAMES[pm.cells[i][0]] for i in sup], eps, ext)
    if pm.md == 2 or (pm.md, pm.sd) == (1, 2):
        w = []
        for t, c in pm.cells:
            ps = [pm.xyz[v] for v in linear_conn(t, c)[1]]
            if pm.md == 1:
                e = sub(ps[1], ps[0])
                w.append(mul((-e[1], e[0]), 1 / norm(e)))
            elif pm.sd == 2:
                w.append((0., 0., -1. if poly_area2d(ps) > 0 else 1.))
            else:
                n = poly_normal3d(ps)
                w.append(mul(n, 1 / norm(n)))
        near(d, L(m.buildOrthogonalField().getArray()), [x for v in w for x in v], 'buildOrthogonalField', eps * 100, 1.)
        ids = [d.below(pm.nc) for _ in range(d.int(1, 5))]
        near(d, L(m.buildPartOrthogonalField(I(ids)).getArray()), [x for i in ids for x in w[i]], 'buildPartOrthogonalField', eps * 100, 1.)
        if pm.sd == 3:
            pl = T(m.computePlaneEquationOf3DFaces())
            for i, (t, c) in enumerate(pm.cells):
                a = pl[i]
                nn = norm(a[:3])
                if not nn > 0:
                    continue        # three aligned nodes
                ps = [pm.xyz[v] for v in linear_conn(t, c)[1]][:3]
                for p in ps:
                    if abs(dot(a[:3], p) + a[3]) > (eps * 100 * ext + 1e-9 * mag) * nn:
                        d.fail('computePlaneEquationOf3DFaces: node %s out of plane %s' % (p, a))
    if pm.md == 1 and all(t == SEG2 for t, _ in pm.cells):
        near(d, L(m.buildDirectionVectorField().getArray()), [x for t, c in pm.cells for x in sub(pm.xyz[c[1]], pm.xyz[c[0]])], 'buildDirectionVectorField', 1e-12, mag)


def seg_circle(a, b, h):
    """arc from a to b with sagitta h on the left of a->b. -> (mid point, signed area between chord and arc (left positive), its centroid, length, bbox pts)"""
    L_ = dist(a, b)
    ux, uy = (b[0] - a[0]) / L_, (b[1] - a[1]) / L_
    nx, ny = -uy, ux
    mx, my = (a[0] + b[0]) / 2, (a[1] + b[1]) / 2
    mid = (mx + h * nx, my + h * ny)
    if h == 0:
        return mid, 0., mid, L_, []
    s = abs(h)
    R = (L_ * L_ / 4 + s * s) / (2 * s)
    half = 2 * math.atan2(s, L_ / 2)            # half angle of the arc
    area = R * R * (half - math.sin(half) * math.cos(half))
    dc = (2 * R * math.sin(half) ** 3) / (3 * (half - math.sin(half) * math.cos(half)))
    sg = 1 if h > 0 else -1
    cx, cy = mid[0] - sg * nx * R, mid[1] - sg * ny * R
    g = (cx + sg * nx * dc, cy + sg * ny * dc)
    # extreme points on the arc
    ext = [a, b, mid]
    for ex, ey in ((1, 0), (-1, 0), (0, 1), (0, -1)):
        if ex * sg * nx + ey * sg * ny >= math.cos(half) - 1e-12:
            ext.append((cx + R * ex, cy + R * ey))
    return mid, sg * area, g, 2 * half * R, ext


@check(n=15000, rule='at least one curved edge')
def arcs(d):
    """quadratic cells with circular edges in 2D: area, centre, box; SEG3 length and centre"""
    ps = gen.random_convex_polygon(d, 6, 8) if d.bool(.6) else star(d)
    ps = [tuple(float(x) for x in p) for p in ps]
    if len(ps) < 3:
        raise Discard()
    n = len(ps)
    if poly_area2d(ps) < 0:
        ps = ps[::-1]
    mids, area, ext = [], poly_area2d(ps), []
    if area < .1:
        raise Discard()
    c0 = poly_centroid2d(ps)
    gx, gy = c0[0] * area, c0[1] * area
    curved = False
    segs = []
    lmin = min(dist(ps[i], ps[(i + 1) % n]) for i in range(n))
    if lmin < .2:
        raise Discard()
    for i in range(n):
        a, b = ps[i], ps[(i + 1) % n]
        # outward = right of a->b for a counterclockwise polygon
        h = d.choice([0, 0, -.5, -.25, -.05, .1, .02]) * (dist(a, b) if True else 1) * .9
        if h > 0:
            h = min(h, .05 * lmin)
        curved |= h != 0
        m_, s, g, ln, e = seg_circle(a, b, h)
        mids.append(m_)
        area -= s
        gx -= s * g[0]
        gy -= s * g[1]
        ext += e + [a, b]
        segs.append((a, b, m_, ln, h, e))
    d.nontrivial(curved)
    cw = d.bool()
    t = QPOLYG
    if n == 3:
        t = d.choice([QPOLYG, TRI6])
    elif n == 4:
        t = d.choice([QPOLYG, QUAD8])
    if cw:
        pts = [ps[0]] + ps[:0:-1]
        mds = mids[::-1]
    else:
        pts, mds = ps, mids
    k = d.below(n)
    pts, mds = pts[k:] + pts[:k], mds[k:] + mds[:k]
    s = d.choice([1., 1., 3., 100., .01])
    o = (d.sint(20) * s, d.sint(20) * s) if d.bool() else (0., 0.)
    mv = lambda p: (p[0] * s + o[0], p[1] * s + o[1])
    pm = PM(2, 2, [mv(p) for p in pts + mds], [(t, list(range(2 * n)))])
    d.sample(repr(pm)[:600])
    m = to_mc(pm)
    eps = 1e-8 * max(1, max(abs(o[0]), abs(o[1])) / s)
    got = m.getMeasureField(False).getArray().getValues()[0]
    if not close(got, (area if cw else -area) * s * s, eps, s * s):
        d.fail('area of %s: %r, expected %r' % (NAMES[t], got, (area if cw else -area) * s * s))
    g = mv((gx / area, gy / area))
    near(d, L(m.computeCellCenterOfMassWithPrecision(1e-7)), g, 'centre of mass of %s' % NAMES[t], 1e-6, s)
    bb = bbox([mv(p) for p in ext])
    near(d, L(m.getBoundingBoxForBBTree()), [x for b in bb for x in b], 'getBoundingBoxForBBTree of %s' % NAMES[t], eps, s)
    # the edges as a 1D mesh
    xyz, cells, wl, wc, wb = [], [], [], [], []
    for a, b, m_, ln, h, e in segs:
        i = len(xyz)
        xyz += [mv(a), mv(b), mv(m_)]
        cells.append((SEG3, [i, i + 1, i + 2]))
        wl.append(ln * s)
        wb.append([x for q in bbox([mv(p) for p in e + [a, b]]) for x in q])
        wc.append(mv(m_))       # the library takes the middle of the arc
    m1 = to_mc(PM(2, 1, xyz, cells))
    near(d, L(m1.getMeasureField(True).getArray()), wl, 'length of SEG3', eps, s)
    near(d, L(m1.computeCellCenterOfMassWithPrecision(1e-7)), [x for p in wc for x in p], 'centre of SEG3', eps, s)
    near(d, L(m1.getBoundingBoxForBBTree()), [x for b in wb for x in b], 'box of SEG3', eps, s)


@check(n=6000, rule='refined mesh')
def additive(d):
    """the measure of a subdivided mesh is the sum of the parts: simplexize, tetrahedrize, triangles, and descending boundary flux"""
    pm = gen.any_mesh(d, (2, 3), 3, quad=0.)
    m = to_mc(pm)
    ext, mag = size(pm)
    d.nontrivial(pm.nc > 1)
    d.sample(repr(pm)[:400])
    if degen(pm):
        raise Discard()
    ms = [meas(pm.sd, pm.md, t, c, pm.xyz)[0] for t, c in pm.cells]
    if any(abs(x) < 1e-6 * ext ** pm.md for x in ms) or pm.md == 3 and len({x > 0 for x in ms}) > 1:
        raise Discard()
    tot = sum(abs(x) for x in ms)
    if pm.md == 3:
        # divergence theorem on the skin: sum(normal.x)*area/3
        sk = m.computeSkin()
        n = sk.buildOrthogonalField().getArray()
        a = L(sk.getMeasureField(True).getArray())
        g = T(sk.computeCellCenterOfMass())
        flux = sum(dot(x, y) * z for x, y, z in zip(T(n), g, a)) / 3
        if not close(abs(flux), tot, 1e-8 * mag / ext, ext ** 3):
            d.fail('flux of position through the skin %r, volume %r' % (flux, tot))
        xg = [0., 0., 0.]
        for x, y, z in zip(T(n), g, a):
            xg = [p + q * z for p, q in zip(xg, x)]
        near(d, xg, [0., 0., 0.], 'sum of the oriented areas of the skin', 1e-8, ext ** 2)
    elif pm.sd == 2:
        sk = m.computeSkin()
        dv = T(sk.buildOrthogonalField().getArray())
        ln = L(sk.getMeasureField(True).getArray())
        g = T(sk.computeCellCenterOfMass())
        flux = sum(dot(x, y) * z for x, y, z in zip(dv, g, ln)) / 2
        same = {meas(2, 2, t, c, pm.xyz)[0] > 0 for t, c in pm.cells}
        if len(same) == 1 and not close(abs(flux), tot, 1e-8 * mag / ext, ext ** 2):
            d.fail('flux of position through the skin %r, area %r' % (flux, tot))
