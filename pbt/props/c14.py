"""C14: 2D intersection, cutting by lines and conformization partition the plane exactly"""
from fields import *
from geo2d import *


def rot(pm, a, s, t, name=None):
    c, q = math.cos(a) * s, math.sin(a) * s
    return PM(2, pm.md, [(c * x - q * y + t[0], q * x + c * y + t[1]) for x, y in pm.xyz], pm.cells, pm.name)


def straight(d, nmax=3):
    return gen.mesh2d(d, d.int(1, nmax), perturb=d.bool(.6), hanging=d.bool(.3))


def disc(d, n=None):
    """a disc made of sectors, an annulus around it sometimes; edges are arcs"""
    n = n or d.int(2, 5)
    R = [1.] if d.bool(.6) else [1., d.choice([1.5, 2.])]
    xyz, cells = [(0., 0.)], []
    ids = {}

    def node(r, a):
        p = (round(r * math.cos(a), 14), round(r * math.sin(a), 14))
        if p not in ids:
            ids[p] = len(xyz)
            xyz.append(p)
        return ids[p]
    a0 = d.uniform(0, 1.)
    whole = d.bool(.3) and n > 1
    A = [a0 + 2 * math.pi * k / n for k in range(n)]
    h = math.pi / n
    if whole:
        cells.append((QPOLYG, [node(1., a) for a in A] + [node(1., a + h) for a in A]))
    else:
        for a in A:
            c = [0, node(1., a), node(1., a + 2 * h if a != A[-1] else A[0])]
            cells.append((QPOLYG if d.bool() else TRI6, c + [node(.5, a), node(1., a + h), node(.5, A[(A.index(a) + 1) % n])]))
    if len(R) > 1:
        r = R[1]
        for k, a in enumerate(A):
            b = A[(k + 1) % n]
            c = [node(1., a), node(r, a), node(r, b), node(1., b)]
            cells.append((QPOLYG if d.bool() else QUAD8, c + [node((1 + r) / 2, a), node(r, a + h), node((1 + r) / 2, b), node(1., a + h)]))
    used = sorted({v for _, c in cells for v in c})
    o2n = {v: i for i, v in enumerate(used)}
    return PM(2, 2, [xyz[v] for v in used], [(t, [o2n[v] for v in c]) for t, c in cells], 'disc')


def curved2(d):
    return gen_curved(d) if d.bool(.6) else disc(d)


def norm_center(pm):
    """to a box of about unit size around the origin"""
    b = bbox(pm.xyz)
    s = 2. / max(h - l for l, h in b)
    return rot(pm, 0., s, (-s * (b[0][0] + b[0][1]) / 2, -s * (b[1][0] + b[1][1]) / 2))


def overlap_pair(d, kind):
    """two meshes in relative position: generic (random placement) or with coincidences (dyadic placement)"""
    if kind == 'straight':
        a, b = straight(d), straight(d)
    elif kind == 'mixed':
        a, b = straight(d, 2), curved2(d)
        if d.bool():
            a, b = b, a
    else:
        a, b = curved2(d), curved2(d)
    return norm_center(a), norm_center(b)


def place(d, b, generic):
    if generic:
        return rot(b, d.uniform(0, 6.28), d.uniform(.4, 1.8), (d.uniform(-1.2, 1.2), d.uniform(-1.2, 1.2)))
    return rot(b, 0., d.choice([1., .5, 2.]), (d.sint(4) / 4., d.sint(4) / 4.))


def check_partition(d, A, B, R, n1, n2, what, tol=1e-8):
    """R partitions A; n1, n2 give for each cell of R the cells of A and B it comes from"""
    eq(d, (len(n1), len(n2)), (R.nc, R.nc), what + ': sizes of the returned arrays')
    d.check(all(0 <= i < A.nc for i in n1), '%s: first array %r' % (what, n1))
    d.check(all(-1 <= i < B.nc for i in n2), '%s: second array %r' % (what, n2))
    sg = 1 if area(A, 0) > 0 else -1
    ar = [sg * area(R, i) for i in range(R.nc)]
    for i in range(R.nc):
        d.check(ar[i] > -tol, '%s: cell %d has the area %r' % (what, i, ar[i]))
    for i in range(A.nc):
        s = sum(ar[k] for k in range(R.nc) if n1[k] == i)
        d.check(close(s, sg * area(A, i), tol), '%s: parts of cell %d have the total area %r, the cell %r' % (what, i, s, area(A, i)))
    if not A.curved and not B.curved:
        for i in range(A.nc):
            for j in range(B.nc):
                s = sum(ar[k] for k in range(R.nc) if n1[k] == i and n2[k] == j)
                w = convex_inter2d(ccw(A, i), ccw(B, j))[0]
                d.check(close(s, w, tol), '%s: overlap of cells %d and %d is %r, the exact one %r' % (what, i, j, s, w))
    sample_points(d, A, B, R, n1, n2, what)


def ccw(g, i):
    ps = [g.xyz[e[0]] for e in g.edges[i]]
    return ps if poly_area(ps) > 0 else ps[::-1]


def sample_points(d, A, B, R, n1, n2, what, npts=40):
    bb = bbox(A.xyz)
    nh = 0
    for _ in range(npts):
        p = (d.uniform(bb[0][0] - .05, bb[0][1] + .05), d.uniform(bb[1][0] - .05, bb[1][1] + .05))
        ia, ib, ir = where(A, p), where(B, p), where(R, p)
        if ia is None or ib is None or ir is None:
            continue
        nh += 1
        d.check(len(ia) < 2 and len(ib) < 2, 'overlapping input')
        d.check(len(ir) == len(ia), '%s: point %r is in cells %r of the first mesh and in cells %r of the result' % (what, p, ia, ir))
        if ia:
            k = ir[0]
            d.check(n1[k] == ia[0] and n2[k] == (ib[0] if ib else -1), '%s: point %r in cells %r and %r is in the cell %d of the result coming from %d and %d' % (what, p, ia, ib, k, n1[k], n2[k]))
    return nh


def to2(pm, d=None):
    m = to_mc(pm)
    return m


@check(n=1500, rule='a cell of the first mesh is cut')
def intersect(d):
    """Intersect2DMeshes: areas, mapping arrays, point by point membership, conformity"""
    kind = d.weighted([(5, 'straight'), (3, 'mixed'), (3, 'curved')])
    generic = d.bool(.7)
    A, B = overlap_pair(d, kind)
    B = place(d, B, generic)
    if kind == 'straight' and d.bool(.1):
        B = PM(2, 2, list(A.xyz), list(A.cells), 'same')
    sg = d.choice([1, -1])
    if sg < 0:
        A, B = flip(A), flip(B)
    A, B = Geo(A), Geo(B)
    d.assume(A.ok and B.ok)
    eps = 1e-10
    d.assume(clearance(A, B, 1e-4 if generic else 0.))
    # known finding demo_touching_hole
    d.assume(generic or not makes_hole(A, B))
    d.label(kind, 'generic' if generic else 'coincidences')
    d.sample('%s %r %r' % (kind, A, B))
    a, b = to_mc(A), to_mc(B)
    a0, b0 = a.deepCopy(), b.deepCopy()
    try:
        r, c1, c2 = mc.MEDCouplingUMesh.Intersect2DMeshes(a, b, eps)
    except InterpKernelException as e:
        # a cell with a hole cannot be represented
        d.check('simply connex' in str(e) and makes_hole(A, B), 'Intersect2DMeshes raised: %s' % e)
        raise Discard()
    d.check(a.isEqual(a0, 0.) and b.isEqual(b0, 0.), 'Intersect2DMeshes modified its arguments')
    r.checkConsistency()
    R = Geo(from_mc(r))
    n1, n2 = L(c1), L(c2)
    d.nontrivial(R.nc > A.nc)
    check_partition(d, A, B, R, n1, n2, 'Intersect2DMeshes')
    conform(d, A, R, 'Intersect2DMeshes')
    # nodes of the first mesh come first
    near(d, [x for p in R.xyz[:A.nn] for x in p], [x for p in A.xyz for x in p], 'Intersect2DMeshes: first nodes', 1e-9)


def demo_touching_hole():
    ms = []
    for n, xyz in (('A', [(-1., -1.), (1., -1.), (-1., 1.), (1., 1.)]), ('B', [(0., -.5), (.5, -.5), (0., .5), (1., .5)])):
        m = mc.MEDCouplingUMesh(n, 2)
        m.setCoords(Dbl(xyz, 2))
        m.allocateCells()
        m.insertNextCell(mc.NORM_QUAD4, [0, 1, 3, 2])
        ms.append(m)
    r, c1, c2 = mc.MEDCouplingUMesh.Intersect2DMeshes(ms[0], ms[1], 1e-10)
    return not close(sum(r.getMeasureField(True).getArray().getValues()), 4., 1e-6)


def polyline(d):
    """connected line crossing the unit box, some arcs"""
    n = d.int(1, 5)
    closed = n > 2 and d.bool(.2)
    pts = [(d.uniform(-1.3, 1.3), d.uniform(-1.3, 1.3)) for _ in range(n + (not closed))]
    return pts, closed


@check(n=1500, rule='a cell is cut')
def cutline(d):
    """Intersect2DMeshWith1DLine: partition of the mesh, pieces of line with the cells on their sides"""
    kind = d.weighted([(5, 'straight'), (3, 'curved')])
    generic = d.bool(.75)
    A = norm_center(straight(d) if kind == 'straight' else curved2(d))
    q = d.bool(.3)
    if generic:
        pts, closed = polyline(d)
    else:
        n = d.int(1, 4)
        closed = False
        pts = [A.xyz[d.below(A.nn)] if d.bool(.4) else (d.sint(4) / 4., d.sint(4) / 4.) for _ in range(n + 1)]
    m = len(pts)
    segs = [(k, (k + 1) % m) for k in range(m if closed else m - 1)]
    d.assume(simple(pts, segs))
    xyz = list(pts)
    cells = []
    for s, e in segs:
        if q:
            u = sub(xyz[e], xyz[s])
            k = d.choice([0, 0, .1, -.15])
            xyz.append(add(mul(add(xyz[s], xyz[e]), .5), (-u[1] * k, u[0] * k)))
            cells.append((SEG3, [s, e, len(xyz) - 1]))
        else:
            cells.append((SEG2, [s, e]))
    if d.bool(.3):
        cells = [(t, [c[1], c[0]] + c[2:]) for t, c in cells[::-1]]
    Ln = PM(2, 1, xyz, cells, 'line')
    A = Geo(flip(A))
    G = Geo(Ln)
    d.assume(A.ok and not (q and self_cross(G)))
    d.assume(clearance(A, G, 1e-4 if generic else 0.))
    d.label(kind, 'generic' if generic else 'coincidences', 'arcs' if q else 'segments')
    d.sample('%r %r' % (A, Ln))
    a, b = to_mc(A), to_mc(Ln)
    a0, b0 = a.deepCopy(), b.deepCopy()
    r2, r1, c2, c1 = mc.MEDCouplingUMesh.Intersect2DMeshWith1DLine(a, b, 1e-10)
    d.check(a.isEqual(a0, 0.) and b.isEqual(b0, 0.), 'Intersect2DMeshWith1DLine modified its arguments')
    r2.checkConsistency()
    r1.checkConsistency()
    R, S = Geo(from_mc(r2)), Geo(from_mc(r1))
    n1 = L(c2)
    eq(d, len(n1), R.nc, 'size of the ids in the 2D mesh')
    d.nontrivial(R.nc > A.nc)
    ar = [-area(R, i) for i in range(R.nc)]
    for i in range(A.nc):
        s = sum(ar[k] for k in range(R.nc) if n1[k] == i)
        d.check(close(s, -area(A, i), 1e-8), 'parts of cell %d have the total area %r, the cell %r' % (i, s, area(A, i)))
    d.check(all(x > -1e-9 for x in ar), 'negative areas %r' % (ar,))
    E = Geo(PM(2, 2, [(50., 50.), (51., 50.), (50., 51.)], [(TRI3, [0, 1, 2])], 'far'))
    sample_points(d, A, E, R, n1, [-1] * R.nc, 'Intersect2DMeshWith1DLine', 20)
    if generic:  # otherwise the end of a line on an edge does not split the cell on the other side
        conform(d, A, R, 'Intersect2DMeshWith1DLine')
    # the line is kept
    near(d, [sum(length(S, i) for i in range(S.nc))], [sum(length(G, i) for i in range(G.nc))], 'length of the split line', 1e-8)
    sides = T(c1)
    eq(d, (len(sides), len(sides[0])), (S.nc, 2), 'sizes of the ids on the sides of the line')
    for i in range(S.nc):
        p, u = middle(S, i)
        if length(S, i) < 1e-3:
            continue
        # the pieces follow the line
        dist = min(dist_edge(G, k, p) for k in range(G.nc))
        d.check(dist < 1e-7, 'the middle %r of the piece %d of the line is at %g of the line' % (p, i, dist))
        others = [x for es in R.edges for e in es for x in [dist_e(R, e, p)] if x > 1e-8]
        if min(others) < 1e-3:
            continue
        for side, nrm in ((0, (-u[1], u[0])), (1, (u[1], -u[0]))):
            x = (p[0] + nrm[0] * 2e-4, p[1] + nrm[1] * 2e-4)
            w = where(R, x, 3e-5)
            if w is None:
                continue
            d.check(len(w) < 2, 'point %r is in several cells %r of the result' % (x, w))
            eq(d, sides[i][side], w[0] if w else -1, 'cell on the %s of the piece %d of the line at %r' % (['left', 'right'][side], i, p))


@check(n=1500, rule='a cell is subdivided')
def conformize(d):
    """conformize2D of meshes with hanging nodes: same areas and regions, conformal"""
    kind = d.weighted([(5, 'hanging'), (3, 'strips'), (2, 'curved')])
    if kind == 'strips':
        # rows of cells with unrelated abscissas
        ny = d.int(2, 4)
        xs = [sorted({0., 8.} | {float(d.int(1, 7)) for _ in range(d.int(0, 3))}) for _ in range(ny)]
        xyz, cells, ids = [], [], {}
        merged = True

        def node(x, y):
            if (x, y) not in ids:
                ids[(x, y)] = len(xyz)
                xyz.append((x, y))
            return ids[(x, y)]
        for j in range(ny):
            for a, b in zip(xs[j], xs[j][1:]):
                c = [node(a, j), node(b, j), node(b, j + 1), node(a, j + 1)]
                cells.append((d.choice([QUAD4, POLYGON]), c))
        pm = PM(2, 2, [tuple(map(float, p)) for p in xyz], cells, 'strips')
        if d.bool():
            a = d.uniform(0, 6.28)
            pm = rot(pm, a, 1., (0., 0.))
    elif kind == 'hanging':
        pm = straight(d)
        # remove the hanging node from one side: nodes in the middle of edges used by one cell only
        xyz, cells = list(pm.xyz), [(t, list(c)) for t, c in pm.cells]
        es = {}
        for i, (t, c) in enumerate(cells):
            for k in range(len(c)):
                es.setdefault(frozenset((c[k], c[(k + 1) % len(c)])), []).append(i)
        for e in sorted(es, key=sorted):
            if len(es[e]) == 2 and d.bool(.4):
                i = es[e][d.below(2)]
                a, b = sorted(e)
                ts = sorted({d.int(1, 7) / 8. for _ in range(d.int(1, 2))})
                ps = []
                for s in ts:
                    ps.append(len(xyz))
                    xyz.append(add(mul(xyz[a], 1 - s), mul(xyz[b], s)))
                c = cells[i][1]
                k = [k for k in range(len(c)) if {c[k], c[(k + 1) % len(c)]} == {a, b}][0]
                if c[k] == b:
                    ps = ps[::-1]
                cells[i] = (POLYGON, c[:k + 1] + ps + c[k + 1:])
        pm = PM(2, 2, xyz, cells, 'hanging')
    else:
        # a disc in one cell, and ring sectors around it with another number of sectors
        n, m2 = d.int(2, 4), d.int(2, 5)
        a0, a1 = d.uniform(0, 1), d.uniform(0, 1)
        r = 1.5
        xyz, cells = [], []

        def nd(r, a):
            xyz.append((r * math.cos(a), r * math.sin(a)))
            return len(xyz) - 1
        A_ = [a0 + 2 * math.pi * k / n for k in range(n)]
        cells.append((QPOLYG, [nd(1., a) for a in A_] + [nd(1., a + math.pi / n) for a in A_]))
        B_ = [a1 + 2 * math.pi * k / m2 for k in range(m2)]
        inn, out = [nd(1., a) for a in B_], [nd(r, a) for a in B_]
        mid = [nd((1 + r) / 2, a) for a in B_]
        mi, mo = [nd(1., a + math.pi / m2) for a in B_], [nd(r, a + math.pi / m2) for a in B_]
        for k in range(m2):
            q = (k + 1) % m2
            cells.append((QPOLYG, [inn[k], out[k], out[q], inn[q], mid[k], mo[k], mid[q], mi[k]]))
        dd = [dist(xyz[a], xyz[b]) for a in range(len(xyz)) for b in range(a)]
        d.assume(min(dd) > 1e-2)
        pm = PM(2, 2, xyz, cells, 'ring')
    pm = gen.shuffle(d, pm) if kind != 'curved' else pm
    A = Geo(pm)
    m = to_mc(pm)
    d.label(kind)
    d.sample(repr(pm))
    ids = L(m.conformize2D(1e-10))
    m.checkConsistency()
    R = Geo(from_mc(m))
    d.nontrivial(len(ids) > 0)
    eq(d, R.nc, A.nc, 'number of cells')
    near(d, [x for p in R.xyz[:A.nn] for x in p], [x for p in A.xyz for x in p], 'first nodes', 1e-9)
    for i in range(A.nc):
        near(d, [area(R, i)], [area(A, i)], 'area of cell %d' % i, 1e-9)
        if i not in ids:
            eq(d, (R.cells[i][0], list(R.cells[i][1])), (A.cells[i][0], list(A.cells[i][1])), 'cell %d not in the returned ids %r' % (i, ids))
        else:
            eq(d, R.cells[i][0], QPOLYG if kind == 'curved' else POLYGON, 'type of the modified cell %d' % i)
    E = Geo(PM(2, 2, [(50., 50.), (51., 50.), (50., 51.)], [(TRI3, [0, 1, 2])], 'far'))
    sample_points(d, A, E, R, list(range(A.nc)), [-1] * A.nc, 'conformize2D', 15)
    conform_self(d, R, 'conformize2D')
    # exactly the cells having a node of another inside one of their edges are modified
    if kind != 'curved':
        used = {v for _, c in A.cells for v in c}
        want = []
        for i, (t, c) in enumerate(A.cells):
            if any(pt_seg_dist(A.xyz[v], A.xyz[c[k]], A.xyz[c[(k + 1) % len(c)]]) < 1e-9 for v in used if v not in c for k in range(len(c))):
                want.append(i)
        eq(d, sorted(ids), want, 'cells modified by conformize2D')
        eq(d, R.nn, A.nn, 'conformize2D of straight cells adds no node')
    ids2 = L(m.conformize2D(1e-10))
    eq(d, ids2, [], 'conformize2D on a conformal mesh')


@check(n=1200, rule='several cells')
def union(d):
    """buildUnionOf2DMesh, buildSpreadZonesWithPoly: contour of the union of the cells"""
    pm = straight(d)
    if d.bool(.5):
        pm = PM(2, 2, pm.xyz, [pm.cells[i] for i in d.sample_ids(pm.nc, d.int(1, pm.nc))], 'part')
    A = Geo(pm)
    d.nontrivial(A.nc > 1)
    d.sample(repr(pm))
    m = to_mc(pm)
    comps = components(pm)
    d.label('%d components' % min(len(comps), 3))
    tot = sum(area(A, i) for i in range(A.nc))
    ok = all(simple_contour(pm, c) for c in comps)
    if ok:
        z = m.buildSpreadZonesWithPoly()
        z.checkConsistency()
        R = Geo(from_mc(z))
        eq(d, R.nc, len(comps), 'number of zones')
        near(d, sorted(abs(area(R, i)) for i in range(R.nc)), sorted(sum(area(A, i) for i in c) for c in comps), 'areas of the zones', 1e-9)
        if len(comps) == 1:
            ids = L(m.buildUnionOf2DMesh())
            eq(d, ids[0], POLYGON, 'type of the union')
            ids = ids[1:]
            near(d, [abs(poly_area([pm.xyz[v] for v in ids]))], [tot], 'area of the contour %r of the union' % (ids,), 1e-9)
            bd = boundary_nodes(pm)
            eq(d, sorted(ids), sorted(bd), 'nodes of the contour of the union')


@check(n=1200, rule='a node is removed')
def colinear(d):
    """colinearizeKeepingConform2D and colinearize2D then conformize2D keep regions"""
    pm = straight(d)
    if d.bool(.7):
        pm = gen.add_hanging(d, pm)
    A = Geo(pm)
    m = to_mc(pm)
    conf = d.bool()
    ids = L(m.colinearizeKeepingConform2D(1e-9) if conf else m.colinearize2D(1e-9))
    m.checkConsistency()
    R = Geo(from_mc(m))
    d.nontrivial(len(ids) > 0)
    d.label('keeping conformity' if conf else 'any')
    d.sample(repr(pm))
    eq(d, R.nc, A.nc, 'number of cells')
    for i in range(A.nc):
        near(d, [area(R, i)], [area(A, i)], 'area of cell %d' % i, 1e-9)
        d.check((len(R.cells[i][1]) < len(A.cells[i][1])) == (i in ids), 'returned ids %r, cell %d has %d nodes, %d before' % (ids, i, len(R.cells[i][1]), len(A.cells[i][1])))
        d.check(set(R.cells[i][1]) <= set(A.cells[i][1]), 'nodes of cell %d' % i)
        d.check(pm.nc != 1 or not conf or not any(straight_node(pm, list(R.cells[i][1]), k) for k in range(len(R.cells[i][1]))), 'colinear edges remain in cell %d' % i)
        if not conf:
            d.check(not any(straight_node(pm, list(R.cells[i][1]), k) for k in range(len(R.cells[i][1]))), 'colinear edges remain in cell %d: %r' % (i, R.cells[i][1]))
    if conf:
        conform_self(d, R, 'colinearizeKeepingConform2D')
    else:
        m.conformize2D(1e-9)
        conform_self(d, Geo(from_mc(m)), 'colinearize2D, conformize2D')
