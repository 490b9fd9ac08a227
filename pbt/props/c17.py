"""C17 extruded meshes: model of the extrusion (translation, rotation), mapped extruded meshes rebuilt from shuffled 3D meshes, fields and interpolation."""
from common import *
from ref import *
import gen
from interp import remap

ASSUMPTIONS = ['measures of a mapped extruded mesh are compared for extrusions orthogonal to the base', 'quadratic bases: SEG3, TRI6, QUAD8 (others are refused)']


def vsum(p, q):
    return tuple(a + b for a, b in zip(p, q))


def poly_line(d, sd, n, straight=None):
    """n+1 points of a path"""
    st = d.bool(.4) if straight is None else straight
    p = [tuple(d.sint(8) / 4 for _ in range(sd))]
    if st:
        zs = gen.incr(d, n + 1)
        s = d.choice([1, 1, -1])
        return [tuple(list(p[0][:-1]) + [s * (z - zs[0])]) for z in zs], True
    for _ in range(n):
        p.append(vsum(p[-1], [d.sint(6) / 4 for _ in range(sd - 1)] + [d.int(1, 6) / 4]))
    return p, False


def line(d, pts, quad, noise=True):
    """contiguous 1D mesh over pts (with shuffled node numbering)"""
    sd = len(pts[0])
    perm = d.perm(len(pts)) if d.bool(.5) else list(range(len(pts)))
    inv = {k: i for i, k in enumerate(perm)}
    xyz = [pts[k] for k in perm]
    if quad:
        cells = [(SEG3, [inv[i], inv[i + 2], inv[i + 1]]) for i in range(0, len(pts) - 1, 2)]
    else:
        cells = [(SEG2, [inv[i], inv[i + 1]]) for i in range(len(pts) - 1)]
    return PM(sd, 1, xyz, cells, 'line')


def base(d, quad, md=2):
    if md == 1:
        b = gen.seg_mesh(d, 2, 6)
        pm = PM(2, 1, b.xyz, b.cells, 'base')
    else:
        b = gen.mesh2d(d, d.int(1, 3), ('quad', 'tri') if quad else ('quad', 'tri', 'poly', 'merge', 'center'))
        pm = PM(3, 2, [tuple(p) + (0.,) for p in b.xyz], b.cells, 'base')
    if quad:
        pm = gen.quadratic(pm, d)
        pm = PM(pm.sd, pm.md, [tuple(p) for p in pm.xyz], pm.cells, 'base')
    return gen.shuffle(d, pm)


def ext_faces(c, n):
    u = [v + n for v in c]
    return sorted([sorted(c), sorted(u)] + [sorted([c[i], c[(i + 1) % len(c)], u[i], u[(i + 1) % len(c)]]) for i in range(len(c))])


def ext_cell(t, c, n, quad):
    """expected type and connectivity (None for polyhedra: compared by faces)"""
    z = 2 * n if quad else n
    up = lambda l, k=z: [v + k for v in l]
    if t == SEG2:
        return QUAD4, [c[0], c[1], c[1] + z, c[0] + z]
    if t == SEG3:
        return QUAD8, [c[0], c[1], c[1] + z, c[0] + z, c[2], c[1] + n, c[2] + z, c[0] + n]
    if t in (TRI3, QUAD4):
        return (PENTA6 if t == TRI3 else HEXA8), c + up(c)
    if t in (TRI6, QUAD8):
        k = 3 if t == TRI6 else 4
        return (PENTA15 if k == 3 else HEXA20), c[:k] + up(c[:k]) + c[k:] + up(c[k:]) + up(c[:k], n)
    return POLYHED, None


def check_ext(d, b, r, pts, quad):
    """r is the layer-major extrusion of b along pts"""
    n, nl = b.nn, (len(pts) - 1) // (2 if quad else 1)
    got = from_mc(r)
    eq(d, got.nc, nl * b.nc, 'number of cells')
    for k in range(nl):
        for i, (t, c) in enumerate(b.cells):
            off = k * (2 * n if quad else n)
            et, ec = ext_cell(t, c, n, quad)
            gt, gc = got.cells[k * b.nc + i]
            eq(d, gt, et, 'type of cell %d of layer %d' % (i, k))
            if ec is not None:
                eq(d, gc, [v + off for v in ec], 'connectivity of cell %d of layer %d' % (i, k))
            else:
                eq(d, sorted(sorted(f) for f in poly_faces(gc)), [[v + off for v in f] for f in ext_faces(c, n)], 'faces of cell %d of layer %d' % (i, k))
    return got


@check(n=6000, rule='at least two layers')
def translation(d):
    """buildExtrudedMesh by translation: numbering, coordinates, connectivity and measures"""
    md = d.choice([1, 2, 2, 2])
    quad = d.bool(.3)
    b = base(d, quad, md)
    nl = d.int(1, 4)
    pts, straight = poly_line(d, md + 1, nl * (2 if quad else 1))
    l = line(d, pts, quad)
    m = to_mc(b)
    m.getCoords().setInfoOnComponents(['X [m]', 'Y [m]', 'Z [m]'][:md + 1])
    A = None
    ml = to_mc(l)
    if md == 2 and d.bool(.4):       # rotate everything in space
        A = gen.rotation3(d)
        b = PM(3, 2, [gen.apply3(A, (0., 0, 0), p) for p in b.xyz], b.cells, b.name)
        pts = [gen.apply3(A, (0., 0, 0), p) for p in pts]
        l = PM(3, 1, [gen.apply3(A, (0., 0, 0), p) for p in l.xyz], l.cells, l.name)
        m, ml = to_mc(b), to_mc(l)
    d.label('dim%d%s%s' % (md, ' quadratic' if quad else '', ' straight' if straight else ''))
    d.nontrivial(nl > 1)
    d.sample('%d cells of dimension %d x %d layers' % (b.nc, md, nl))
    infos = m.getCoords().getInfoOnComponents()
    r = m.buildExtrudedMesh(ml, 0)
    r.checkConsistency(1e-12)
    eq(d, r.getMeshDimension(), md + 1, 'dimension')
    eq(d, r.getCoords().getInfoOnComponents(), infos, 'component infos')
    d.check(r.getCoords().getHiddenCppPointer() == m.getCoords().getHiddenCppPointer(), 'coordinates are not shared with the base')
    got = check_ext(d, b, r, pts, quad)
    eq(d, got.nn, b.nn * len(pts), 'number of nodes')
    sc = max(abs(x) for p in b.xyz + pts for x in p)
    for k, p in enumerate(pts):
        X = sub(p, pts[0])
        for i in range(b.nn):
            near(d, got.xyz[k * b.nn + i], vsum(b.xyz[i], X), 'node %d of level %d' % (i, k), 1e-12, sc)
    if straight or md == 1 or not quad:
        meas = r.getMeasureField(True).getArray().getValues()
        # measure of a prism over a flat base: |normal area . translation|
        pos = 2 if quad else 1
        for k in range(nl):
            X = sub(pts[(k + 1) * pos], pts[k * pos])
            for i, (t, c) in enumerate(b.cells):
                if quad:
                    t, c = linear_conn(t, c)
                if md == 1:
                    e = sub(b.xyz[c[1]], b.xyz[c[0]])
                    w = abs(e[0] * X[1] - e[1] * X[0])
                else:
                    S = poly_area_vec([b.xyz[v] for v in c])
                    w = abs(dot(S, X))
                if not quad or straight:
                    d.check(close(meas[k * b.nc + i], w, 1e-9, sc ** (md + 1)) or (quad and t not in (TRI3, QUAD4, SEG2)), 'measure of cell %d of layer %d is %r, expected %r' % (i, k, meas[k * b.nc + i], w))


def poly_area_vec(ps):
    S = (0., 0., 0.)
    for a, b in zip(ps, ps[1:] + ps[:1]):
        S = vsum(S, cross(sub(a, ps[0]), sub(b, ps[0])))
    return tuple(.5 * x for x in S)


@check(n=3000, rule='arc with at least two segments')
def rotation(d):
    """buildExtrudedMesh with translation and rotation along an arc of circle: rigid rotations of the base about the centre"""
    md = d.choice([1, 2, 2])
    b = base(d, False, md)
    n = d.int(2, 4)
    sgn = d.choice([1, -1])
    R = d.choice([1., 2., 5.])
    tot = d.uniform(.3, 3.9 if n == 2 else 5.5)
    w = [d.uniform(.5, 1.5) for _ in range(n)]
    ang = [0.]
    for x in w:
        ang.append(ang[-1] + sgn * tot * x / sum(w))
    c0 = [d.sint(8) / 4 for _ in range(2)]
    a0 = d.uniform(0, 6.3)
    pts2 = [(c0[0] + R * math.cos(a0 + a), c0[1] + R * math.sin(a0 + a)) for a in ang]

    def turn(p, a):
        x, y = p[0] - c0[0], p[1] - c0[1]
        return (c0[0] + x * math.cos(a) - y * math.sin(a), c0[1] + x * math.sin(a) + y * math.cos(a)) + tuple(p[2:])
    if md == 1:
        pts = pts2
        want = [turn(p, a) for a in ang for p in b.xyz]
    else:
        pts = [p + (.5,) for p in pts2]
        want = [turn(p, a) for a in ang for p in b.xyz]
        mode = d.choice(['flat', 'swap', 'swap', 'rot'])
        d.label(mode)
        if mode != 'flat':
            A = gen.rotation3(d) if mode == 'rot' else d.choice([[[0., 0, 1], [1., 0, 0], [0, 1., 0]], [[0., 1, 0], [0., 0, 1], [1., 0, 0]], [[1., 0, 0], [0, 0, -1.], [0, 1., 0]], [[1., 0, 0], [0, -1., 0], [0, 0, -1.]]])
            f = lambda p: gen.apply3(A, (0., 0, 0), p)
            b = PM(3, 2, [f(p) for p in b.xyz], b.cells, b.name)
            pts, want = [f(p) for p in pts], [f(p) for p in want]
    d.label('dim%d sign%+d' % (md, sgn))
    d.nontrivial(True)
    d.sample('dimension %d, %d segments, total angle %.3f' % (md, n, sgn * tot))
    m = to_mc(b)
    r = m.buildExtrudedMesh(to_mc(line(d, pts, False)), 1)
    check_ext(d, b, r, pts, False)
    near(d, flat(T(r.getCoords())), flat(want), 'coordinates', 1e-7, max(abs(x) for p in want for x in p) + R)


def flat(v):
    return [x for t in v for x in t]


@check(n=1500, rule='at least two layers')
def connectivity(d):
    """extrudeConnectivity: same cells as buildExtrudedMesh, coordinates of the base only"""
    quad = d.bool(.3)
    b = base(d, quad)
    d.assume(all(t != POLYGON for t, _ in b.cells))
    nl = d.int(1, 3)
    m = to_mc(b)
    r = m.extrudeConnectivity(nl)
    d.nontrivial(nl > 1)
    d.sample('%d cells x %d' % (b.nc, nl))
    c, ci = L(r.getNodalConnectivity()), L(r.getNodalConnectivityIndex())
    cells = [(c[x], c[x + 1:y]) for x, y in zip(ci, ci[1:])]
    want = []
    for k in range(nl):
        for t, q in b.cells:
            et, ec = ext_cell(t, q, b.nn, quad)
            want.append((et, [v + k * b.nn * (2 if quad else 1) for v in ec]))
    eq(d, cells, want, 'cells')
    eq(d, from_mc(m).xyz, [tuple(p) for p in b.xyz], 'the base is untouched')


@check(n=2500, rule='some cells were badly oriented and some not')
def orientation(d):
    """findAndCorrectBadOriented3DExtrudedCells after extruding in both directions of a base with mixed orientations"""
    b = base(d, False)
    inv = set(d.subset(b.nc))
    cells = [(t, c[:1] + c[1:][::-1]) if i in inv else (t, c) for i, (t, c) in enumerate(b.cells)]
    b = PM(3, 2, b.xyz, cells, 'b')
    sgn = d.choice([1, -1])
    nl = d.int(1, 3)
    pts = [(0., 0., sgn * k / 2) for k in range(nl + 1)]
    r = to_mc(b).buildExtrudedMesh(to_mc(line(d, pts, False)), 0)
    before = r.getMeasureField(False).getArray().getValues()
    bad = [i for i, v in enumerate(before) if v < 0 and r.getTypeOfCell(i) != POLYHED]
    d.nontrivial(0 < len(bad) < len(before))
    d.sample('%d bad of %d' % (len(bad), len(before)))
    for i, v in enumerate(before):
        t, c = cells[i % b.nc]
        s = poly_area_vec([b.xyz[k] for k in c])[2] * sgn
        if r.getTypeOfCell(i) != POLYHED:
            d.check((v < 0) == (s > 0), 'cell %d: measure %r, base area %r along the extrusion' % (i, v, s))
    eq(d, L(r.findAndCorrectBadOriented3DExtrudedCells()), bad, 'corrected cells')
    after = r.getMeasureField(False).getArray().getValues()
    near(d, [v for i, v in enumerate(after) if r.getTypeOfCell(i) != POLYHED], [abs(v) for i, v in enumerate(before) if r.getTypeOfCell(i) != POLYHED], 'measures after correction')
    eq(d, L(r.findAndCorrectBadOriented3DExtrudedCells()), [], 'second correction')


def stack(d, straight=None, cmax=3):
    """3D mesh made of layers with random numbering, its base and the expected permutation (layer-major -> 3D cell)"""
    b2 = gen.mesh2d(d, d.int(1, cmax), ('quad', 'tri', 'poly', 'merge', 'center'))
    n, nl = b2.nn, d.int(1, 4)
    pts, st = poly_line(d, 3, nl, straight)
    pts = [p[:2] + (abs(p[2] - pts[0][2]) + pts[0][2],) if st else p for p in pts]
    xyz0, cells = gen.extrude_cells(b2, [0.] * (nl + 1), d, polyh=d.choice([0., 0., .3]))
    xyz = [vsum(tuple(b2.xyz[i]) + (0.,), pts[k]) for k in range(nl + 1) for i in range(n)]
    # random numbering of nodes and of cells
    extra = d.int(0, 2) if d.bool(.3) else 0
    xyz += [tuple(d.sint(40) / 4 for _ in range(3)) for _ in range(extra)]
    np_ = d.perm(len(xyz)) if d.bool(.7) else list(range(len(xyz)))     # old -> new
    cp = d.perm(len(cells)) if d.bool(.8) else list(range(len(cells)))  # old -> new
    X = [None] * len(xyz)
    for i, k in enumerate(np_):
        X[k] = xyz[i]
    C = [None] * len(cells)
    for i, (t, c) in enumerate(cells):
        C[cp[i]] = gen.rotate_cell(d, t, [v if v < 0 else np_[v] for v in c]) if t == POLYHED else (t, [np_[v] for v in c])
    m3 = PM(3, 3, X, C, 'vol')
    top = d.bool(.3)
    bp = d.perm(b2.nc) if d.bool(.6) else list(range(b2.nc))            # base cell -> planar cell
    bc = []
    for i in bp:
        t, c = b2.cells[i]
        t, c = gen.rotate_cell(d, {3: TRI3, 4: QUAD4}.get(len(c), POLYGON), [np_[v + (nl * n if top else 0)] for v in c])
        bc.append((t, c[::-1] if d.bool(.3) else c))
    m2 = PM(3, 2, X, bc, 'base')
    order = range(nl - 1, -1, -1) if top else range(nl)
    ids = [cp[l * b2.nc + i] for l in order for i in bp]
    path = pts[::-1] if top else pts
    return m3, m2, ids, path, b2, bp, nl


def mapped(d, m3, m2, cid):
    a = to_mc(m3, 'vol')
    a.setDescription('desc')
    b = to_mc(m2, 'base')
    b.setCoords(a.getCoords())
    return a, b, mc.MEDCouplingMappedExtrudedMesh(a, b, cid)


@check(n=5000, rule='at least two layers and two base cells')
def mapped_mesh(d):
    """mapped extruded mesh from any numbering: base, line, permutation, rebuilt 3D mesh, measures, counts, box"""
    m3, m2, ids, path, b2, bp, nl = stack(d)
    d.nontrivial(nl > 1 and b2.nc > 1)
    d.sample('%d base cells x %d layers' % (b2.nc, nl))
    cid = d.below(m2.nc)
    a, b, e = mapped(d, m3, m2, cid)
    eq(d, L(e.getMesh3DIds()), ids, 'ids of the 3D cells')
    eq(d, (e.getName(), e.getDescription(), e.getNumberOfCells(), e.getMeshDimension(), e.getSpaceDimension()), ('vol', 'desc', m3.nc, 3, 3), 'attributes')
    d.check(e.getMesh2D().isEqual(b, 1e-14), 'the base changed')
    l = e.getMesh1D()
    eq(d, from_mc(l).cells, [(SEG2, [i, i + 1]) for i in range(nl)], '1D cells')
    _, c = m2.cells[cid]
    bar = [sum(m3.xyz[v][k] for v in c) / len(c) for k in range(3)]
    sc = max(abs(x) for p in m3.xyz for x in p)
    near(d, flat(T(l.getCoords())), flat([vsum(bar, sub(p, path[0])) for p in path]), 'path', 1e-12, sc)
    # sorted view of the types
    types = [m2.cells[i % m2.nc][0] for i in range(m3.nc)]
    ext = {TRI3: PENTA6, QUAD4: HEXA8, POLYGON: POLYHED}
    want = [None] * m3.nc
    nbn = [None] * m3.nc
    for i, k in enumerate(ids):
        want[k] = ext[types[i]]
        nbn[k] = len(m2.cells[i % m2.nc][1])
    eq(d, [e.getTypeOfCell(i) for i in range(m3.nc)], want, 'types')
    eq(d, sorted(e.getAllGeoTypes()), sorted(set(want)), 'geometric types')
    for t in (PENTA6, HEXA8, POLYHED, TETRA4):
        eq(d, e.getNumberOfCellsWithType(t), want.count(t), 'number of cells of type %d' % t)
        eq(d, L(e.giveCellsWithType(t)), [i for i in range(m3.nc) if want[i] == t], 'cells of type %d' % t)
    eq(d, L(e.computeNbOfNodesPerCell()), [2 * v for v in nbn], 'nodes per cell')
    eq(d, L(e.computeNbOfFacesPerCell()), [2 + v for v in nbn], 'faces per cell')
    used = sorted({v for t, c in m3.cells for v in c if v >= 0})
    bb = e.getBoundingBox()
    near(d, flat(bb), [f(m3.xyz[v][k] for v in used) for k in range(3) for f in (min, max)], 'bounding box', 1e-12, sc)
    u = e.build3DUnstructuredMesh()
    u.checkConsistency(1e-12)
    d.check(u.isEqual(e.buildUnstructured(), 1e-13), 'buildUnstructured differs from build3DUnstructuredMesh')
    g = from_mc(u)
    eq(d, g.nc, m3.nc, 'number of cells of the rebuilt mesh')
    key = lambda pm, i: sorted(tuple(round(x * 2 ** 20) for x in pm.xyz[v]) for v in {v for v in pm.cells[i][1] if v >= 0})
    for i in range(m3.nc):
        eq(d, g.cells[i][0], want[i], 'type of rebuilt cell %d' % i)
        eq(d, key(g, i), key(m3, i), 'nodes of rebuilt cell %d' % i)
    vol = a.getMeasureField(True).getArray().getValues()
    near(d, u.getMeasureField(True).getArray().getValues(), vol, 'measures of the rebuilt mesh', 1e-10, sc ** 3)
    if all(abs(p[0] - path[0][0]) + abs(p[1] - path[0][1]) < 1e-12 for p in path):
        f = e.getMeasureField(True)
        near(d, f.getArray().getValues(), vol, 'measures', 1e-10, sc ** 3)
    # located cells
    bc = T(a.computeCellCenterOfMass())
    for i in d.sample_ids(m3.nc, min(3, m3.nc)) if all(is_convex2d([b2.xyz[v] for v in c]) for _, c in b2.cells) else []:
        eq(d, u.getCellContainingPoint(list(bc[i]), 1e-9), i, 'cell containing the barycentre of %d' % i)
    # copies and moves
    e2 = e.deepCopy()
    d.check(e.isEqual(e2, 1e-12), 'deep copy is different: ' + str(e.isEqualIfNotWhy(e2, 1e-12)))
    v = [d.sint(8) / 2 for _ in range(3)]
    e2.translate(v)
    w = e2.build3DUnstructuredMesh()
    u.translate(v)
    d.check(w.isEqual(u, 1e-9), 'translated mesh')
    d.check(sum(map(abs, v)) == 0 or not e.isEqual(e2, 1e-12), 'isEqual ignores a translation')
    c0, f = [d.sint(8) / 4 for _ in range(3)], d.choice([.5, 2.])
    e2.scale(c0, f)
    u.scale(c0, f)
    d.check(e2.build3DUnstructuredMesh().isEqual(u, 1e-9), 'scaled mesh')
    ax, an = [d.sint(3) * 1. for _ in range(2)] + [1.], d.uniform(-3, 3)
    e2.rotate(c0, ax, an)
    u.rotate(c0, ax, an)
    d.check(e2.build3DUnstructuredMesh().isEqual(u, 1e-9), 'rotated mesh')


@check(n=600, rule='the base does not fit')
def refused(d):
    """bases that are not a base of the mesh, or without shared coordinates, are refused"""
    m3, m2, ids, path, b2, bp, nl = stack(d)
    a = to_mc(m3, 'vol')
    b = to_mc(m2, 'base')
    d.nontrivial(True)
    k = d.below(3)
    if k == 0:
        d.check(raises(lambda: mc.MEDCouplingMappedExtrudedMesh(a, b, 0)), 'coordinates are not shared')
    elif k == 1 and m2.nc > 1 and nl > 1:
        q = PM(3, 2, m2.xyz, m2.cells[:-1], 'b')
        d.assume(m3.nc % q.nc != 0)
        b = to_mc(q)
        b.setCoords(a.getCoords())
        d.check(raises(lambda: mc.MEDCouplingMappedExtrudedMesh(a, b, 0)), 'a part of the base is accepted')
    else:
        t, c = m2.cells[0]
        other = [v for v in range(m3.nn) if v not in c]
        q = PM(3, 2, m2.xyz, [(t, [d.choice(other)] + c[1:])] + m2.cells[1:], 'b')
        face = sorted(q.cells[0][1])
        d.assume(all(not set(face) <= set(f) for tt, cc in m3.cells for _, f in cell_faces(tt, cc)))
        b = to_mc(q)
        b.setCoords(a.getCoords())
        d.check(raises(lambda: mc.MEDCouplingMappedExtrudedMesh(a, b, 0)), 'a cell that is no face is accepted')


@check(n=1500, rule='at least two cells in every direction')
def from_cartesian(d):
    """mapped extruded mesh of a Cartesian mesh: same cells in the same order"""
    c = mc.MEDCouplingCMesh('cart')
    ax = [gen.incr(d, d.int(2, 4)) for _ in range(3)]
    c.setCoords(*[mc.DataArrayDouble(v) for v in ax])
    d.nontrivial(all(len(v) > 2 for v in ax))
    d.sample('%s nodes' % [len(v) for v in ax])
    e = mc.MEDCouplingMappedExtrudedMesh(c)
    eq(d, L(e.getMesh3DIds()), list(range(c.getNumberOfCells())), 'ids')
    eq(d, e.getName(), 'cart', 'name')
    near(d, e.getMeasureField(True).getArray().getValues(), c.getMeasureField(True).getArray().getValues(), 'measures')
    u, w = e.build3DUnstructuredMesh(), c.buildUnstructured()
    near(d, flat(T(u.computeCellCenterOfMass())), flat(T(c.computeCellCenterOfMass())), 'barycentres', 1e-12, 50)


@check(n=2000, rule='at least two layers and two base cells')
def fields_on(d):
    """fields on a mapped extruded mesh: integrals, norms, averages, operations as on the 3D mesh"""
    m3, m2, ids, path, b2, bp, nl = stack(d, True)
    a, b, e = mapped(d, m3, m2, d.below(m2.nc))
    d.nontrivial(nl > 1 and m2.nc > 1)
    d.sample('%d cells' % m3.nc)
    nc = d.int(1, 3)
    vals = [tuple(d.sint(64) / 8 for _ in range(nc)) for _ in range(m3.nc)]
    fs = []
    for m in (e, a):
        f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.ONE_TIME)
        f.setMesh(m)
        f.setArray(Dbl(vals, nc))
        f.setNature(mc.IntensiveMaximum)
        f.setName('f')
        f.checkConsistencyLight()
        fs.append(f)
    f, g = fs
    sc = max(abs(x) for p in m3.xyz for x in p) ** 3
    for w in (True,):
        near(d, f.integral(w), g.integral(w), 'integral', 1e-9, sc)
        near(d, f.getWeightedAverageValue(w), g.getWeightedAverageValue(w), 'weighted average', 1e-9)
    near(d, f.normL1(), g.normL1(), 'L1 norm', 1e-9)
    near(d, f.normL2(), g.normL2(), 'L2 norm', 1e-9)
    near(d, f.buildMeasureField(True).getArray().getValues(), g.buildMeasureField(True).getArray().getValues(), 'measure field', 1e-9, sc)
    h = f + f
    near(d, flat(T(h.getArray())), [2 * x for x in flat(vals)], 'sum', 0, 0)
    u = e.build3DUnstructuredMesh()
    k = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.ONE_TIME)
    k.setMesh(u)
    k.setArray(f.getArray())
    bc = a.computeCellCenterOfMass()
    for i in d.sample_ids(m3.nc, min(3, m3.nc)) if all(is_convex2d([b2.xyz[v] for v in c]) for _, c in b2.cells) else []:
        near(d, k.getValueOn(list(T(bc)[i])), vals[i], 'value at the barycentre of cell %d' % i, 0, 0)
    f2 = f.deepCopy()
    d.check(f2.isEqual(f, 1e-12, 1e-12), 'deep copy')


@check(n=800, rule='both meshes have at least two layers')
def interpolation(d):
    """interpolation between two mapped extruded meshes equals that between their 3D meshes"""
    (m3, m2, ids, path, b2, bp, nl), (n3, n2, ids2, path2, c2, cp, ml) = stack(d, True, 2), stack(d, True, 2)
    d.assume(all(is_convex2d([q.xyz[v] for v in c]) for q in (b2, c2) for _, c in q.cells))
    a, b, e = mapped(d, m3, m2, d.below(m2.nc))
    a2, bb2, e2 = mapped(d, n3, n2, d.below(n2.nc))
    if d.bool(.5):                   # mixed planar shift
        v = [d.sint(4) / 8, d.sint(4) / 8, d.sint(4) / 8]
        e2 = e2.deepCopy()
        e2.translate(v)
        a2.translate(v)
    d.nontrivial(nl > 1 and ml > 1)
    d.sample('%d x %d cells' % (m3.nc, n3.nc))
    R = remap(d, e, e2).getCrudeMatrix()
    # oracle: exact convex intersections
    S = [[m3.xyz[v] for v in {v for v in c if v >= 0}] for t, c in m3.cells]
    X = T(a2.getCoords())
    g2 = lambda pts: (min(p[2] for p in pts), max(p[2] for p in pts))
    want = [{} for _ in range(n3.nc)]
    for jj, j in enumerate(ids2):
        pj = [X[v] for v in {v for v in n3.cells[j][1] if v >= 0}]
        zj = g2(pj)
        qj = hull2(pj)
        for ii, i in enumerate(ids):
            zi = g2(S[i])
            h = min(zi[1], zj[1]) - max(zi[0], zj[0])
            if h <= 0:
                continue
            ar = convex_inter2d(hull2(S[i]), qj)
            w = h * abs(ar if isinstance(ar, float) else ar[0])
            if w:
                want[j][i] = w
    for j in range(n3.nc):
        for i in set(want[j]) | set(R[j]):
            d.check(close(want[j].get(i, 0.), R[j].get(i, 0.), 1e-8, 1.), 'entry (%d,%d): got %r, expected %r' % (j, i, R[j].get(i), want[j].get(i)))


def hull2(ps):
    return gen.convex_hull(sorted({(p[0], p[1]) for p in ps}))
