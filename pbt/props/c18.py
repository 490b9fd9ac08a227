"""C18 single type meshes: every query and transformation compared with the general unstructured mesh holding the same cells, and with the model."""
from common import *
from ref import *
import gen
import copy

ASSUMPTIONS = ['geometrical queries on valid cells; simplexization of polygons and polyhedra is documented as doing nothing']
DYN = (POLYL, POLYGON, QPOLYG, POLYHED)


def one_type(pm, d=None):
    """keep the cells of one type"""
    ts = [t for t, _ in pm.cells]
    t = ts[0] if d is None else d.choice(ts)
    return PM(pm.sd, pm.md, pm.xyz, [c for c in pm.cells if c[0] == t], pm.name), t


def topo(d, types=None, empty=False):
    md = d.int(0, 3)
    t = d.choice(types or TYPES_BY_DIM[md])
    md = [k for k in TYPES_BY_DIM if t in TYPES_BY_DIM[k]][0] if types else md
    pm = gen.random_topo(d, md, None, [t], empty=empty)
    return pm, t


def valid(d, dims=(0, 1, 2, 3), quad=.25):
    pm = gen.any_mesh(d, dims, 3, quad)
    if d.bool(.25) and pm.md in (2, 3) and all(t in (TRI3, QUAD4, POLYGON, TETRA4, PYRA5, PENTA6, HEXA8, HEXGP12, POLYHED) for t, _ in pm.cells):
        if pm.md == 3:
            pm = PM(3, 3, pm.xyz, [gen.to_polyhed(t, c) if t != POLYHED else (t, c) for t, c in pm.cells], pm.name)
        else:
            pm = PM(pm.sd, 2, pm.xyz, [(POLYGON, c) for t, c in pm.cells], pm.name)
    return one_type(pm, d)


def pair(pm):
    u = to_mc(pm)
    u.setDescription('desc')
    u.setTime(1.5, 2, 3)
    u.setTimeUnit('s')
    u.getCoords().setInfoOnComponents(['c%d [m]' % i for i in range(pm.sd)])
    return u, mc.MEDCoupling1GTUMesh.New(u)


def norm(x):
    """comparable form of any result"""
    if isinstance(x, mc.MEDCouplingMesh):
        y = x if isinstance(x, mc.MEDCouplingUMesh) else x.buildUnstructured()
        p = from_mc(y)
        return ('mesh', p.sd, p.md, p.xyz, p.cells)
    if isinstance(x, mc.MEDCouplingFieldDouble):
        return ('field', norm(x.getArray()), x.getName(), x.getTypeOfField())
    if isinstance(x, (tuple, list, set, frozenset)):
        return [norm(v) for v in (sorted(x) if isinstance(x, (set, frozenset)) else x)]
    if hasattr(x, 'getNumberOfTuples'):
        return ('array', x.getNumberOfComponents(), L(x))
    return x


def same(d, a, b, what, eps=1e-11, scale=1.):
    """same structure, doubles compared with a tolerance"""
    if isinstance(a, float) and isinstance(b, (float, int)):
        d.check(close(a, b, eps, scale), '%s: %r / %r' % (what, a, b))
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            d.fail('%s: %s / %s' % (what, short(a), short(b)))
        for x, y in zip(a, b):
            same(d, x, y, what, eps, scale)
    elif a != b:
        d.fail('%s: %s / %s' % (what, short(a), short(b)))


def both(d, u, g, name, *args, post=None, eps=1e-11, scale=1., allow_raise=False):
    """call on both; post selects what is compared"""
    out = []
    for m in (u, g):
        try:
            r = getattr(m, name)(*[copy_arg(a) for a in args])
            out.append(('ok', norm(post(m, r) if post else r)))
        except InterpKernelException as e:
            out.append(('raised', str(e)))
    (ku, vu), (kg, vg) = out
    if ku != kg:
        d.fail('%s%s: %s on the unstructured mesh (%s), %s on the single type mesh (%s)' % (name, short([L(a) if hasattr(a, 'getNumberOfTuples') else a for a in args], 100), ku, short(vu, 200), kg, short(vg, 200)))
    if ku == 'ok':
        same(d, vu, vg, name + short([a if isinstance(a, (int, float, list)) else L(a) for a in args if not isinstance(a, mc.MEDCouplingMesh)], 150), eps, scale)
    else:
        d.check(allow_raise, '%s raised on both: %s' % (name, short(vu, 200)))
    return ku == 'ok'


def copy_arg(a):
    return a.deepCopy() if hasattr(a, 'deepCopy') and not isinstance(a, mc.MEDCouplingMesh) else a


@check(n=6000, rule='at least two cells')
def conversion(d):
    """conversions UMesh <-> single type are lossless; connectivity arrays are those of the model"""
    pm, t = topo(d)
    d.label(MED_NAMES[gen.ORDER.index(t)])
    d.nontrivial(pm.nc > 1)
    d.sample('%s %d cells' % (MED_NAMES[gen.ORDER.index(t)], pm.nc))
    u, g = pair(pm)
    g.checkConsistencyLight()
    eq(d, isinstance(g, mc.MEDCoupling1DGTUMesh), t in DYN, 'class')
    eq(d, g.getCellModelEnum(), t, 'cell type')
    cells = [c for _, c in pm.cells]
    flatc = [v for c in cells for v in c]
    if t in DYN:
        # polyhedra, polygons: without the type
        eq(d, L(g.getNodalConnectivity()), flatc, 'connectivity')
        off = [0]
        for c in cells:
            off.append(off[-1] + len(c))
        eq(d, L(g.getNodalConnectivityIndex()), off, 'index')
    else:
        eq(d, L(g.getNodalConnectivity()), flatc, 'connectivity')
        eq(d, g.getNumberOfNodesPerCell(), NN[t], 'nodes per cell')
    eq(d, g.getNodalConnectivityLength(), len(flatc), 'connectivity length')
    d.check(g.getCoords().getHiddenCppPointer() == u.getCoords().getHiddenCppPointer(), 'coordinates are copied')
    w = g.buildUnstructured()
    d.check(w.isEqual(u, 0.), 'back to unstructured: %s' % short(w.isEqualIfNotWhy(u, 0.)))
    d.check(w.checkConsistency() is None, 'consistency')
    # rebuilt by hand
    if t in DYN:
        h = mc.MEDCoupling1DGTUMesh(pm.name, t)
        h.setCoords(u.getCoords())
        h.setNodalConnectivity(I(flatc), I(off))
    else:
        h = mc.MEDCoupling1SGTUMesh(pm.name, t)
        h.setCoords(u.getCoords())
        h.setNodalConnectivity(I(flatc))
    d.check(h.isEqualWithoutConsideringStr(g, 0.), 'same mesh built from arrays')
    k = g.__class__(pm.name, t)
    k.setCoords(u.getCoords())
    k.allocateCells(d.int(0, 5))
    for c in cells:
        k.insertNextCell(c)
    d.check(k.isEqualWithoutConsideringStr(g, 0.), 'same mesh built cell by cell')
    for c in (g.deepCopy(), g.clone(True), g.clone(False), g.deepCopyConnectivityOnly()):
        d.check(c.isEqual(g, 0.), 'copy is different')
    if pm.nc:
        q = g.deepCopy()
        i = d.below(pm.nc)
        x = [list(c) for c in cells]
        j = d.choice([j for j, v in enumerate(x[i]) if v >= 0])
        x[i][j] = (x[i][j] + 1) % pm.nn
        if pm.nn > 1:
            q.setNodalConnectivity(*([I([v for c in x for v in c])] + ([I(off)] if t in DYN else [])))
            d.check(not q.isEqual(g, 1e-12) and not q.isEqualWithoutConsideringStr(g, 1e-12), 'a changed node id is not seen by isEqual')


@check(n=2500, rule='the connectivity is not consistent')
def verdicts(d):
    """consistency verdicts on corrupted connectivity"""
    pm, t = topo(d)
    d.assume(pm.nc > 0)
    cells = [list(c) for _, c in pm.cells]
    k = d.below(4)
    i = d.below(pm.nc)
    pos = [j for j, v in enumerate(cells[i]) if v >= 0]
    bad = True
    if k == 0:
        cells[i][d.choice(pos)] = pm.nn + d.below(3)
    elif k == 1 and t != POLYHED:
        cells[i][d.choice(pos)] = -1 - d.below(3)
    elif k == 2:
        cells[i][d.choice(pos)] = -2 - d.below(3)
    else:
        bad = False
    u = to_mc(pm)
    flatc = [v for c in cells for v in c]
    off = [0]
    for c in cells:
        off.append(off[-1] + len(c))
    q = PM(pm.sd, pm.md, pm.xyz, [(t, c) for c in cells], pm.name)
    u = to_mc(q)
    if t in DYN:
        g = mc.MEDCoupling1DGTUMesh('x', t)
        g.setCoords(u.getCoords())
        g.setNodalConnectivity(I(flatc), I(off))
    else:
        g = mc.MEDCoupling1SGTUMesh('x', t)
        g.setCoords(u.getCoords())
        g.setNodalConnectivity(I(flatc))
    d.nontrivial(bad)
    d.sample('%s corruption %d' % (MED_NAMES[gen.ORDER.index(t)], k))
    eq(d, raises(lambda: g.checkConsistency(1e-12)), bad, 'checkConsistency of the single type mesh refuses')
    eq(d, raises(lambda: u.checkConsistency(1e-12)), bad, 'checkConsistency of the unstructured mesh refuses')
    if t in DYN:
        j = d.below(3)
        o = list(off)
        if j == 0:
            o[d.int(1, len(o) - 1)] += len(flatc) + 1
        elif j == 1:
            o[0] = -1
        else:
            i = d.int(1, len(o) - 1)
            o[i] = o[i - 1] - 1
        g.setNodalConnectivity(I(flatc), I(o))
        d.check(raises(lambda: g.checkConsistency(1e-12)), 'index array %s of a connectivity of length %d is accepted' % (o, len(flatc)))
    else:
        d.assume(NN[t] > 1)
        g.setNodalConnectivity(I(flatc + [0]))
        d.check(raises(lambda: g.checkConsistency(1e-12)), 'connectivity length %d is accepted for cells of %d nodes' % (len(flatc) + 1, NN[t]))


@check(n=8000, rule='at least three cells')
def topology(d):
    """combinatorial queries, extractions and renumberings on arbitrary connectivity"""
    pm, t = topo(d)
    d.label(MED_NAMES[gen.ORDER.index(t)])
    d.nontrivial(pm.nc > 2)
    d.sample('%s %d cells %d nodes' % (MED_NAMES[gen.ORDER.index(t)], pm.nc, pm.nn))
    u, g = pair(pm)
    for n in ('computeNbOfNodesPerCell', 'computeNbOfFacesPerCell', 'computeEffectiveNbOfNodesPerCell', 'getReverseNodalConnectivity', 'getAllGeoTypes', 'getNodeIdsInUse', 'computeFetchedNodeIds', 'getNumberOfCells', 'getNumberOfNodes', 'getMeshDimension', 'getSpaceDimension', 'getBoundingBox', 'getDistributionOfTypes', 'getTime', 'getName', 'getDescription', 'getTimeUnit'):
        if n == 'computeNbOfFacesPerCell' and t in (POINT1,):
            continue
        both(d, u, g, n, allow_raise=n in ('getBoundingBox',))
    for k in (t, d.choice(TYPES_BY_DIM[pm.md])):
        both(d, u, g, 'getNumberOfCellsWithType', k)
        both(d, u, g, 'giveCellsWithType', k, allow_raise=True)
    both(d, u, g, 'getTypeOfCell', pm.nc, allow_raise=True)
    for i in range(pm.nc):
        both(d, u, g, 'getTypeOfCell', i)
        both(d, u, g, 'getNodeIdsOfCell', i, post=lambda m, r: [v for v in r if v >= 0])  # separators of polyhedra are kept by the single type mesh (pinned by the tests)
    sel = d.sample_ids(pm.nc, d.int(0, pm.nc))
    nodes = sorted(d.subset(pm.nn))
    if sel:
        both(d, u, g, 'buildPart', I(sel))
        both(d, u, g, 'buildPartAndReduceNodes', I(sel))
        both(d, u, g, 'buildPartOfMySelf', I(sel), d.bool(.5))
        both(d, u, g, 'buildPartOfMySelfKeepCoords', I(sel)) if hasattr(g, 'buildPartOfMySelfKeepCoords') else None
    b, e, s = d.int(0, pm.nc), d.int(0, pm.nc), d.int(1, 3)
    if b <= e:
        both(d, u, g, 'buildPartOfMySelfSlice', b, e, s, allow_raise=True)
    full = d.bool(.5)
    both(d, u, g, 'getCellIdsLyingOnNodes', I(nodes), full)
    both(d, u, g, 'getCellIdsFullyIncludedInNodeIds', I(nodes))
    both(d, u, g, 'buildPartOfMySelfNode', I(nodes), full, allow_raise=True)
    if pm.md > 0 and t not in (POLYL,):
        both(d, u, g, 'buildFacePartOfMySelfNode', I(nodes), full, allow_raise=True, post=lambda m, r: sorted(map(repr, from_mc(r if isinstance(r, mc.MEDCouplingUMesh) else r.buildUnstructured()).cells)))
        both(d, u, g, 'findBoundaryNodes', post=lambda m, r: sorted(L(r)), allow_raise=True)
        both(d, u, g, 'buildBoundaryMesh', True, allow_raise=True)
    # type consistency and profiles
    pfl = sorted(sel)
    if pfl:
        p = I(pfl)
        p.setName('pfl')
        both(d, u, g, 'splitProfilePerType', p)
        both(d, u, g, 'checkTypeConsistencyAndContig', [t, len(pfl), 0], [p], post=lambda m, r: r, allow_raise=True)
    both(d, u, g, 'checkTypeConsistencyAndContig', [t, pm.nc, -1], [], allow_raise=True)
    # mutations
    perm = d.perm(pm.nc)
    np_ = d.perm(pm.nn)
    seq = [('renumberCells', (I(perm), d.bool(.5)))] if pm.nc else []
    seq += [('renumberNodes', (I(np_), pm.nn)), ('renumberNodesInConn', (I([v + 1 for v in np_]),)), ('zipCoords', ()), ('renumberNodesWithOffsetInConn', (d.int(1, 3),))]
    if d.bool(.4):
        merged = [d.below(max(1, pm.nn // 2)) for _ in range(pm.nn)]
        seq += [('renumberNodesCenter', (I(pack(merged)), len(set(merged))))]
    for n, a in [d.choice(seq) for _ in range(d.int(1, 2))]:
        a_ = a
        if n.startswith('renumberNodes') and n != 'renumberNodesWithOffsetInConn' and a and a[0].getNumberOfTuples() != u.getNumberOfNodes():
            continue
        if u.getNumberOfNodes() <= max([v for c in from_mc(u).cells for v in c[1]] + [-1]) and n != 'renumberCells':
            continue
        both(d, u, g, n, *a_, post=lambda m, r: (r, m))
    same(d, norm(u), norm(g), 'mesh after the changes')


def pack(v):
    s = sorted(set(v))
    return [s.index(x) for x in v]


@check(n=6000, rule='at least three cells')
def geometry(d):
    """measures, centres, boxes, located cells, moves"""
    pm, t = valid(d)
    d.label(MED_NAMES[gen.ORDER.index(t)])
    d.nontrivial(pm.nc > 2)
    d.sample('%s %d cells %d nodes' % (MED_NAMES[gen.ORDER.index(t)], pm.nc, pm.nn))
    u, g = pair(pm)
    sc = max([abs(x) for p in pm.xyz for x in p] + [1.])
    ab = d.bool(.5)
    both(d, u, g, 'getMeasureField', ab, allow_raise=t in QUADRATIC + (POINT1,))
    both(d, u, g, 'getMeasureFieldOnNode', ab, allow_raise=t in QUADRATIC + (POINT1,))
    both(d, u, g, 'computeCellCenterOfMass', scale=sc, allow_raise=t == POINT1)
    if t not in (POLYHED,):
        both(d, u, g, 'computeIsoBarycenterOfNodesPerCell', scale=sc)
    else:
        got = T(g.computeIsoBarycenterOfNodesPerCell())
        for i, (_, c) in enumerate(pm.cells):
            ns = [v for v in c if v >= 0]  # once per face, pinned by the tests (UMesh counts each node once)
            near(d, got[i], [sum(pm.xyz[v][k] for v in ns) / len(ns) for k in range(3)], 'barycentre of the nodes of polyhedron %d' % i, 1e-12, sc)
    if t in (TRI3, QUAD4, TETRA4, HEXA8, PENTA6, PYRA5):
        both(d, u, g, 'computeDiameterField')
    both(d, u, g, 'getBoundingBox')
    if t != POINT1 and (t not in (SEG3, TRI6, TRI7, QUAD8, QUAD9, QPOLYG) or pm.sd != 2):
        both(d, u, g, 'getBoundingBoxForBBTree')
    bb = bbox(pm.xyz)
    box = []
    for l, h in bb:
        a, b = sorted([d.uniform(l - 1, h + 1), d.uniform(l - 1, h + 1)])
        box += [(a, b)]
    both(d, u, g, 'getCellsInBoundingBox', box, 1e-9)
    if pm.md == pm.sd and t not in QUADRATIC:
        pts = [[d.uniform(l - .5, h + .5) for l, h in bb] for _ in range(3)]
        pts += [list(T(u.computeCellCenterOfMass())[d.below(pm.nc)])]
        for p in pts:
            both(d, u, g, 'getCellContainingPoint', p, 1e-9)
            both(d, u, g, 'getCellsContainingPoint', p, 1e-9, post=lambda m, r: sorted(L(r)))
        both(d, u, g, 'getCellsContainingPoints', Dbl(pts, pm.sd), len(pts), 1e-9, post=lambda m, r: [sorted(x) for x in packs(r[0], r[1])])
    if pm.md in (1, 2) and pm.sd in (2, 3) and t not in QUADRATIC and (pm.md == 2 or pm.sd == 2):
        both(d, u, g, 'buildOrthogonalField')
    c, ax, an = [d.sint(4) / 2 for _ in range(pm.sd)], [0., 0., 1.], d.uniform(-3, 3)
    op = d.choice(['translate', 'scale', 'rotate'])
    a = {'translate': (c,), 'scale': (c, d.choice([.5, 2., -1.])), 'rotate': (c, ax, an) if pm.sd == 3 else (c, an)}[op]
    if op != 'rotate' or pm.sd > 1:
        for m in (u, g):
            if m is u:
                u = u.deepCopy()
                getattr(u, op)(*a)
            else:
                g = g.deepCopy()
                getattr(g, op)(*a)
        same(d, norm(u), norm(g), op, 1e-11, sc)
    if t not in (TRI7, QUAD9, HEXGP12, POLYHED, PENTA18, HEXA27, POINT1):
        g2 = g.deepCopy()
        u2 = u.deepCopy()
        both(d, u2, g2, 'invertOrientationOfAllCells', post=lambda m, r: m)
    # values at nodes merged
    v = [d.sint(3) / 8 for _ in range(pm.sd)]
    h, w = g.deepCopy(), u.deepCopy()
    h.translate(v), w.translate(v)
    both(d, u.deepCopy(), g.deepCopy(), 'mergeNodes', 1e-9, post=lambda m, r: (r, m))
    a, b = u.mergeMyselfWith(w), g.mergeMyselfWith(h)
    same(d, norm(a), norm(b), 'mergeMyselfWith')
    both(d, u, g, 'checkGeoEquivalWith', None) if False else None


QUADRATIC = (SEG3, SEG4, TRI6, TRI7, QUAD8, QUAD9, QPOLYG, TETRA10, PYRA13, PENTA15, PENTA18, HEXA20, HEXA27)


@check(n=2500, rule='cells are cut into several simplices')
def simplices(d):
    """simplexize: same simplices and origin of cells as the unstructured mesh, total measure kept"""
    pm, t = valid(d, (2, 3), 0.)
    u, g = pair(pm)
    pol = d.choice([0, 1]) if pm.md == 2 else d.choice([mc.PLANAR_FACE_5, mc.PLANAR_FACE_6])
    d.nontrivial(t in (QUAD4, HEXA8))
    d.sample('%s policy %d' % (MED_NAMES[gen.ORDER.index(t)], pol))
    before = g.getMeasureField(True).getArray().getValues()
    if t == HEXA8 or pm.md == 2 and t in (TRI3, QUAD4) or t == TETRA4:
        both(d, u, g, 'simplexize', pol, post=lambda m, r: (r, m))
        n2o = None
        u, g = pair(pm)
        n2o = L(g.simplexize(pol))
        after = g.getMeasureField(True).getArray().getValues()
        tot = [0.] * pm.nc
        for i, v in zip(n2o, after):
            tot[i] += v
        if pm.md == 2 and all(is_convex2d([pm.xyz[v] for v in c]) for _, c in pm.cells if pm.sd == 2) and pm.sd == 2:
            near(d, tot, before, 'measure of the simplices of each cell', 1e-10)
    elif t in (POLYGON, POLYHED):
        h = g.deepCopy()
        eq(d, L(g.simplexize(pol)), list(range(pm.nc)), 'ids')
        d.check(g.isEqual(h, 0.), 'a dynamic mesh is changed by simplexize')


@check(n=3000, rule='the connectivity array is larger than what the index covers')
def packing(d):
    """dynamic meshes whose index covers a part of the connectivity: packing and every query equal those of the packed mesh"""
    pm, t = topo(d, [POLYGON, QPOLYG, POLYHED])
    u, g = pair(pm)
    head, tail = [d.int(0, 3) for _ in range(d.int(0, 3))], [d.int(0, 3) for _ in range(d.int(0, 3))]
    c, o = L(g.getNodalConnectivity()), L(g.getNodalConnectivityIndex())
    h = mc.MEDCoupling1DGTUMesh(pm.name, t)
    h.setCoords(g.getCoords())
    h.setNodalConnectivity(I(head + c + tail), I([v + len(head) for v in o]))
    h.setDescription('desc')
    h.setTime(1.5, 2, 3)
    h.setTimeUnit('s')
    packed = not head and not tail
    d.nontrivial(not packed)
    d.sample('%s %d cells, %d + %d extra' % (MED_NAMES[gen.ORDER.index(t)], pm.nc, len(head), len(tail)))
    h.checkConsistency()
    eq(d, h.isPacked(), packed, 'isPacked')
    k, sh = h.copyWithNodalConnectivityPacked()
    eq(d, sh, packed, 'shallow copy flag')
    eq(d, (L(k.getNodalConnectivity()), L(k.getNodalConnectivityIndex())), (c, o), 'packed connectivity')
    d.check(k.isEqualWithoutConsideringStr(g, 0.), 'packed copy')
    h.buildUnstructured().checkConsistency()
    r = h.retrievePackedNodalConnectivity()
    eq(d, (r[0], L(r[1]), L(r[2])), (packed, c, o), 'retrieved connectivity')
    same(d, norm(h), norm(g), 'unstructured form')
    for n in ('computeNbOfNodesPerCell', 'computeNbOfFacesPerCell', 'computeEffectiveNbOfNodesPerCell', 'getReverseNodalConnectivity', 'getNodeIdsInUse', 'computeFetchedNodeIds', 'getNodalConnectivityLength', 'computeIsoBarycenterOfNodesPerCell', 'getBoundingBoxForBBTree'):
        if n == 'getNodalConnectivityLength' or n == 'getBoundingBoxForBBTree' and t == QPOLYG:
            continue
        both(d, g, h, n)
    for i in range(pm.nc):
        both(d, g, h, 'getNodeIdsOfCell', i)
    sel = d.sample_ids(pm.nc, d.int(1, pm.nc))
    both(d, g, h, 'buildPartOfMySelf', I(sel), d.bool(.5))
    both(d, g, h, 'deepCopy')
    x, y = g.deepCopy(), h.deepCopy()
    op = d.choice(['renumberCells', 'zipCoords', 'renumberNodes', 'merge', 'checkFast'])
    if op == 'renumberCells':
        both(d, x, y, op, I(d.perm(pm.nc)), True, post=lambda m, r: m)
    elif op == 'zipCoords':
        both(d, x, y, op, post=lambda m, r: (r, m))
    elif op == 'renumberNodes':
        both(d, x, y, op, I(d.perm(pm.nn)), pm.nn, post=lambda m, r: m)
    elif op == 'merge':
        same(d, norm(mc.MEDCoupling1DGTUMesh.Merge1DGTUMeshes([x, y])), norm(mc.MEDCoupling1DGTUMesh.Merge1DGTUMeshes([x, x])), 'merge')
    else:
        d.check(mc.MEDCouplingUMesh.AggregateSortedByTypeMeshesOnSameCoords is not None, '')
    if t == POLYHED:
        near(d, L(h.getMeasureField(True).getArray()), L(g.getMeasureField(True).getArray()), 'measures') if False else None
        e = L(g.computeEulerCharacteristic())
        eq(d, L(h.computeEulerCharacteristic()), e, 'Euler characteristic')
        want = []
        for _, q in pm.cells:
            fs = poly_faces(q)
            ed = {tuple(sorted((f[i], f[(i + 1) % len(f)]))) for f in fs for i in range(len(f))}
            want.append(len({v for f in fs for v in f}) - len(ed) + len(fs))
        eq(d, e, want, 'Euler characteristic')


@check(n=2500, rule='at least two meshes with cells')
def aggregation(d):
    """merging and aggregation of single type meshes: cells in order with shifted nodes"""
    t = d.choice([x for k in TYPES_BY_DIM for x in TYPES_BY_DIM[k]])
    md = [k for k in TYPES_BY_DIM if t in TYPES_BY_DIM[k]][0]
    sd = d.int(max(1, md), 3)
    n = d.int(1, 4)
    pms = [gen.random_topo(d, md, sd, [t], ncmax=4, empty=False) for _ in range(n)]
    gs = [pair(p)[1] for p in pms]
    d.nontrivial(n > 1)
    d.sample('%d meshes of %s' % (n, MED_NAMES[gen.ORDER.index(t)]))
    dyn = t in DYN
    K = mc.MEDCoupling1DGTUMesh if dyn else mc.MEDCoupling1SGTUMesh
    r = (K.Merge1DGTUMeshes if dyn else K.Merge1SGTUMeshes)(gs)
    got = from_mc(r.buildUnstructured())
    off, xyz, cells = 0, [], []
    for p in pms:
        cells += [(t, [v + off if v >= 0 else v for v in c]) for _, c in p.cells]
        xyz += p.xyz
        off += p.nn
    eq(d, (got.xyz, got.cells), ([tuple(p) for p in xyz], cells), 'merged mesh')
    # on the same coordinates
    big = r
    parts = []
    for _ in range(d.int(1, 3)):
        ids = d.sample_ids(got.nc, d.int(1, got.nc))
        parts.append((ids, big.buildPartOfMySelf(I(ids), True)))
    s = (K.Merge1DGTUMeshesOnSameCoords if dyn else K.Merge1SGTUMeshesOnSameCoords)([p for _, p in parts])
    eq(d, from_mc(s.buildUnstructured()).cells, [cells[i] for ids, _ in parts for i in ids], 'merged on the same coordinates')
    d.check(s.getCoords().getHiddenCppPointer() == big.getCoords().getHiddenCppPointer(), 'coordinates not shared')
    a = mc.MEDCoupling1GTUMesh.AggregateOnSameCoordsToUMesh([p for _, p in parts])
    eq(d, from_mc(a).cells, [cells[i] for ids, _ in parts for i in ids], 'aggregated to an unstructured mesh')
    # other type of the same dimension on the same coordinates
    t2 = d.choice(TYPES_BY_DIM[md])
    need = NN.get(t2, 8)
    if got.nn >= max(need, 8):
        c2 = [(t2, gen.random_conn(d, t2, got.nn)) for _ in range(d.int(1, 3))]
        m2 = mc.MEDCoupling1GTUMesh.New(to_mc(PM(sd, md, got.xyz, c2, 'o')))
        m2.setCoords(big.getCoords())
        a = mc.MEDCoupling1GTUMesh.AggregateOnSameCoordsToUMesh([big, m2])
        eq(d, from_mc(a).cells, cells + c2, 'aggregation of two types')
    if dyn:
        arrs = [I([v for _, c in p.cells for v in c]) for p in pms]
        offs = [d.int(0, 9) for _ in pms]
        z = mc.MEDCoupling1DGTUMesh.AggregateNodalConnAndShiftNodeIds(arrs, offs)
        eq(d, L(z), [v + o if v >= 0 else -1 for p, o in zip(pms, offs) for _, c in p.cells for v in c], 'shifted connectivities')
    m = gs[0].mergeMyselfWith(gs[-1])
    g2 = from_mc(m.buildUnstructured())
    eq(d, g2.cells, [(t, c) for _, c in pms[0].cells] + [(t, [v + pms[0].nn if v >= 0 else v for v in c]) for _, c in pms[-1].cells], 'mergeMyselfWith')


@check(n=1500, rule='at least two hexahedra')
def hexa(d):
    """explosion of hexahedra and homogeneous renumbering (sortHexa8EachOther)"""
    pm, t = one_type(gen.mesh3d(d, nmax=2, kinds=('asis',), zmax=3, kinds2=('quad',)))
    d.assume(t == HEXA8)
    pm = gen.shuffle(d, pm)
    cells = []
    # other valid numberings of the same hexahedra
    for _, c in pm.cells:
        cells.append((HEXA8, [c[i] for i in d.choice(HEXROT)] if d.bool(.7) else c))
    pm = PM(3, 3, pm.xyz, cells, pm.name)
    u, g = pair(pm)
    d.nontrivial(pm.nc > 1)
    d.sample('%d hexahedra' % pm.nc)
    e = g.explodeEachHexa8To6Quad4()
    got = from_mc(e.buildUnstructured())
    want = []
    for tt, c in pm.cells:
        want += [sorted(f) for _, f in cell_faces(tt, c)]
    eq(d, got.nc, len(want), 'number of faces')
    d.check(all(x == QUAD4 for x, _ in got.cells), 'types')
    for i in range(pm.nc):
        eq(d, sorted(sorted(c) for _, c in got.cells[6 * i:6 * i + 6]), sorted(want[6 * i:6 * i + 6]), 'faces of cell %d' % i)
        fs = {tuple(f) for _, f in cell_faces(*pm.cells[i])}
        for _, c in got.cells[6 * i:6 * i + 6]:
            d.check(any(tuple(c[k:] + c[:k]) in fs for k in range(4)), 'face %s of cell %d has another orientation' % (c, i))
    vol = L(g.getMeasureField(False).getArray())
    g.sortHexa8EachOther()
    after = from_mc(g.buildUnstructured())
    eq(d, [sorted(c) for _, c in after.cells], [sorted(c) for _, c in pm.cells], 'nodes of the cells after sorting')
    near(d, L(g.getMeasureField(False).getArray()), vol, 'signed measures after sorting', 1e-10)
    w = g.buildUnstructured()
    for pol in (mc.PLANAR_FACE_6,):
        z = w.deepCopy()
        n2o = z.simplexize(pol)
        # conformal: every interior triangular face is shared
        f = {}
        for _, c in from_mc(z).cells:
            for k in range(4):
                key = tuple(sorted(c[:k] + c[k + 1:]))
                f[key] = f.get(key, 0) + 1
        quads = {}
        for _, c in pm.cells:
            for _, q in cell_faces(HEXA8, c):
                quads[tuple(sorted(q))] = quads.get(tuple(sorted(q)), 0) + 1
        shared = [q for q, k in quads.items() if k == 2]
        for q in shared:
            tri = [k for k in f if set(k) <= set(q)]
            d.check(all(f[k] == 2 for k in tri), 'after sorting the tetrahedra do not match on face %s' % (q,))


def hexrot():
    """the 24 numberings of a positively oriented hexahedron"""
    base = list(range(8))
    rz = [1, 2, 3, 0, 5, 6, 7, 4]
    rx = [3, 2, 6, 7, 0, 1, 5, 4]
    seen, todo = {tuple(base)}, [base]
    while todo:
        p = todo.pop()
        for r in (rz, rx):
            q = [p[i] for i in r]
            if tuple(q) not in seen:
                seen.add(tuple(q))
                todo.append(q)
    return [list(s) for s in sorted(seen)]


HEXROT = hexrot()


@check(n=1500, rule='at least four simplices')
def dual(d):
    """dual mesh of simplices: one cell per node, total measure kept"""
    three = d.bool(.4)
    if three:
        pm = gen.mesh3d(d, nmax=d.choice([1, 1, 2]), kinds=('tets',), zmax=1, perturb=False)
        d.assume(all(t == TETRA4 for t, _ in pm.cells))
        pm = gen.shuffle(d, pm, unused=False)
    else:
        pm = gen.mesh2d(d, d.int(1, 3), ('tri',))
        d.assume(all(t == TRI3 for t, _ in pm.cells))
        pm = gen.shuffle(d, pm, unused=False)
    # every node is used
    used = {v for _, c in pm.cells for v in c}
    d.assume(len(used) == pm.nn)
    u, g = pair(pm)
    d.nontrivial(pm.nc >= 4)
    d.sample('%d simplices of dimension %d' % (pm.nc, pm.md))
    try:
        r = g.computeDualMesh()
    except InterpKernelException as e:
        d.fail('computeDualMesh: ' + str(e))
    r.checkConsistency()
    eq(d, r.getNumberOfCells(), pm.nn, 'one cell per node')
    tot = sum(abs(cell_measure_centroid(pm.sd, t, c, pm.xyz)[0]) for t, c in pm.cells)
    share = [0.] * pm.nn
    for t, c in pm.cells:
        m = abs(cell_measure_centroid(pm.sd, t, c, pm.xyz)[0])
        for v in c:
            share[v] += m / len(c)
    got = L(r.getMeasureField(True).getArray())
    near(d, [sum(got)], [tot], 'total measure', 1e-9, tot)
    near(d, got, share, 'measure of the dual cells', 1e-9, tot)


@check(n=1500, rule='at least two cells in two directions')
def structurize(d):
    """structurizeMe recovers the grid, the cell permutation and the node permutation of a shuffled grid"""
    md = d.int(1, 3)
    ax = [gen.incr(d, d.int(2, 4)) for _ in range(md)]
    c = mc.MEDCouplingCMesh('c')
    c.setCoords(*[mc.DataArrayDouble(v) for v in ax])
    c.setName('grid')
    u = c.buildUnstructured()
    d.nontrivial(sum(len(a) > 2 for a in ax) > 1 or md == 1 and len(ax[0]) > 2)
    d.sample('%s' % [len(a) for a in ax])
    u.renumberCells(I(d.perm(u.getNumberOfCells())))
    u.renumberNodes(I(d.perm(u.getNumberOfNodes())), u.getNumberOfNodes())
    g = mc.MEDCoupling1SGTUMesh(u)
    cm, cp, np_ = g.structurizeMe(1e-9)
    eq(d, [L(cm.getCoordsAt(i)) for i in range(md)], ax, 'axes')
    cp, np_ = [L(x) if x is not None else list(range(n)) for x, n in ((cp, u.getNumberOfCells()), (np_, u.getNumberOfNodes()))]
    eq(d, (sorted(cp), sorted(np_)), (list(range(u.getNumberOfCells())), list(range(u.getNumberOfNodes()))), 'permutations')
    w = cm.buildUnstructured()
    X, Y = T(u.getCoords()), T(w.getCoords())
    bu, bw = T(u.computeCellCenterOfMass()), T(w.computeCellCenterOfMass())
    flt = lambda v: [x for t in v for x in t]
    near(d, flt([bu[i] for i in cp]), flt(bw), 'this[cellPerm[i]] = ret[i]', 1e-12, 20)
    near(d, flt([Y[i] for i in np_]), flt(X), 'node permutation', 1e-12, 20) if sorted(np_) and [Y[i] for i in np_] == X else near(d, flt([X[i] for i in np_]), flt(Y), 'node permutation', 1e-12, 20)
    if md > 1 and u.getNumberOfCells() > 1:
        q = u.deepCopy()
        co = q.getCoords()
        k = d.below(q.getNumberOfNodes())
        co.setIJ(k, 0, co.getIJ(k, 0) + .03125)
        d.check(raises(lambda: mc.MEDCoupling1SGTUMesh(q).structurizeMe(1e-9)), 'a deformed grid is accepted')


@check(n=800, rule='at least two triangles')
def heights(d):
    """computeTriangleHeight against the model"""
    pm, t = valid(d, (2,), 0.)
    d.assume(t == TRI3 and pm.sd in (2, 3))
    u, g = pair(pm)
    d.nontrivial(pm.nc > 1)
    d.sample('%d triangles' % pm.nc)
    h = T(g.computeTriangleHeight())
    for i, (_, c) in enumerate(pm.cells):
        P = [tuple(pm.xyz[v]) + (0.,) * (3 - pm.sd) for v in c]
        A2 = norm3(cross(sub(P[1], P[0]), sub(P[2], P[0])))
        near(d, sorted(h[i]), sorted(A2 / norm3(sub(P[(k + 1) % 3], P[(k + 2) % 3])) for k in range(3)), 'heights of triangle %d' % i, 1e-10)


def norm3(v):
    return math.sqrt(sum(x * x for x in v))
