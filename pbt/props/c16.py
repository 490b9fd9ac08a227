"""C16 structured meshes against their explicit expansion, and the algebra of structured ranges against explicit id sets."""
from itertools import product
from common import *
from ref import *
import gen

ASSUMPTIONS = ['curvilinear cells are convex perturbations of a grid; located points are away from cell boundaries']
SM, IM = mc.MEDCouplingStructuredMesh, mc.MEDCouplingIMesh
BY = {1: SEG2, 2: QUAD4, 3: HEXA8}


class St:
    """structured mesh: node structure and coordinates of nodes, first axis first"""

    def __init__(s, m, kind, dims, xyz):
        s.m, s.kind, s.dims, s.xyz = m, kind, dims, xyz
        s.md, s.sd = len(dims), len(xyz[0])
        s.cd = [n - 1 for n in dims]
        s.nn, s.nc = len(xyz), int(np.prod([n - 1 for n in dims]))

    def nid(s, pos):
        return lin(pos, s.dims)

    def cpos(s, i):
        return unlin(i, s.cd)

    def corners(s, i):
        p = s.cpos(i)
        return {b: s.nid([x + y for x, y in zip(p, b)]) for b in product((0, 1), repeat=s.md)}


def lin(pos, dims):
    r = 0
    for p, n in reversed(list(zip(pos, dims))):
        r = r * n + p
    return r


def unlin(i, dims):
    out = []
    for n in dims:
        out.append(i % n)
        i //= n
    return out


def allpos(dims):
    return [unlin(i, dims) for i in range(int(np.prod(dims)))]


def structured(d, kinds=('C', 'I', 'L'), nmax=4, dims=(1, 2, 3), single=0.1):
    kind = d.choice(kinds)
    md = d.choice(dims)
    nd = [d.int(1, nmax) + 1 for _ in range(md)]
    if kind == 'I':
        o = [d.sint(12) / 4 for _ in nd]
        s = [d.int(1, 8) / 8 for _ in nd]
        m = mc.MEDCouplingIMesh('im', md, I(nd), mc.DataArrayDouble(o), mc.DataArrayDouble(s))
        m.setAxisUnit('cm')
        xyz = [tuple(a + b * k for a, b, k in zip(o, s, p)) for p in allpos(nd)]
    elif kind == 'C':
        ax = [gen.incr(d, n) for n in nd]
        m = mc.MEDCouplingCMesh('cm')
        m.setCoords(*[mc.DataArrayDouble(a, len(a), 1) for a in ax])
        xyz = [tuple(a[k] for a, k in zip(ax, p)) for p in allpos(nd)]
    else:
        ax = [gen.incr(d, n) for n in nd]
        h = [min(b - a for a, b in zip(x, x[1:])) if len(x) > 1 else 1. for x in ax]
        sd = d.int(md, 3)
        pert = d.bool(.6) and md < 3
        xyz = []
        A, t = gen.rand_affine3(d), [d.sint(8) / 4 for _ in range(3)]
        for p in allpos(nd):
            q = [a[k] + (h[j] * .18 * d.sint(4) / 4 if pert else 0) for j, (a, k) in enumerate(zip(ax, p))]
            q = q + [0.] * (3 - md)
            if md == 2 and sd == 3:
                q[2] = 0.
            q = gen.apply3(A, t, q) if sd == 3 else q[:sd]
            xyz.append(tuple(float(v) for v in q[:sd]))
        m = mc.MEDCouplingCurveLinearMesh('lm')
        m.setCoords(Dbl(xyz, sd))
        m.setNodeGridStructure(nd)
    m.setDescription('descr')
    m.setTime(1.5, 2, 3)
    m.checkConsistencyLight()
    d.label('kind:' + kind, 'dim:%d' % md)
    return St(m, kind, nd, xyz)


def expansion(d, S, U):
    """U is the expansion of S, cell by cell"""
    eq(d, (U.getNumberOfCells(), U.getNumberOfNodes(), U.getMeshDimension(), U.getSpaceDimension()), (S.nc, S.nn, S.md, S.sd), 'expansion')
    near(d, L(U.getCoords()), [v for p in S.xyz for v in p], 'coordinates of the expansion', 1e-13)
    for i in range(S.nc):
        c = S.corners(i)
        k = U.getNodeIdsOfCell(i)
        eq(d, sorted(k), sorted(c.values()), 'nodes of cell %d of the expansion' % i)
        pos = {v: b for b, v in c.items()}
        bs = [pos[v] for v in k]
        if S.md == 1:
            eq(d, bs, [(0,), (1,)], 'SEG2 of the expansion')
        elif S.md == 2:
            d.check(all(sum(map(abs, np.subtract(bs[j], bs[j - 1]))) == 1 for j in range(4)), 'QUAD4 not a loop of edges %s', bs)
        else:
            d.check(all(sum(map(abs, np.subtract(bs[j], bs[(j + 1) % 4]))) == 1 for j in range(4)) and all(sum(map(abs, np.subtract(bs[4 + j], bs[4 + (j + 1) % 4]))) == 1 for j in range(4)) and all(sum(map(abs, np.subtract(bs[4 + j], bs[j]))) == 1 for j in range(4)), 'HEXA8 not a box %s', bs)


@check(n=6000, rule='at least two cells')
def same_as_expansion(d):
    S = structured(d)
    m = S.m
    d.nontrivial(S.nc >= 2)
    d.sample('%s %s' % (S.kind, S.dims))
    U = m.buildUnstructured()
    expansion(d, S, U)
    eq(d, (U.getName(), U.getDescription(), U.getTime()), (m.getName(), 'descr', m.getTime()), 'strings of the expansion')
    U1 = m.build1SGTUnstructured()
    d.check(U1.buildUnstructured().isEqual(U, 1e-14), 'build1SGTUnstructured')
    eq(d, L(SM.Build1GTNodalConnectivity(S.dims)), L(U1.getNodalConnectivity()), 'Build1GTNodalConnectivity')
    eq(d, (m.getNumberOfCells(), m.getNumberOfNodes(), m.getMeshDimension(), m.getSpaceDimension()), (S.nc, S.nn, S.md, S.sd), 'sizes')
    eq(d, (tuple(m.getNodeGridStructure()), tuple(m.getCellGridStructure())), (tuple(S.dims), tuple(S.cd)), 'grid structures')
    for i in range(S.nc):
        eq(d, sorted(m.getNodeIdsOfCell(i)), sorted(U.getNodeIdsOfCell(i)), 'getNodeIdsOfCell')
        eq(d, list(m.getLocationFromCellId(i)), S.cpos(i), 'getLocationFromCellId')
        eq(d, m.getCellIdFromPos(*(S.cpos(i) + [0] * (3 - S.md))), i, 'getCellIdFromPos')
        eq(d, m.getTypeOfCell(i), BY[S.md], 'getTypeOfCell')
    for i in range(S.nn):
        near(d, list(m.getCoordinatesOfNode(i)), S.xyz[i], 'getCoordinatesOfNode', 1e-13)
        eq(d, list(m.getLocationFromNodeId(i)), unlin(i, S.dims), 'getLocationFromNodeId')
        eq(d, m.getNodeIdFromPos(*(unlin(i, S.dims) + [0] * (3 - S.md))), i, 'getNodeIdFromPos')
    for f in (m.getLocationFromCellId,):
        d.check(raises(lambda: f(S.nc)) and raises(lambda: f(-1)), 'out of range cell id accepted')
    near(d, L(m.getCoordinatesAndOwner()), L(U.getCoords()), 'getCoordinatesAndOwner', 1e-13)
    near(d, [v for p in m.getBoundingBox() for v in p], [v for p in U.getBoundingBox() for v in p], 'getBoundingBox', 1e-13)
    for ab in (True, False):
        near(d, L(m.getMeasureField(ab).getArray()), L(U.getMeasureField(ab).getArray()), 'getMeasureField(%s)' % ab, 1e-11)
    near(d, L(m.computeCellCenterOfMass()), L(U.computeCellCenterOfMass()), 'computeCellCenterOfMass', 1e-10)
    near(d, L(m.computeIsoBarycenterOfNodesPerCell()), L(U.computeIsoBarycenterOfNodesPerCell()), 'computeIsoBarycenterOfNodesPerCell', 1e-12)
    near(d, L(m.computeMeshCenterOfMass()), L(U.computeMeshCenterOfMass()), 'computeMeshCenterOfMass', 1e-10)
    for nm in ('computeNbOfNodesPerCell', 'computeNbOfFacesPerCell', 'computeEffectiveNbOfNodesPerCell'):
        eq(d, L(getattr(m, nm)()), L(getattr(U, nm)()), nm)
    a, b = m.getReverseNodalConnectivity(), U.getReverseNodalConnectivity()
    eq(d, [sorted(x) for x in packs(*a)], [sorted(x) for x in packs(*b)], 'getReverseNodalConnectivity')
    eq(d, (m.getAllGeoTypes(), m.getNumberOfCellsWithType(BY[S.md]), L(m.giveCellsWithType(BY[S.md]))), ([BY[S.md]], S.nc, list(range(S.nc))), 'types')
    eq(d, m.getDistributionOfTypes(), U.getDistributionOfTypes(), 'getDistributionOfTypes')
    ids = sorted(d.subset(S.nn, .8))
    for full in (True, False):
        eq(d, L(m.getCellIdsFullyIncludedInNodeIds(ids)), L(U.getCellIdsFullyIncludedInNodeIds(ids)), 'getCellIdsFullyIncludedInNodeIds') if ids else None
    if S.md == 2:
        a, b = L(m.buildOrthogonalField().getArray()), L(U.buildOrthogonalField().getArray())
        if m.getSpaceDimension() == 2:              # either side of the plane is a normal
            a, b = np.abs(a).tolist(), np.abs(b).tolist()
        near(d, a, b, 'buildOrthogonalField', 1e-10)


@check(n=4800, rule='at least two cells in the part')
def parts(d):
    S = structured(d)
    m = S.m
    U = m.buildUnstructured()
    if d.bool(.4):
        box = [sorted((d.int(0, n - 1), d.int(0, n - 1))) for n in S.cd]
        ids = L(SM.BuildExplicitIdsFrom(S.cd, [(a, b + 1) for a, b in box]))
    else:
        ids = d.sample_ids(S.nc, d.size(S.nc))
        if d.bool(.5):
            ids = sorted(ids)
    d.nontrivial(len(ids) >= 2)
    d.sample('%s %s part %s' % (S.kind, S.dims, ids))

    def same(a, b, what):
        a = a.buildUnstructured()
        b = b.buildUnstructured()
        a.setName('x')
        b.setName('x')
        d.check(a.isEqualWithoutConsideringStr(b, 1e-12), '%s: %s / %s', what, short(cellgeo(from_mc(a))), short(cellgeo(from_mc(b))))

    same(m.buildPart(I(ids)), U.buildPart(I(ids)), 'buildPart')

    def reduced(p, o2n, q, what, wants=True):
        p, q = p.buildUnstructured(), q.buildUnstructured()
        eq(d, p.getNumberOfCells(), q.getNumberOfCells(), what + ' nb of cells')
        eq(d, [sorted(c[1]) for c in cellgeo(from_mc(p))] , [sorted(c[1]) for c in cellgeo(from_mc(q))], what) if 0 else None
        A, B = cellgeo(from_mc(p)), cellgeo(from_mc(q))
        for x, y in zip(A, B):
            near(d, [v for t in x[1] for v in t], [v for t in y[1] for v in t], what + ' cell', 1e-12)
        P = T(p.getCoords())
        seen = set()
        for i, v in enumerate(o2n):
            if v >= 0:
                near(d, P[v], S.xyz[i], what + ' node', 1e-12)
                seen.add(v)
        eq(d, seen, set(range(len(P))), what + ' renumbering is onto')
        used = {v for i in ids_ for v in S.corners(i).values()}
        eq(d, {i for i, v in enumerate(o2n) if v >= 0}, used, what + ' kept nodes')

    if ids:
        ids_ = ids
        p, arr = m.buildPartAndReduceNodes(I(ids))
        q, _ = U.buildPartAndReduceNodes(I(ids))
        reduced(p, L(arr), q, 'buildPartAndReduceNodes')
    b = d.int(0, S.nc - 1)
    e = d.int(b + 1, S.nc)
    st = d.int(1, 3)
    ids_ = list(range(b, e, st))
    same(m.buildPartRange(b, e, st), U.buildPartRange(b, e, st), 'buildPartRange')
    p, arr = m.buildPartRangeAndReduceNodes(b, e, st)
    q, _ = U.buildPartRangeAndReduceNodes(b, e, st)
    o2n = L(arr) if hasattr(arr, 'getValues') else ([i - arr.start if i in arr else -1 for i in range(S.nn)] if isinstance(arr, range) else None)
    if o2n is not None and len(o2n) == S.nn:
        reduced(p, o2n, q, 'buildPartRangeAndReduceNodes')
    # structured sub part
    box = [sorted((d.int(0, n - 1), d.int(0, n - 1))) for n in S.cd]
    box = [(a, c + 1) for a, c in box]
    sub_ = m.buildStructuredSubPart(box)
    sub_.checkConsistencyLight()
    eq(d, sub_.getCellGridStructure(), tuple(c - a for a, c in box), 'buildStructuredSubPart structure')
    ids_ = [lin(p, S.cd) for p in product_first(box)]
    w = U.buildPart(I(ids_))
    near(d, [v for _, c in cellgeo(from_mc(sub_.buildUnstructured())) for p in c for v in p], [v for _, c in cellgeo(from_mc(w)) for p in c for v in p], 'buildStructuredSubPart', 1e-12)
    # sub level mesh
    if S.md > 1:
        f = m.build1SGTSubLevelMesh()
        f.checkConsistencyLight()
        eq(d, f.getNumberOfCells(), m.getNumberOfCellsOfSubLevelMesh(), 'getNumberOfCellsOfSubLevelMesh')
        g = U.buildDescendingConnectivity()[0]
        eq(d, sorted(tuple(sorted(c)) for _, c in from_mc(f.buildUnstructured()).cells), sorted(tuple(sorted(c)) for _, c in from_mc(g).cells), 'build1SGTSubLevelMesh')
        eq(d, L(SM.Build1GTNodalConnectivityOfSubLevelMesh(S.dims)), L(f.getNodalConnectivity()), 'Build1GTNodalConnectivityOfSubLevelMesh')
        if S.md == 3:
            for c in from_mc(f.buildUnstructured()).cells:
                pos = [unlin(v, S.dims) for v in c[1]]
                d.check(all(sum(map(abs, np.subtract(pos[j], pos[j - 1]))) == 1 for j in range(4)), 'face is not a loop %s', pos)


def product_first(box):
    """positions in the box, first axis varying first"""
    return [tuple(reversed(p)) for p in product(*[range(a, b) for a, b in reversed(box)])]


@check(n=4800, rule='a located point is inside the mesh')
def located(d):
    S = structured(d)
    m = S.m
    if S.kind == 'L' and S.sd != S.md:
        raise Discard()
    U = m.buildUnstructured()
    pts, want = [], []
    for _ in range(d.int(1, 6)):
        i = d.below(S.nc)
        w = [d.choice((.25, .5, .75, .125)) for _ in range(S.md)]
        c = S.corners(i)
        p = [0.] * S.sd
        for b, v in c.items():
            k = 1.
            for x, y in zip(b, w):
                k *= y if x else 1 - y
            p = [u + k * z for u, z in zip(p, S.xyz[v])]
        pts.append(tuple(p))
        want.append(i)
    # out of the mesh
    bb = [(min(x), max(x)) for x in zip(*S.xyz)]
    k = d.below(S.sd)
    o = [(a + b) / 2 for a, b in bb]
    o[k] = bb[k][d.below(2)]
    o[k] += (bb[k][1] - bb[k][0] + 1) * (1 if o[k] == bb[k][1] else -1) / d.choice((1, 4, 16))
    pts.append(tuple(o))
    want.append(-1)
    d.nontrivial()
    d.sample('%s %s' % (S.kind, S.dims))
    for mm, nm in ((m, 'structured'), (U, 'unstructured')):
        for p, w in zip(pts, want):
            eq(d, mm.getCellContainingPoint(list(p), 1e-9), w, '%s getCellContainingPoint %s' % (nm, p))
            eq(d, L(mm.getCellsContainingPoint(list(p), 1e-9)), [w] if w >= 0 else [], '%s getCellsContainingPoint' % nm)
        a, b = mm.getCellsContainingPoints(Dbl(pts, S.sd), len(pts), 1e-9)
        eq(d, packs(a, b), [[w] if w >= 0 else [] for w in want], '%s getCellsContainingPoints' % nm)


@check(n=4800, rule='at least two cells')
def conversions(d):
    S = structured(d)
    m = S.m
    d.nontrivial(S.nc >= 2)
    d.sample('%s %s' % (S.kind, S.dims))
    U = m.buildUnstructured()

    def sameU(x, what, eps=1e-12):
        V = x.buildUnstructured()
        d.check(V.isEqualWithoutConsideringStr(U, eps), what)
        eq(d, x.getName(), m.getName(), what + ' name')

    c = m.deepCopy()
    d.check(c.isEqual(m, 1e-14), 'deepCopy')
    sameU(c, 'deepCopy')
    if S.kind == 'I':
        c = m.convertToCartesian()
        sameU(c, 'convertToCartesian')
        eq(d, [c.getCoordsAt(k).getInfoOnComponent(0) for k in range(S.md)], [x for x in m.getCoordinatesAndOwner().getInfoOnComponents()], 'infos of convertToCartesian')
        near(d, [m.getMeasureOfAnyCell()] * S.nc, L(U.getMeasureField(True).getArray()), 'getMeasureOfAnyCell', 1e-12)
        s = m.asSingleCell()
        eq(d, (s.getNumberOfCells(), s.getName()), (1, m.getName()), 'asSingleCell')
        near(d, [v for p in s.getBoundingBox() for v in p], [v for p in m.getBoundingBox() for v in p], 'asSingleCell box', 1e-13)
        g = d.int(0, 3)
        w = m.buildWithGhost(g)
        eq(d, w.getCellGridStructure(), tuple(n + 2 * g for n in S.cd), 'buildWithGhost')
        near(d, w.getOrigin(), [o - g * h for o, h in zip(m.getOrigin(), m.getDXYZ())], 'origin of buildWithGhost', 1e-13)
        near(d, w.getDXYZ(), m.getDXYZ(), 'spacing of buildWithGhost', 1e-15)
        fac = [d.int(1, 4) for _ in S.cd]
        r = m.deepCopy()
        r.refineWithFactor(fac)
        eq(d, r.getCellGridStructure(), tuple(n * f for n, f in zip(S.cd, fac)), 'refineWithFactor')
        near(d, [v for p in r.getBoundingBox() for v in p], [v for p in m.getBoundingBox() for v in p], 'refineWithFactor box', 1e-12)
        d.check(r.getOrigin() == m.getOrigin(), 'origin of refineWithFactor')
        d.check(raises(lambda: r.refineWithFactor([0] * S.md)), 'factor 0 accepted')
        d.check(raises(lambda: r.refineWithFactor([2] * (S.md + 1))), 'too many factors accepted')
    if S.kind == 'C':
        c = m.buildCurveLinear()
        sameU(c, 'buildCurveLinear')
        eq(d, tuple(c.getNodeGridStructure()), tuple(S.dims), 'buildCurveLinear')
    # transformations act as on the expansion
    v = [d.sint(8) / 4 for _ in range(S.sd)]
    c = m.deepCopy()
    c.translate(v)
    V = U.deepCopy()
    V.translate(v)
    d.check(c.buildUnstructured().isEqualWithoutConsideringStr(V, 1e-11), 'translate')
    p, f = [d.sint(8) / 4 for _ in range(S.sd)], d.choice((2., .5, 3., 1.))
    c.scale(p, f)
    V.scale(p, f)
    d.check(c.buildUnstructured().isEqualWithoutConsideringStr(V, 1e-11), 'scale: %s / %s', short(T(c.getCoordinatesAndOwner())), short(T(V.getCoords())))
    if S.kind == 'L' and S.sd == 2:
        a = d.uniform(-3, 3)
        c.rotate(p, a)
        V.rotate(p, a)
        d.check(c.buildUnstructured().isEqualWithoutConsideringStr(V, 1e-11), 'rotate')
    d.check(not c.isEqual(m, 1e-9) or (v == [0] * S.sd and (f == 1. or S.kind == 'L')) or c.buildUnstructured().isEqual(U, 1e-8), 'isEqual after a transformation')
    # fields
    ncomp = d.int(1, 2)
    for where, n in ((mc.ON_CELLS, S.nc), (mc.ON_NODES, S.nn)):
        arr = mc.DataArrayDouble([float(d.sint(9)) for _ in range(n * ncomp)], n, ncomp)
        fs, fu = mc.MEDCouplingFieldDouble(where), mc.MEDCouplingFieldDouble(where)
        fs.setMesh(m)
        fu.setMesh(U)
        for x in (fs, fu):
            x.setArray(arr)
            x.setNature(mc.IntensiveMaximum)
            x.checkConsistencyLight()
        if where == mc.ON_CELLS:
            for ab in (True, False):
                near(d, fs.integral(ab), fu.integral(ab), 'integral', 1e-10)
            near(d, fs.getWeightedAverageValue(), fu.getWeightedAverageValue(), 'getWeightedAverageValue', 1e-9) if abs(sum(L(U.getMeasureField(False).getArray()))) > 1e-9 else None
            near(d, [fs.normL1(j) for j in range(ncomp)], [fu.normL1(j) for j in range(ncomp)], 'normL1', 1e-10)
            near(d, [fs.normL2(j) for j in range(ncomp)], [fu.normL2(j) for j in range(ncomp)], 'normL2', 1e-10)
        fs.fillFromAnalytic(1, 'x' if S.sd == 1 else 'x+2*y' if S.sd == 2 else 'x+2*y-z')
        fu.fillFromAnalytic(1, 'x' if S.sd == 1 else 'x+2*y' if S.sd == 2 else 'x+2*y-z')
        near(d, L(fs.getArray()), L(fu.getArray()), 'fillFromAnalytic', 1e-10)
        near(d, L(fs.getLocalizationOfDiscr()), L(fu.getLocalizationOfDiscr()), 'getLocalizationOfDiscr', 1e-10)
    if S.sd == S.md:
        i = d.below(S.nc)
        p = T(U.computeCellCenterOfMass())[i]
        fs = mc.MEDCouplingFieldDouble(mc.ON_CELLS)
        fs.setMesh(m)
        fs.setArray(mc.DataArrayDouble([float(k * k + 1) for k in range(S.nc)]))
        near(d, fs.getValueOn(p), [i * i + 1.], 'getValueOn')
        pos = S.cpos(i) + [0] * (3 - S.md)
        near(d, fs.getValueOnPos(*pos), [i * i + 1.], 'getValueOnPos')
    sx, arr = m.simplexize, None
    if S.kind in 'CIL' and S.md > 1:
        pass


def box_in(d, dims, empty=False):
    out = []
    for n in dims:
        a, b = sorted((d.int(0, n), d.int(0, n)))
        if a == b and not empty:
            if b < n:
                b += 1
            else:
                a -= 1
        out.append((a, b))
    return out


def ids_of(box, dims):
    return [lin(p, dims) for p in product_first(box)]


@check(n=14400, rule='the structure has at least two entities')
def ranges(d):
    dim = d.int(1, 3)
    st = [d.int(1, 5) for _ in range(dim)]
    n = int(np.prod(st))
    d.nontrivial(n >= 2)
    box = box_in(d, st)
    ids = ids_of(box, st)
    d.sample('%s %s' % (st, box))
    eq(d, SM.DeduceNumberOfGivenStructure(st), n, 'DeduceNumberOfGivenStructure')
    eq(d, SM.DeduceNumberOfGivenRangeInCompactFrmt(box), len(ids), 'DeduceNumberOfGivenRangeInCompactFrmt')
    eq(d, list(SM.GetSplitVectFromStruct(st)), [int(np.prod(st[:k])) for k in range(dim + 1)][:len(list(SM.GetSplitVectFromStruct(st)))], 'GetSplitVectFromStruct')
    eq(d, list(SM.GetDimensionsFromCompactFrmt(box)), [b - a for a, b in box], 'GetDimensionsFromCompactFrmt')
    eq(d, list(SM.GetCompactFrmtFromDimensions(st)), [(0, k) for k in st], 'GetCompactFrmtFromDimensions')
    eq(d, L(SM.BuildExplicitIdsFrom(st, box)), ids, 'BuildExplicitIdsFrom')
    bad = list(box)
    k = d.below(dim)
    bad[k] = (bad[k][0], st[k] + 1)
    d.check(raises(lambda: SM.BuildExplicitIdsFrom(st, bad)), 'BuildExplicitIdsFrom accepts %s in %s', bad, st)
    # detection
    mode = d.below(4)
    li = list(ids)
    if mode == 1 and len(li) > 1:
        i = d.below(len(li))
        li[i] = d.below(n)
    elif mode == 2:
        li = sorted(d.sample_ids(n, d.int(1, n)))
    elif mode == 3 and len(li) > 1:
        i, j = d.below(len(li)), d.below(len(li))
        li[i], li[j] = li[j], li[i]
    ok, got = SM.IsPartStructured(li, st)
    P = [unlin(i, st) for i in li]
    hull = [(min(x), max(x) + 1) for x in zip(*P)]
    want = ids_of(hull, st) == li
    eq(d, ok, want, 'IsPartStructured %s in %s' % (li, st))
    if ok:
        eq(d, list(got), hull, 'IsPartStructured part')
    # values
    nc = d.int(1, 2)
    vals = [float(d.sint(50)) for _ in range(n * nc)]
    f = mc.DataArrayDouble(vals, n, nc)
    f.setInfoOnComponents(['c%d' % i for i in range(nc)])
    rows = T(f)
    e = SM.ExtractFieldOfDoubleFrom(st, f, box)
    eq(d, (T(e), e.getInfoOnComponents()), ([rows[i] for i in ids], f.getInfoOnComponents()), 'ExtractFieldOfDoubleFrom')
    g = f.deepCopy()
    new = mc.DataArrayDouble([float(d.sint(50)) for _ in range(len(ids) * nc)], len(ids), nc)
    SM.AssignPartOfFieldOfDoubleUsing(st, g, box, new)
    w = list(rows)
    for i, r in zip(ids, T(new)):
        w[i] = r
    eq(d, T(g), w, 'AssignPartOfFieldOfDoubleUsing')
    g = f.deepCopy()
    SM.MultiplyPartOf(st, box, 3., g)
    eq(d, T(g), [tuple(3 * x for x in r) if i in set(ids) else r for i, r in enumerate(rows)], 'MultiplyPartOf')
    # ghosts
    gh = d.int(0, 2)
    stg, boxg = SM.PutInGhostFormat(gh, st, box)
    eq(d, (list(stg), list(boxg)), ([k + 2 * gh for k in st], [(a + gh, b + gh) for a, b in box]), 'PutInGhostFormat')
    ng = int(np.prod([k + 2 * gh for k in st]))
    f = mc.DataArrayDouble([float(d.sint(50)) for _ in range(ng)], ng, 1)
    g = f.deepCopy()
    SM.MultiplyPartOfByGhost(st, box, gh, -2., g)
    idg = set(ids_of([(a + gh, b + gh) for a, b in box], [k + 2 * gh for k in st]))
    eq(d, L(g), [-2 * x if i in idg else x for i, x in enumerate(L(f))], 'MultiplyPartOfByGhost')
    c = L(SM.ComputeCornersGhost(st, gh))
    D = [k + 2 * gh for k in st]
    want = sorted({lin([i if s == 0 else D[a] - 1 - i for a, s in enumerate(sg)], D) for i in range(gh) for sg in product((0, 1), repeat=dim)})
    eq(d, sorted(c), want, 'ComputeCornersGhost(%s,%d)' % (st, gh))
    eq(d, c, sorted(c), 'ComputeCornersGhost sorted')


@check(n=18000, rule='the two ranges overlap')
def range_algebra(d):
    dim = d.int(1, 3)

    def box():
        o = []
        for _ in range(dim):
            a = d.sint(6)
            o.append((a, a + d.int(1, 5)))
        return o

    def cells(b):
        return set(product(*[range(x, y) for x, y in b]))

    A, B = box(), box()
    inter = cells(A) & cells(B)
    d.nontrivial(bool(inter))
    d.sample('%s %s' % (A, B))
    eq(d, SM.AreRangesIntersect(A, B), bool(inter), 'AreRangesIntersect(%s,%s)' % (A, B))
    if inter:
        eq(d, cells(SM.IntersectRanges(A, B)), inter, 'IntersectRanges')
    else:                       # an exception, or an empty range when the two only touch
        d.check(raises(lambda: SM.IntersectRanges(A, B)) or not cells(SM.IntersectRanges(A, B)), 'IntersectRanges of disjoint ranges')
    t = [d.sint(5) for _ in range(dim)]
    eq(d, list(SM.TranslateCompactFrmt(A, t)), [(a + k, b + k) for (a, b), k in zip(A, t)], 'TranslateCompactFrmt')
    eq(d, list(SM.FindTranslationFrom(A, SM.TranslateCompactFrmt(A, t))), t, 'FindTranslationFrom')
    # change of reference: B inside A
    S = []
    for a, b in A:
        x = d.int(a, b - 1)
        S.append((x, d.int(x + 1, b)))
    loc = SM.ChangeReferenceFromGlobalOfCompactFrmt(A, S)
    eq(d, list(loc), [(x - a, y - a) for (x, y), (a, b) in zip(S, A)], 'ChangeReferenceFromGlobalOfCompactFrmt')
    eq(d, list(SM.ChangeReferenceToGlobalOfCompactFrmt(A, loc)), S, 'ChangeReferenceToGlobalOfCompactFrmt')
    if cells(B) - cells(A):
        d.check(raises(lambda: SM.ChangeReferenceFromGlobalOfCompactFrmt(A, B, True)), 'part out of its reference accepted')
        eq(d, list(SM.ChangeReferenceFromGlobalOfCompactFrmt(A, B, False)), [(x - a, y - a) for (x, y), (a, b) in zip(B, A)], 'ChangeReferenceFromGlobalOfCompactFrmt unchecked')
        loc = [(x - a, y - a) for (x, y), (a, b) in zip(B, A)]
        d.check(raises(lambda: SM.ChangeReferenceToGlobalOfCompactFrmt(A, loc, True)), 'local part out of its reference accepted')


@check(n=9600, rule='some factor > 1')
def coarse_fine(d):
    dim = d.int(1, 3)
    st = [d.int(1, 5 if dim < 3 else 4) for _ in range(dim)]
    box = box_in(d, st)
    fac = [d.int(1, 4 if dim < 3 else 3) for _ in range(dim)]
    gh = d.int(0, 2)
    nc = d.int(1, 2)
    d.nontrivial(max(fac) > 1)
    d.sample('coarse %s part %s factors %s ghost %d' % (st, box, fac, gh))
    bd = [b - a for a, b in box]
    fd = [b * f for b, f in zip(bd, fac)]
    nC, nF = int(np.prod(st)), int(np.prod(fd))

    def arr(n):
        return mc.DataArrayDouble([float(d.sint(60)) for _ in range(n * nc)], n, nc)

    C, F = arr(nC), arr(nF)

    def coarse_of(p):   # fine position (no ghost) -> coarse position
        return [a + x // f for x, (a, b), f in zip(p, box, fac)]

    c, f = C.deepCopy(), F.deepCopy()
    IM.CondenseFineToCoarse(st, f, box, fac, c)
    w = np.array(T(C), float)
    for i in ids_of(box, st):
        w[i] = 0
    for i, r in enumerate(T(F)):
        w[lin(coarse_of(unlin(i, fd)), st)] += r
    eq(d, T(c), [tuple(x) for x in w.tolist()], 'CondenseFineToCoarse')
    c, f = C.deepCopy(), F.deepCopy()
    IM.SpreadCoarseToFine(c, st, f, box, fac)
    eq(d, T(f), [T(C)[lin(coarse_of(unlin(i, fd)), st)] for i in range(nF)], 'SpreadCoarseToFine')
    # with ghosts
    stg, fdg = [k + 2 * gh for k in st], [k + 2 * gh for k in fd]
    nC, nF = int(np.prod(stg)), int(np.prod(fdg))
    C, F = arr(nC), arr(nF)
    c, f = C.deepCopy(), F.deepCopy()
    IM.CondenseFineToCoarseGhost(st, f, box, fac, c, gh)
    w = np.array(T(C), float)
    gbox = [(a + gh, b + gh) for a, b in box]
    for i in ids_of(gbox, stg):
        w[i] = 0
    TF = T(F)
    for i in range(nF):
        p = [x - gh for x in unlin(i, fdg)]
        if all(0 <= x < n for x, n in zip(p, fd)):
            w[lin([x + gh for x in coarse_of(p)], stg)] += TF[i]
    eq(d, T(c), [tuple(x) for x in w.tolist()], 'CondenseFineToCoarseGhost')
    if gh == 0 or min(fac) < gh:
        return          # ghost values come from the first layer of coarse cells around the part
    TC = T(C)
    spread = [TC[lin([x + gh for x in coarse_of([y - gh for y in unlin(i, fdg)])], stg)] for i in range(nF)]
    f = F.deepCopy()
    IM.SpreadCoarseToFineGhost(C, st, f, box, fac, gh)
    eq(d, T(f), spread, 'SpreadCoarseToFineGhost')
    f = F.deepCopy()
    IM.SpreadCoarseToFineGhostZone(C, st, f, box, fac, gh)
    want = []
    for i in range(nF):
        inside = all(gh <= x < gh + n for x, n in zip(unlin(i, fdg), fd))
        want.append(TF[i] if inside else spread[i])
    eq(d, T(f), want, 'SpreadCoarseToFineGhostZone')
