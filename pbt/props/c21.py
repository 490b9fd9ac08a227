"""C21 fields: integrals, norms, averages, measure fields, evaluation at points, node/cell averaging."""
from fields import *

DFT = mc.MEDCouplingGaussLocalization.GetDefaultReferenceCoordinatesOf
FE_T = [SEG2, SEG3, TRI3, TRI6, TRI7, QUAD4, QUAD8, QUAD9, TETRA4, TETRA10, PYRA5, PYRA13, PENTA6, PENTA15, PENTA18, HEXA8, HEXA20, HEXA27]
DIM = {SEG2: 1, SEG3: 1, TRI3: 2, TRI6: 2, TRI7: 2, QUAD4: 2, QUAD8: 2, QUAD9: 2}


def refc(t):
    v = DFT(t).getValues()
    dim = DIM.get(t, 3)
    return [tuple(v[i:i + dim]) for i in range(0, len(v), dim)]


def measures(pm):
    return [abs(cell_measure_centroid(pm.sd, t, c, pm.xyz)[0]) for t, c in pm.cells]


def weights_model(F, meas):
    """weight of every tuple for cell and nodal fields"""
    pm = F.pm
    if F.disc == 'cell':
        return meas
    w = [0.] * pm.nn
    for (t, c), m in zip(pm.cells, meas):
        ns = sorted({v for v in c if v >= 0})
        for v in ns:
            w[v] += m / len(ns)
    return w


def stats(F, W):
    a = F.arrays[0]
    tot = sum(W)
    nc = F.nc
    return dict(integral=[sum(w * r[j] for w, r in zip(W, a)) for j in range(nc)],
                L1=[sum(w * abs(r[j]) for w, r in zip(W, a)) / tot for j in range(nc)],
                L2=[math.sqrt(sum(w * r[j] ** 2 for w, r in zip(W, a)) / tot) for j in range(nc)],
                avg=[sum(w * r[j] for w, r in zip(W, a)) / tot for j in range(nc)])


def check_stats(d, f, F, W, scale):
    s = stats(F, W)
    nc = F.nc
    S = sum(map(abs, W)) * 10
    near(d, list(f.integral(True)), s['integral'], 'integral(True)', 1e-9, S)
    near(d, list(f.normL1()), s['L1'], 'normL1', 1e-9)
    near(d, list(f.normL2()), s['L2'], 'normL2', 1e-9)
    near(d, list(f.getWeightedAverageValue(True)), s['avg'], 'getWeightedAverageValue', 1e-9)
    j = d.below(nc)
    near(d, [f.integral(j, True), f.normL1(j), f.normL2(j), f.getWeightedAverageValue(j, True)], [s['integral'][j], s['L1'][j], s['L2'][j], s['avg'][j]], 'component %d' % j, 1e-9, S)


def plain(d, F, f):
    a = F.arrays[0]
    nc = F.nc
    near(d, list(f.normMax()), [max(abs(r[j]) for r in a) for j in range(nc)], 'normMax', 1e-14)
    near(d, [f.norm2()], [math.sqrt(sum(x * x for r in a for x in r))], 'norm2', 1e-12)
    near(d, list(f.accumulate()), [sum(r[j] for r in a) for j in range(nc)], 'accumulate', 1e-12, 100)
    j = d.below(nc)
    near(d, [f.accumulate(j), f.normMax(j)], [sum(r[j] for r in a), max(abs(r[j]) for r in a)], 'component %d' % j, 1e-12, 100)
    if nc == 1:
        near(d, [f.getAverageValue()], [sum(r[0] for r in a) / len(a)], 'getAverageValue', 1e-12, 100)


@check(n=4000, rule='at least two cells with different measures')
def integrals(d):
    """integral, norms and weighted averages of cell and nodal fields from the exact measures"""
    F = field(d, d.choice(['cell', 'node']), quad=0., dims=(1, 2, 3))
    f = F.build(to_mc(F.pm))
    # measures of cells: exact formulas when the faces are planar, otherwise those of the library checked by C10
    lib = [abs(x) for x in f.getMesh().getMeasureField(True).getArray().getValues()]
    ref_m = measures(F.pm)
    planar = F.pm.md < 3 or all(t == TETRA4 for t, c in F.pm.cells)
    meas = ref_m if planar else lib
    d.nontrivial(F.pm.nc > 1 and len({round(x, 9) for x in meas}) > 1)
    d.label(F.disc, '%dD' % F.pm.md)
    d.sample(repr(F))
    W = weights_model(F, meas)
    wf = f.buildMeasureField(True)
    eq(d, wf.getTypeOfField(), f.getTypeOfField(), 'type of the measure field')
    if F.disc == 'node' and any(t == POLYHED for t, c in F.pm.cells):     # nodes repeated in the faces of a polyhedron count several times (documented)
        got = wf.getArray().getValues()
        near(d, [sum(got)], [sum(meas)], 'sum of the measures on nodes', 1e-9, max(meas))
        for v in range(F.pm.nn):
            d.check(got[v] >= -1e-12 and (got[v] > 0) == (W[v] > 0) or W[v] < 1e-12, 'measure of node %d: %r' % (v, got[v]))
        W = got
    near(d, wf.getArray().getValues(), W, 'measure field', 1e-9, max(meas))
    d.assume(sum(W) > 1e-9)
    check_stats(d, f, F, W, 1.)
    plain(d, F, f)
    # constant field
    g = F.build(f.getMesh(), [[(3.25,) * F.nc] * len(a) for a in F.arrays])
    near(d, list(g.integral(True)), [3.25 * sum(meas)] * F.nc, 'integral of a constant', 1e-9)
    near(d, list(g.normL1()) + list(g.normL2()) + list(g.getWeightedAverageValue(True)), [3.25] * 3 * F.nc, 'norms of a constant', 1e-9)


@check(n=2500, rule='at least two cells and reordered')
def invariance(d):
    """integrals and norms do not depend on the numbering of cells and nodes (every discretization); merge adds the integrals"""
    F = field(d, d.weighted([(1, 'cell'), (2, 'node'), (2, 'gauss'), (2, 'gne')]))
    f = F.build(to_mc(F.pm))
    d.nontrivial(F.pm.nc > 1)
    d.label(F.disc, '%dD' % F.pm.md)
    d.sample(repr(F))
    g = f.deepCopy()
    pc, pn = d.perm(F.pm.nc), d.perm(F.pm.nn)
    g.renumberCells(pc, True)
    if F.disc != 'fe':
        g.renumberNodes(pn, 1e-12)
    try:
        i0 = f.integral(True)
    except InterpKernelException:
        if F.disc in ('gauss', 'gne'):
            raise Discard()
        raise
    S = sum(abs(x) for x in f.buildMeasureField(True).getArray().getValues()) * 10
    d.assume(1e-9 < S)
    near(d, list(g.integral(True)), list(i0), 'integral after renumbering %r %r' % (pc, pn), 1e-9, S)
    near(d, list(g.normL2()), list(f.normL2()), 'normL2 after renumbering', 1e-9)
    near(d, list(g.normL1()), list(f.normL1()), 'normL1 after renumbering', 1e-9)
    near(d, list(g.normMax()), list(f.normMax()), 'normMax after renumbering', 1e-9)
    near(d, list(g.getWeightedAverageValue(True)), list(f.getWeightedAverageValue(True)), 'average after renumbering', 1e-9, 10.)
    h = mc.MEDCouplingFieldDouble.MergeFields(f, g)
    near(d, list(h.integral(True)), [2 * x for x in i0], 'integral of the merge of a field and its reordering', 1e-9, 2 * S)
    # definition with the measure field
    w = f.buildMeasureField(True).getArray().getValues()
    eq(d, len(w), len(F.arrays[0]), 'size of the measure field')
    check_stats(d, f, F, w, 1.)


def affine_cells(d, types=None, ncmax=4):
    """disconnected cells which are affine images of their reference element; (pm, |det| of every cell)"""
    md = d.int(1, 3)
    ts = [t for t in (types or FE_T) if DIM.get(t, 3) == md]
    sd = d.int(md, 3) if md > 1 else d.int(1, 3)
    xyz, cells, dets = [], [], []
    for k in range(d.int(1, ncmax)):
        t = d.choice(ts)
        while True:
            A = [[d.sint(6) / 2. for _ in range(md)] for _ in range(sd)]
            G = np.linalg.det(np.array(A).T @ np.array(A))
            if G > 1e-3:
                break
            d.assume(d.below(6) > 0)
        off = [d.sint(5) + 20. * k] + [d.sint(5) * 1. for _ in range(sd - 1)]
        b = len(xyz)
        for r in refc(t):
            xyz.append(tuple(off[i] + sum(A[i][j] * r[j] for j in range(md)) for i in range(sd)))
        cells.append((t, list(range(b, len(xyz)))))
        dets.append(math.sqrt(G))
    return PM(sd, md, xyz, cells), dets


def ref_measure(t):
    r = refc(t)
    lt, lc = linear_conn(t, list(range(len(r))))
    return abs(cell_measure_centroid(DIM.get(t, 3), lt, lc, r)[0])


@check(n=3000, rule='at least two cells or three Gauss points')
def gauss_affine(d):
    """on affine images of the reference elements: measure at a Gauss point = weight * |det|; integral = sum; Gauss points at their place"""
    pm, dets = affine_cells(d)
    locs, loc = gauss_locs(d, pm)
    full = d.bool(.4)
    if full:      # weights that integrate constants exactly
        locs = [(t, rc, gc, [x * ref_measure(t) / sum(w) for x in w]) for t, rc, gc, w in locs]
    F = field(d, 'gauss', td=d.choice(['no', 'one']), pm=pm)
    F = Fld(pm, 'gauss', F.tm, [rows_for(d, sum(len(locs[l][3]) for l in loc), F.nc)], F.nc, F.infos, 'double', locs, loc)
    f = F.build(to_mc(pm))
    d.nontrivial(pm.nc > 1 or len(F.arrays[0]) > 2)
    d.label(*[MED_NAMES[ORDER_OF(t)] for t, c in pm.cells])
    d.sample(repr(F))
    W = [w * dets[i] for i in range(pm.nc) for w in locs[loc[i]][3]]
    near(d, f.buildMeasureField(True).getArray().getValues(), W, 'measure at Gauss points', 1e-9, max(W))
    check_stats(d, f, F, W, 1.)
    if full:
        g = F.build(f.getMesh(), [[(2.5,) * F.nc] * len(W)])
        tot = sum(ref_measure(t) * dets[i] for i, (t, c) in enumerate(pm.cells))
        near(d, list(g.integral(True)), [2.5 * tot] * F.nc, 'integral of a constant', 1e-9)
    # position of the Gauss points: same affine map
    pos = T(f.getLocalizationOfDiscr())
    k = 0
    for i, (t, c) in enumerate(pm.cells):
        t, rc, gc, w = locs[loc[i]]
        dim = DIM.get(t, 3)
        R = np.array([list(x) + [1.] for x in refc(t)])
        X = np.array([pm.xyz[v] for v in c])
        M = np.linalg.lstsq(R, X, rcond=None)[0]
        for q in range(len(w)):
            want = np.array(list(gc[q * dim:(q + 1) * dim]) + [1.]) @ M
            near(d, list(pos[k]), list(want), 'position of Gauss point %d of cell %d' % (q, i), 1e-9, 50.)
            k += 1


def ORDER_OF(t):
    return gen.ORDER.index(t)


def N_tensor(t):
    """shape functions of SEG2, QUAD4, HEXA8 from their reference nodes"""
    r = refc(t)
    dim = len(r[0])

    def val(x):
        return [math.prod((1 + x[k] * p[k]) / 2. for k in range(dim)) for p in r]

    def der(x):
        return [[p[j] / 2. * math.prod((1 + x[k] * p[k]) / 2. for k in range(dim) if k != j) for j in range(dim)] for p in r]
    return val, der


@check(n=2500, rule='the cells are not affine images of the reference element')
def gauss_multilinear(d):
    """QUAD4 / HEXA8 of any shape: measure at a Gauss point = weight * |det J| of the multilinear map; product rules integrate constants exactly"""
    md = d.int(2, 3)
    if md == 2:
        pm = gen.mesh2d(d, 3, kinds=('quad',))
        if d.bool(.3):
            pm = gen.surf3d(d, 3, kinds=('quad',))
        if not all(t == QUAD4 for t, c in pm.cells):
            raise Discard()
    else:
        pm = gen.mesh3d(d, nmax=2, kinds=('asis',), kinds2=('quad',), perturb=True)
        if not all(t == HEXA8 for t, c in pm.cells):
            raise Discard()
    t = pm.cells[0][0]
    val, der = N_tensor(t)
    rule = d.bool(.5)
    if rule:
        g = 1 / math.sqrt(3.)
        pts = [[]]
        for _ in range(md):
            pts = [p + [s] for p in pts for s in (-g, g)]
        w = [1.] * len(pts)
    else:
        pts = [[d.sint(8) / 8. for _ in range(md)] for _ in range(d.int(1, 4))]
        w = [d.int(1, 8) / 8. for _ in pts]
    m = to_mc(pm)
    nc = d.int(1, 2)
    f = CLS['double'](mc.ON_GAUSS_PT, mc.ONE_TIME)
    f.setMesh(m)
    f.setGaussLocalizationOnType(t, [x for p in refc(t) for x in p], [x for p in pts for x in p], w)
    rows = rows_for(d, pm.nc * len(w), nc)
    f.setArray(Dbl(rows, nc))
    d.nontrivial(True)
    d.sample('%s points %r on %r' % ('product rule' if rule else 'any', pts, pm))
    W = []
    for _, c in pm.cells:
        X = np.array([pm.xyz[v] for v in c])
        for q, p in enumerate(pts):
            J = X.T @ np.array(der(p))
            W.append(w[q] * math.sqrt(max(0., np.linalg.det(J.T @ J))))
    near(d, f.buildMeasureField(True).getArray().getValues(), W, 'measure at Gauss points', 1e-8, max(W))
    pos = T(f.getLocalizationOfDiscr())
    k = 0
    for i, (_, c) in enumerate(pm.cells):
        X = np.array([pm.xyz[v] for v in c])
        for p in pts:
            near(d, list(pos[k]), list(np.array(val(p)) @ X), 'position of the Gauss point %r of cell %d' % (p, i), 1e-9, 10.)
            k += 1
    if rule and md == 2 and pm.sd == 2:
        one = CLS['double'](mc.ON_GAUSS_PT, mc.ONE_TIME)
        one.setMesh(m)
        one.setGaussLocalizationOnType(t, [x for p in refc(t) for x in p], [x for p in pts for x in p], w)
        one.setArray(Dbl([(1.,)] * len(W), 1))
        near(d, list(one.integral(True)), [sum(measures(pm))], 'integral of 1 by the product rule', 1e-9)


GROUPS = {SEG2: [[0, 1]], SEG3: [[0, 2]], TRI3: [[0, 1, 2]], TRI6: [[0, 1, 2], [3, 4, 5]], TRI7: [[0, 1, 2], [3, 4, 5], [6]], QUAD4: [[0, 1, 2, 3]], QUAD8: [[0, 1, 2, 3], [4, 5, 6, 7]],
          QUAD9: [[0, 1, 2, 3], [4, 5, 6, 7], [8]], TETRA4: [[0, 1, 2, 3]], TETRA10: [[0, 1, 2, 3], [4, 5, 6, 7, 8, 9]], PYRA5: [[0, 1, 2, 3], [4]], PYRA13: [[0, 1, 2, 3], [4], [5, 6, 7, 8], [9, 10, 11, 12]],
          PENTA6: [[0, 1, 2, 3, 4, 5]], PENTA15: [[0, 1, 2, 3, 4, 5], [6, 7, 8, 9, 10, 11], [12, 13, 14]], PENTA18: [[0, 1, 2, 3, 4, 5], [6, 7, 8, 9, 10, 11], [12, 13, 14], [15, 16, 17]],
          HEXA8: [list(range(8))], HEXA20: [list(range(8)), list(range(8, 20))], HEXA27: [list(range(8)), list(range(8, 20)), list(range(20, 26)), [26]]}


@check(n=2500, rule='at least two cells of different types')
def gauss_ne(d):
    """element-node fields: the weights of a cell sum to its measure, are equal on equivalent nodes and only depend on the type"""
    pm = mesh_for(d, 'gne', quad=.5) if d.bool(.7) else affine_cells(d)[0]
    d.assume(all(t in GROUPS for t, c in pm.cells))
    F = field(d, 'gne', td=d.choice(['no', 'one']), pm=pm)
    f = F.build(to_mc(pm))
    d.nontrivial(len({t for t, c in pm.cells}) > 1)
    d.sample(repr(F))
    try:
        W = f.buildMeasureField(True).getArray().getValues()
    except InterpKernelException as e:
        if 'weights array' in str(e) or 'not exist' in str(e) or 'Invalid' in str(e) or 'unsupported' in str(e).lower():
            d.label('refused')
            raise Discard()
        raise
    vol = f.getMesh().getMeasureField(True).getArray().getValues()
    k, seen = 0, {}
    for i, (t, c) in enumerate(pm.cells):
        w = W[k:k + len(c)]
        k += len(c)
        d.label(MED_NAMES[ORDER_OF(t)])
        near(d, [sum(w)], [vol[i]], 'sum of the weights of cell %d of type %d' % (i, t), 1e-9, max(vol))
        if vol[i] > 1e-6:
            r = [x / vol[i] for x in w]
            for g in GROUPS[t]:
                near(d, [r[x] for x in g], [r[g[0]]] * len(g), 'weights on equivalent nodes of type %d: %s' % (t, short(r)), 1e-6)
            if t in seen:
                near(d, r, seen[t], 'normalized weights of two cells of type %d' % t, 1e-8)
            seen[t] = r
    if sum(vol) > 1e-9:
        check_stats(d, f, F, W, 1.)


def inside_point(d, pm, i):
    """a point well inside cell i: interior point of a simplex of its decomposition"""
    t, c = pm.cells[i]
    lt, lc = linear_conn(t, c)
    if pm.md == 3:
        tets = tets_of(lt, lc, pm.xyz)
        tt = d.choice(tets)
        ps = [pm.xyz[v] if not isinstance(v, (tuple, list)) else tuple(v) for v in tt]
    elif pm.md == 2:
        k = d.int(1, len(lc) - 2)
        ps = [pm.xyz[v] for v in (lc[0], lc[k], lc[k + 1])]
    else:
        ps = [pm.xyz[v] for v in lc[:2]]
    w = [d.int(1, 6) for _ in ps]
    s = float(sum(w))
    return tuple(sum(w[k] * ps[k][j] for k in range(len(ps))) / s for j in range(pm.sd))


def flat_mesh(d, simplex=False):
    """mesh where cells have planar faces and are convex enough for fans to stay inside"""
    md = d.int(1, 3)
    if md == 1:
        return gen.seg_mesh(d, sd=1, nmax=8)
    if md == 2:
        return gen.mesh2d(d, 3, kinds=('tri',) if simplex else ('quad', 'tri', 'poly'), perturb=True if simplex else d.bool(.3))
    return gen.mesh3d(d, nmax=2, kinds=('tets',) if simplex else ('asis', 'pyra', 'tets', 'polyhed', 'mix'), perturb=False, affine=True)


def convex_ok(pm):
    if min(measures(pm)) < 1e-4:
        return False
    if pm.md == 2:
        return all(is_convex2d([pm.xyz[v] for v in linear_conn(t, c)[1]]) for t, c in pm.cells)
    return True


@check(n=3500, rule='at least two cells and two points')
def value_p0(d):
    """getValueOn / getValueOnMulti of cell fields: value of the cell containing the point; refused outside"""
    pm = flat_mesh(d)
    d.assume(convex_ok(pm))
    pm = gen.shuffle(d, pm, rotate=False)
    F = field(d, 'cell', td=d.choice(['no', 'one', 'const']), pm=pm)
    # distinct values identify the cells
    F.arrays = [[tuple(100. * i + j for j in range(F.nc)) for i in range(pm.nc)] for _ in F.arrays]
    f = F.build(to_mc(pm))
    cells = [d.below(pm.nc) for _ in range(d.int(1, 6))]
    pts = [inside_point(d, pm, i) for i in cells]
    d.nontrivial(pm.nc > 1 and len(pts) > 1)
    d.label('%dD' % pm.md)
    d.sample('points %r on %r' % (pts, F))
    want = [F.arrays[0][i] for i in cells]
    got = [tuple(r) for r in T(f.getValueOnMulti(Dbl(pts, pm.sd) if d.bool() else [x for p in pts for x in p]))]
    if got != want:
        d.fail('getValueOnMulti at %s: got %s, expected %s' % (short(pts), short(got), short(want)))
    for p, w in zip(pts, want):
        g = tuple(f.getValueOn(list(p)))
        if g != w:
            d.fail('getValueOn(%r): got %r, expected %r' % (p, g, w))
    out = tuple(max(q[j] for q in pm.xyz) + 3. for j in range(pm.sd))
    if not raises(lambda: f.getValueOn(list(out))):
        d.fail('getValueOn outside the mesh did not raise')
    if not raises(lambda: f.getValueOnMulti([x for p in pts + [out] for x in p])):
        d.fail('getValueOnMulti with a point outside the mesh did not raise')


@check(n=3500, rule='at least two cells and two points')
def value_p1(d):
    """nodal fields on simplices: interpolation with barycentric coordinates, exact at nodes; affine functions on other cells (getValueOnMulti)"""
    simplex = d.bool(.7)
    pm = flat_mesh(d, simplex)
    d.assume(convex_ok(pm))
    if not simplex:
        d.assume(all(t in (SEG2, TRI3, TETRA4) for t, c in pm.cells))
    pm = gen.shuffle(d, pm, rotate=False)
    lin = d.bool(.5) or not simplex
    F = field(d, 'node', td=d.choice(['no', 'one']), pm=pm)
    co = [[d.sint(8) / 2. for _ in range(pm.sd + 1)] for _ in range(F.nc)]
    fn = lambda p: tuple(c[0] + sum(c[1 + j] * p[j] for j in range(pm.sd)) for c in co)
    if lin:
        F.arrays = [[fn(p) for p in pm.xyz] for _ in F.arrays]
    f = F.build(to_mc(pm))
    cells = [d.below(pm.nc) for _ in range(d.int(1, 6))]
    pts = [inside_point(d, pm, i) for i in cells]
    want = []
    for i, p in zip(cells, pts):
        if lin:
            want.append(fn(p))
        else:
            c = pm.cells[i][1]
            A = np.array([list(pm.xyz[v]) + [1.] for v in c]).T
            l = np.linalg.solve(A, np.array(list(p) + [1.]))
            want.append(tuple(sum(l[k] * F.arrays[0][v][j] for k, v in enumerate(c)) for j in range(F.nc)))
    if d.bool(.4):
        n = d.choice(sorted(pm.used()))
        pts.append(pm.xyz[n])
        want.append(F.arrays[0][n])
    d.nontrivial(pm.nc > 1 and len(pts) > 1)
    d.label('%dD %s' % (pm.md, 'simplex' if simplex else 'any'), 'affine' if lin else 'any values')
    d.sample('points %r on %r' % (pts, F))
    got = T(f.getValueOnMulti([x for p in pts for x in p]))
    for p, g, w in zip(pts, got, want):
        near(d, list(g), list(w), 'getValueOnMulti of a nodal field at %r' % (p,), 1e-8, 30.)
        if simplex:
            near(d, list(f.getValueOn(list(p))), list(w), 'getValueOn of a nodal field at %r' % (p,), 1e-8, 30.)
    out = tuple(max(q[j] for q in pm.xyz) + 3. for j in range(pm.sd))
    if not raises(lambda: f.getValueOnMulti([x for p in pts + [out] for x in p])):
        d.fail('getValueOnMulti with a point outside the mesh did not raise')


@check(n=2500, rule='at least two evaluation points')
def value_time(d):
    """getValueOn(point, time) of fields in time: linear combination of the two ends, constant inside intervals"""
    pm = flat_mesh(d, True)
    disc = d.choice(['cell', 'node'])
    td = d.choice(['one', 'const', 'linear'])
    F = field(d, disc, td=td, pm=pm)
    f = F.build(to_mc(pm))
    pts = [inside_point(d, pm, d.below(pm.nc)) for _ in range(d.int(1, 3))]
    d.nontrivial(len(pts) > 1)
    t0, t1 = F.tm['t0'][0], F.tm['t1'][0]
    k = d.int(1, 7) / 8.
    t = t0 if td == 'one' else t0 + k * (t1 - t0)
    d.label(td, disc)
    d.sample('t=%g points %r %r' % (t, pts, F))
    for p in pts:
        G = Fld(**{q: getattr(F, q) for q in 'pm disc tm arrays nc infos kind locs loc_of name desc nature'.split()})
        G.tm = dict(F.tm, td='one')
        ends = []
        for a in F.arrays:
            G.arrays = [a]
            ends.append(G.build(f.getMesh()).getValueOn(list(p)))
        want = list(ends[0]) if td != 'linear' else [(1 - k) * x + k * y for x, y in zip(*ends)]
        near(d, list(f.getValueOn(list(p), t)), want, 'getValueOn(%r, t=%g) with %s' % (p, t, td), 1e-9, 30.)
    if not raises(lambda: f.getValueOn(list(pts[0]), t1 + 5.)):
        d.fail('getValueOn at a time out of the definition did not raise')


@check(n=2000, rule='at least four nodes')
def kriging(d):
    """kriging interpolation is exact at nodes and on affine functions"""
    md = d.int(1, 3)
    pm = gen.seg_mesh(d, sd=1, nmax=6) if md == 1 else gen.mesh2d(d, 3) if md == 2 else gen.mesh3d(d, nmax=2)
    d.assume(len({tuple(round(x, 6) for x in p) for p in pm.xyz}) == pm.nn)
    nc = d.int(1, 3)
    lin = d.bool()
    co = [[d.sint(8) / 2. for _ in range(pm.sd + 1)] for _ in range(nc)]
    fn = lambda p: tuple(c[0] + sum(c[1 + j] * p[j] for j in range(pm.sd)) for c in co)
    rows = [fn(p) for p in pm.xyz] if lin else rows_for(d, pm.nn, nc)
    f = CLS['double'](mc.ON_NODES_KR, mc.ONE_TIME)
    f.setMesh(to_mc(pm))
    f.setArray(Dbl(rows, nc))
    f.checkConsistencyLight()
    d.nontrivial(pm.nn > 3)
    d.label('%dD' % md, 'affine' if lin else 'any')
    d.sample('%r %r' % (rows, pm))
    ks = [d.below(pm.nn) for _ in range(d.int(1, 4))]
    pts = [pm.xyz[k] for k in ks]
    want = [rows[k] for k in ks]
    if lin:
        for _ in range(2):
            p = tuple(d.sint(30) / 4. for _ in range(pm.sd))
            pts.append(p)
            want.append(fn(p))
    got = T(f.getValueOnMulti([x for p in pts for x in p]))
    for p, g, w in zip(pts, got, want):
        near(d, list(g), list(w), 'kriging at %r' % (p,), 1e-6, 50.)
    near(d, list(f.getValueOn(list(pts[0]))), list(want[0]), 'kriging at %r' % (pts[0],), 1e-6, 50.)


@check(n=3000, rule='at least one inner point')
def finite_elements(d):
    """ON_NODES_FE: exact on affine functions, at nodes, and equal to the shape functions on QUAD4/HEXA8; outside is refused"""
    multi = d.bool(.3)
    if multi:
        pm = gen.mesh2d(d, 2, kinds=('quad',), perturb=True) if d.bool() else gen.mesh3d(d, nmax=2, kinds=('asis',), kinds2=('quad',), perturb=False)
        d.assume(all(t in (QUAD4, HEXA8) for t, c in pm.cells) and (pm.md == 3 or convex_ok(pm)))
        pm = gen.shuffle(d, pm, unused=False, rotate=False)
    else:
        for _ in range(30):
            pm, dets = affine_cells(d, types=[t for t in FE_T if t not in (PYRA5, PYRA13)])
            if pm.sd == pm.md:
                break
        else:
            raise Discard()
    nc = d.int(1, 2)
    lin = d.bool() and not multi
    co = [[d.sint(8) / 2. for _ in range(pm.sd + 1)] for _ in range(nc)]
    fn = lambda p: tuple(c[0] + sum(c[1 + j] * p[j] for j in range(pm.sd)) for c in co)
    rows = [fn(p) for p in pm.xyz] if lin else rows_for(d, pm.nn, nc)
    f = CLS['double'](mc.ON_NODES_FE, mc.ONE_TIME)
    f.setMesh(to_mc(pm))
    f.setArray(Dbl(rows, nc))
    i = d.below(pm.nc)
    t, c = pm.cells[i]
    pts, want = [], []
    if multi:
        val, der = N_tensor(t)
        for _ in range(2):
            x = [d.sint(6) / 8. for _ in range(pm.md)]
            N = val(x)
            pts.append(tuple(sum(N[k] * pm.xyz[v][j] for k, v in enumerate(c)) for j in range(pm.sd)))
            want.append(tuple(sum(N[k] * rows[v][j] for k, v in enumerate(c)) for j in range(nc)))
    elif lin:
        for _ in range(2):
            p = inside_point(d, pm, i)
            pts.append(p)
            want.append(fn(p))
    else:
        k = d.below(len(c))
        pts.append(pm.xyz[c[k]])
        want.append(rows[c[k]])
    d.nontrivial(multi or lin)
    d.label('multilinear' if multi else 'affine function' if lin else 'nodes', *[MED_NAMES[ORDER_OF(x)] for x in {t}])
    d.sample('points %r values %r %r' % (pts, rows, pm))
    got = T(f.getValueOnMulti([x for p in pts for x in p]))
    for p, g, w in zip(pts, got, want):
        near(d, list(g), list(w), 'FE value at %r' % (p,), 1e-5, 20.)
    near(d, list(f.getValueOn(list(pts[0]))), list(want[0]), 'FE value at %r' % (pts[0],), 1e-5, 20.)


@check(n=3000, rule='at least two cells')
def node_cell(d):
    """nodeToCell / cellToNode: average over the nodes of the cell / the cells of the node; constants are kept"""
    disc = d.choice(['node', 'cell'])
    F = field(d, disc)
    pm = F.pm
    f = F.build(to_mc(pm))
    d.nontrivial(pm.nc > 1)
    d.label(disc, F.tm['td'])
    d.sample(repr(F))
    ns = [sorted({v for v in c if v >= 0}) for t, c in pm.cells]
    plain_cells = all(t != POLYHED for t, c in pm.cells)
    if disc == 'node':
        r = f.nodeToCellDiscretization()
        groups = ns
        eq(d, r.getTypeOfField(), mc.ON_CELLS, 'type')
    else:
        r = f.cellToNodeDiscretization()
        groups = [[] for _ in range(pm.nn)]
        for i, s in enumerate(ns):
            for v in s:
                groups[v].append(i)
        eq(d, r.getTypeOfField(), mc.ON_NODES, 'type')
    eq(d, get_time(r), want_time(F.tm), 'time')
    eq(d, len(r.getArrays()), len(F.arrays), 'number of arrays')
    for k, a in enumerate(r.getArrays()):
        eq(d, a.getInfoOnComponents(), F.infos, 'infos')
        got = T(a)
        eq(d, len(got), len(groups), 'number of tuples')
        for i, g in enumerate(groups):
            if not g:
                continue      # unused node: NaN, documented
            if not plain_cells:     # nodes repeated in the faces of a polyhedron: a convex combination is all that is promised
                for j in range(F.nc):
                    lo, hi = min(F.arrays[k][v][j] for v in g), max(F.arrays[k][v][j] for v in g)
                    d.check(lo - 1e-9 <= got[i][j] <= hi + 1e-9, 'entity %d: %r is not an average of values in [%r, %r]' % (i, got[i], lo, hi))
                continue
            want = [sum(F.arrays[k][v][j] for v in g) / len(g) for j in range(F.nc)]
            near(d, list(got[i]), want, 'average at entity %d of array %d' % (i, k), 1e-10, 10.)


@check(n=2500, rule='at least two directions with more than one cell')
def value_pos(d):
    """getValueOnPos on structured meshes"""
    dim = d.int(1, 3)
    n = [d.int(2, 5) for _ in range(dim)]
    kind = d.choice(['C', 'I', 'S'])
    if kind == 'C':
        m = mc.MEDCouplingCMesh()
        for k in range(dim):
            m.setCoordsAt(k, Dbl([(float(x),) for x in range(n[k])], 1))
    elif kind == 'I':
        m = mc.MEDCouplingIMesh('m', dim, n, [0.] * dim, [1.] * dim)
    else:
        c = mc.MEDCouplingCMesh()
        for k in range(dim):
            c.setCoordsAt(k, Dbl([(float(x),) for x in range(n[k])], 1))
        m = c.buildCurveLinear()
    disc = d.choice(['cell', 'node'])
    nn = [x - 1 for x in n] if disc == 'cell' else n
    tot = math.prod(nn)
    f = CLS['double'](DISC[disc], mc.ONE_TIME)
    f.setMesh(m)
    rows = [(float(i), -float(i)) for i in range(tot)]
    f.setArray(Dbl(rows, 2))
    p = [d.below(x) for x in nn] + [0] * (3 - dim)
    d.nontrivial(sum(x > 1 for x in nn) > 1)
    d.label(kind, disc)
    d.sample('%s %s nodes=%r pos=%r' % (kind, disc, n, p))
    want = p[0] + (nn[0] * (p[1] + (nn[1] * p[2] if dim > 2 else 0)) if dim > 1 else 0)
    eq(d, tuple(f.getValueOnPos(*p)), rows[want], 'getValueOnPos%r' % (tuple(p),))
    # evaluation at the centre of a cell of the structured mesh
    if disc == 'cell' and kind != 'S':
        c = [x + .5 for x in p[:dim]]
        eq(d, tuple(f.getValueOn(c)), rows[want], 'getValueOn%r' % (c,))
        eq(d, [tuple(r) for r in T(f.getValueOnMulti(c * 2))], [rows[want]] * 2, 'getValueOnMulti')


@check(n=1500, rule='at least one cell with two Gauss points')
def voronoi(d):
    """voronoize: a cell per Gauss point with its value, containing it, the cells of a parent fill it"""
    md = d.int(1, 2) if d.bool(.6) else 3
    if md == 1:
        pm = gen.seg_mesh(d, sd=1, nmax=4)
    elif md == 2:
        pm = gen.mesh2d(d, 2, kinds=('quad', 'tri'), perturb=True)
        d.assume(convex_ok(pm))
    else:
        pm = gen.mesh3d(d, nmax=1, kinds=('asis', 'tets'), kinds2=('quad', 'tri'), perturb=False)
    d.assume(all(t in (SEG2, TRI3, QUAD4, TETRA4, HEXA8, PENTA6) for t, c in pm.cells))
    F = field(d, 'gauss', td='one', nc=1, pm=pm)
    for t, rc, gc, w in F.locs:
        dim = len(gc) // len(w)
        ps = {tuple(round(x, 6) for x in gc[k * dim:(k + 1) * dim]) for k in range(len(w))}
        d.assume(len(ps) == len(w))
    n = len(F.arrays[0])
    F.arrays = [[(float(i),) for i in range(n)]]
    f = F.build(to_mc(pm))
    d.nontrivial(max(F.np) > 1)
    d.label('%dD' % md)
    d.sample(repr(F))
    pos = T(f.getLocalizationOfDiscr())
    g = f.voronoize(1e-12)
    g.checkConsistencyLight()
    eq(d, g.getTypeOfField(), mc.ON_CELLS, 'type of field')
    eq(d, g.getNumberOfTuples(), n, 'number of cells')
    eq(d, [x[0] for x in T(g.getArray())], [float(i) for i in range(n)], 'values')
    vm = g.getMesh().buildUnstructured()
    meas = [abs(x) for x in vm.getMeasureField(True).getArray().getValues()]
    mp = [abs(x) for x in f.getMesh().getMeasureField(True).getArray().getValues()]
    k = 0
    for i in range(pm.nc):
        near(d, [sum(meas[k:k + F.np[i]])], [mp[i]], 'total measure of the Voronoi cells of cell %d' % i, 1e-7, max(mp))
        k += F.np[i]
    owner = [i for i in range(pm.nc) for _ in range(F.np[i])]
    for k in range(n):
        t, c = pm.cells[owner[k]]
        if t == QUAD4 and max(abs(pm.xyz[c[0]][j] + pm.xyz[c[2]][j] - pm.xyz[c[1]][j] - pm.xyz[c[3]][j]) for j in range(2)) > 1e-12:
            continue          # the diagram is the one of the reference element, whose straight edges are not mapped on straight edges
        ids = vm.getCellsContainingPoint(list(pos[k]), 1e-9)
        if k not in L(ids):
            d.fail('Gauss point %d at %r is not in Voronoi cell %d (found in %r)' % (k, pos[k], k, L(ids)))
