"""C09 extracting, replacing, splitting, merging, comparing cells: oracle = list of (type, connectivity)."""
from common import *
from ref import *
import gen

ASSUMPTIONS = ['cells given twice the same node are not generated in comparison checks']
MED = [mc.__dict__['NORM_' + n] for n in MED_NAMES]


def draw(d, **kw):
    return gen.random_topo(d, empty=d.bool(.05), **kw) if d.bool(.7) else gen.any_mesh(d, (0, 1, 2, 3), 3, quad=.3)


def nodes_of(t, c):
    return {v for v in c if v >= 0}


def same_coords(d, a, b, what, want=True):
    eq(d, a.getCoords().getHiddenCppPointer() == b.getCoords().getHiddenCppPointer(), want, what + ' coordinates sharing')


def zipped(pm, cells):
    """cells + coordinates without the unused nodes, order kept"""
    u = sorted({v for t, c in cells for v in c if v >= 0})
    new = {o: n for n, o in enumerate(u)}
    return [tuple(pm.xyz[v]) for v in u], [(t, [v if v < 0 else new[v] for v in c]) for t, c in cells], [new.get(i, -1) for i in range(pm.nn)]


@check(n=20000, rule='a part that is neither empty nor the whole mesh')
def extract(d):
    """buildPartOfMySelf*, m[...], buildPart(AndReduceNodes), by slice, by nodes, by type"""
    pm = draw(d)
    d.sample(repr(pm)[:500])
    m = to_mc(pm, 'nm')
    m.setDescription('dd')
    m.setTime(1.5, 3, 4)
    nc = pm.nc
    ids = [d.below(nc) for _ in range(d.below(8))] if nc else []
    want = [pm.cells[i] for i in ids]
    d.nontrivial(0 < len(ids) and set(ids) != set(range(nc)))
    arg = d.choice([I(ids), ids, tuple(ids)]) if ids else I(ids)
    keep = d.bool()
    how = d.below(4)
    if how == 0:
        p = m.buildPartOfMySelf(arg, keep)
    elif how == 1:
        keep, p = True, m[arg]
    elif how == 2:
        keep, p = True, m.buildPart(arg)
    else:
        keep, p = False, None
        p, o2n = m.buildPartAndReduceNodes(arg)
    q = from_mc(p)
    if keep:
        same_coords(d, p, m, 'part')
        eq(d, q.cells, want, 'part %s' % ids)
    else:
        x, c, o = zipped(pm, want)
        eq(d, (q.xyz, q.cells), (x, c), 'part %s, reduced' % ids)
        if how == 3:
            eq(d, L(o2n), o, 'buildPartAndReduceNodes correspondence')
    eq(d, (p.getName(), p.getMeshDimension()), ('nm', pm.md), 'name and dimension of the part')
    eq(d, from_mc(m).cells, pm.cells, 'the mesh itself')
    # slices (python semantics)
    st, en, step = d.below(nc + 1), d.below(nc + 1), d.choice([1, 1, 2, 3, -1, -2])
    if step > 0:
        st, en = min(st, en), max(st, en)
    else:
        st, en = max(st, en) - 1, min(st, en) - 1
    rg = list(range(st, en, step))
    if all(0 <= i < nc for i in rg) and st >= 0 and (step > 0 or en >= -1):
        p = m.buildPartOfMySelfSlice(st, en, step)
        eq(d, from_mc(p).cells, [pm.cells[i] for i in rg], 'buildPartOfMySelfSlice(%d,%d,%d)' % (st, en, step))
        same_coords(d, p, m, 'slice')
        p = m.buildPartRange(st, en, step)
        eq(d, from_mc(p).cells, [pm.cells[i] for i in rg], 'buildPartRange')
        p, a = m.buildPartRangeAndReduceNodes(st, en, step)
        q = from_mc(p)
        x, c, o = zipped(pm, [pm.cells[i] for i in rg])
        eq(d, (q.xyz, q.cells), (x, c), 'buildPartRangeAndReduceNodes')
        # "a" is a slice when the range covers... an id array otherwise
        if isinstance(a, (mc.DataArrayInt64, mc.DataArrayInt32)):
            eq(d, L(a), o, 'buildPartRangeAndReduceNodes correspondence')
        sl = slice(*[d.choice([None, -nc, nc, d.sint(nc)]) for _ in range(2)], d.choice([None, 1, 2, -1, -2]))
        if pm.cells[sl] and (sl.start is None or sl.start < nc):        # ranges going backwards or out of bounds are refused
            eq(d, from_mc(m[sl]).cells, pm.cells[sl], 'mesh[%s]' % sl)
    if nc:
        i = d.below(nc)
        eq(d, from_mc(m[i]).cells, [pm.cells[i]], 'mesh[i]')
    # by nodes
    ns = d.subset(pm.nn, d.choice([.2, .5, .9]))
    s = set(ns)
    for full in (True, False):
        w = [i for i, (t, c) in enumerate(pm.cells) if (nodes_of(t, c) <= s if full else nodes_of(t, c) & s)]
        a = I([ns[i] for i in d.perm(len(ns))]) if d.bool() else I(ns)
        eq(d, sorted(L(m.getCellIdsLyingOnNodes(a, full))), w, 'getCellIdsLyingOnNodes(%s,%s)' % (ns, full))
        if full:
            eq(d, sorted(L(m.getCellIdsFullyIncludedInNodeIds(ns))), w, 'getCellIdsFullyIncludedInNodeIds')
        p = m.buildPartOfMySelfNode(a, full)
        eq(d, from_mc(p).cells, [pm.cells[i] for i in w], 'buildPartOfMySelfNode')
        same_coords(d, p, m, 'buildPartOfMySelfNode')
        if pm.md > 1 and nc:
            p = m.buildFacePartOfMySelfNode(a, full)
            desc = from_mc(m.buildDescendingConnectivity()[0]).cells
            f = [c for c in desc if (nodes_of(*c) <= s if full else nodes_of(*c) & s)]
            eq(d, from_mc(p).cells, f, 'buildFacePartOfMySelfNode(%s,%s)' % (ns, full))
            same_coords(d, p, m, 'buildFacePartOfMySelfNode')
    # by type
    ts = [t for t, _ in pm.cells]
    for t in sorted(set(ts)) + [t for t in MED if DIM[t] == pm.md][:2]:
        w = [i for i, x in enumerate(ts) if x == t]
        eq(d, L(m.giveCellsWithType(t)), w, 'giveCellsWithType(%s)' % NAMES[t])
        eq(d, m.getNumberOfCellsWithType(t), len(w), 'getNumberOfCellsWithType')
        if ids:
            eq(d, L(m.keepCellIdsByType(t, I(ids))), [i for i in ids if ts[i] == t], 'keepCellIdsByType')
        if w:
            u = m.buildUnstructured()[I(w)]
            eq(d, from_mc(u).cells, [pm.cells[i] for i in w], 'part by type')
    eq(d, sorted(m.getTypesOfPart(I(ids))), sorted({ts[i] for i in ids}), 'getTypesOfPart')
    eq(d, [m.getTypeOfCell(i) for i in range(nc)], ts, 'getTypeOfCell')
    eq(d, sorted(m.getAllGeoTypes()), sorted(set(ts)), 'getAllGeoTypes')
    eq(d, [m.getNumberOfNodesInCell(i) for i in range(nc)], [sum(v >= 0 for v in c) for t, c in pm.cells], 'getNumberOfNodesInCell')
    eq(d, L(m.computeNbOfNodesPerCell()), [sum(v >= 0 for v in c) for t, c in pm.cells], 'computeNbOfNodesPerCell')


@check(n=12000, rule='at least one cell replaced and one kept')
def replace(d):
    """setPartOfMySelf(Slice), m[ids]=other"""
    pm = draw(d)
    if not pm.nc:
        raise Discard()
    m = to_mc(pm)
    nc = pm.nc
    if d.bool():
        step = d.choice([1, 2, 3])
        st = d.below(nc)
        en = st + d.below(nc - st + 1)
        ids = list(range(st, en, step))
        sl = True
    else:
        ids = d.sample_ids(nc, d.below(nc + 1))
        sl = False
    types = [t for t in gen.TYPES_BY_DIM[pm.md]]
    keepsz = d.bool(.3)
    new = []
    for i in ids:
        t = d.choice(types)
        if keepsz:
            t, c = pm.cells[i]
            new.append((t, c[1:] + c[:1] if t != POLYHED else c))
        elif gen.NN.get(t, 8) > pm.nn:
            new.append(pm.cells[i])
        else:
            new.append((t, gen.random_conn(d, t, pm.nn)))
    d.nontrivial(0 < len(set(ids)) < nc)
    d.sample('%s ids %s new %s' % (repr(pm)[:300], ids, str(new)[:200]))
    o = to_mc(PM(pm.sd, pm.md, pm.xyz, new))
    o.setCoords(m.getCoords())
    want = list(pm.cells)
    for i, c in zip(ids, new):
        want[i] = c
    if sl:
        if d.bool():
            m.setPartOfMySelfSlice(st, en, step, o)
        else:
            m[st:en:step] = o
    elif len(set(ids)) == len(ids) or not keepsz:
        if d.bool():
            m.setPartOfMySelf(I(ids), o)
        else:
            m[I(ids)] = o
    else:
        m.setPartOfMySelf(ids, o)
    eq(d, from_mc(m).cells, want, 'replacing cells %s' % ids)
    eq(d, sorted(m.getAllGeoTypes()), sorted({t for t, _ in want}), 'getAllGeoTypes after replacement')
    m.checkConsistencyLight()
    if ids:
        o2 = to_mc(PM(pm.sd, pm.md, pm.xyz, new[1:]))
        o2.setCoords(m.getCoords())
        if not raises(lambda: m.setPartOfMySelf(I(ids), o2)):
            d.fail('setPartOfMySelf accepts a mesh with a wrong number of cells')
        o.setCoords(m.getCoords().deepCopy())
        if not raises(lambda: m.setPartOfMySelf(I(ids), o)):
            d.fail('setPartOfMySelf accepts a mesh on other coordinates')
        eq(d, from_mc(m).cells, want, 'mesh after refused replacements')


@check(n=15000, rule='two types or more')
def bytype(d):
    """splitByType, AggregateSortedByTypeMeshesOnSameCoords, getDistributionOfTypes, splitProfilePerType, checkTypeConsistencyAndContig"""
    pm = gen.random_topo(d, empty=False, ncmax=12)
    order = MED if d.bool(.5) else [MED[i] for i in d.perm(len(MED))]
    pm.cells.sort(key=lambda x: order.index(x[0]))
    ts = [t for t, _ in pm.cells]
    tt = list(dict.fromkeys(ts))
    d.nontrivial(len(tt) > 1)
    d.sample(str([NAMES[t] for t in ts]))
    m = to_mc(pm)
    cnt = [ts.count(t) for t in tt]
    off = [sum(cnt[:i]) for i in range(len(tt))]
    parts = m.splitByType()
    eq(d, [from_mc(p).cells for p in parts], [[c for c in pm.cells if c[0] == t] for t in tt], 'splitByType')
    for p in parts:
        same_coords(d, p, m, 'splitByType')
    r = mc.MEDCouplingUMesh.MergeUMeshesOnSameCoords(parts)
    eq(d, from_mc(r).cells, pm.cells, 'MergeUMeshesOnSameCoords of splitByType')
    same_coords(d, r, m, 'MergeUMeshesOnSameCoords')
    dist = m.getDistributionOfTypes()
    eq(d, [tuple(x) for x in dist], [(t, n, -1) for t, n in zip(tt, cnt)], 'getDistributionOfTypes')
    rg = mc.MEDCouplingUMesh.ComputeRangesFromTypeDistribution([v for x in zip(tt, cnt, off) for v in x])
    eq(d, T(rg), [(o, o + n) for o, n in zip(off, cnt)], 'ComputeRangesFromTypeDistribution')
    # profile
    pfl = d.subset(pm.nc, d.choice([.3, .7, 1.]))
    if d.bool(.4):
        pfl = [pfl[i] for i in d.perm(len(pfl))]
    smart = d.bool(.7)
    code, inpfl, per = m.splitProfilePerType(I(pfl), smart)
    want, wi, wp = [], [], []
    for t, n, o in zip(tt, cnt, off):
        k = [i for i, c in enumerate(pfl) if ts[c] == t]
        if k:
            loc = [pfl[i] - o for i in k]
            full = smart and loc == list(range(n))
            want.append([t, len(k), -1 if full else len(wp)])
            wi.append(k)
            if not full:
                wp.append(loc)
    eq(d, ([list(c) for c in code], [L(x) for x in inpfl], [L(x) for x in per]), (want, wi, wp), 'splitProfilePerType(%s, %s)' % (pfl, smart))
    # inverse when grouped by type
    if pfl == sorted(pfl) and pfl:
        a = m.checkTypeConsistencyAndContig([list(c) for c in code], per)
        if a is None:
            eq(d, pfl, list(range(pm.nc)), 'checkTypeConsistencyAndContig gives no array')
        else:
            eq(d, L(a), pfl, 'checkTypeConsistencyAndContig')
        k = d.below(len(code))
        bad = [list(c) for c in code]
        bad[k][1] += 1
        if not raises(lambda: m.checkTypeConsistencyAndContig(bad, per)):
            d.fail('checkTypeConsistencyAndContig accepts %s' % bad)
    # aggregation keeping types together
    if d.bool(.7):
        ms, pms = [], []
        for _ in range(d.int(1, 3)):
            ids = d.subset(pm.nc, .5)
            q = PM(pm.sd, pm.md, pm.xyz, sorted([pm.cells[i] for i in ids], key=lambda x: MED.index(x[0])))
            x = to_mc(q)
            x.setCoords(m.getCoords())
            ms.append(x)
            pms.append(q)
        if sum(q.nc for q in pms):
            r, sz, idm = mc.MEDCouplingUMesh.AggregateSortedByTypeMeshesOnSameCoords(ms)
            w, ws, wi = [], [], []
            for t in MED:
                for k, q in enumerate(pms):
                    sel = [c for c in q.cells if c[0] == t]
                    if sel:
                        w += sel
                        ws.append(len(sel))
                        wi.append(k)
            eq(d, (from_mc(r).cells, L(sz), L(idm)), (w, ws, wi), 'AggregateSortedByTypeMeshesOnSameCoords')
            same_coords(d, r, m, 'AggregateSortedByTypeMeshesOnSameCoords')


@check(n=12000, rule='two or more meshes with cells')
def aggregate(d):
    """MergeUMeshes (and mergeMyselfWith, MergeMeshes), partition then merge back"""
    pm = draw(d)
    n = d.int(1, 4)
    pms = [pm] + [gen.random_topo(d, pm.md, pm.sd, empty=d.bool(.2)) for _ in range(n - 1)]
    pms = [pms[i] for i in d.perm(n)]
    ms = [to_mc(q, 'm%d' % i) for i, q in enumerate(pms)]
    for i in range(1, n):                       # some share their coordinates
        if d.bool(.2) and pms[i].nn <= pms[i - 1].nn:
            ms[i].setCoords(ms[i - 1].getCoords())
            pms[i] = PM(pm.sd, pm.md, pms[i - 1].xyz, pms[i].cells)
    d.nontrivial(n > 1 and all(q.nc for q in pms))
    d.sample('%d meshes %s' % (n, repr(pm)[:300]))
    if d.bool(.3) and n == 2:
        r = d.choice([lambda: ms[0].mergeMyselfWith(ms[1]), lambda: mc.MEDCouplingUMesh.MergeUMeshes(ms[0], ms[1]), lambda: mc.MEDCouplingMesh.MergeMeshes(ms[0], ms[1])])()
    else:
        r = d.choice([mc.MEDCouplingUMesh.MergeUMeshes, mc.MEDCouplingMesh.MergeMeshes])(ms)
    want, xyz, o = [], [], 0
    for q in pms:
        want += [(t, [v if v < 0 else v + o for v in c]) for t, c in q.cells]
        xyz += [tuple(p) for p in q.xyz]
        o += q.nn
    q = from_mc(r)
    eq(d, (q.xyz, q.cells), (xyz, want), 'MergeUMeshes')
    eq(d, r.getMeshDimension(), pm.md, 'dimension')
    k = 0
    for i, q in enumerate(pms):
        eq(d, from_mc(ms[i]).cells, q.cells, 'operand changed')
        back, = [r[k:k + q.nc]]
        back.zipCoords()
        eq(d, cellgeo(from_mc(back)), cellgeo(q), 'part %d of the merged mesh' % i)
        k += q.nc
    # random partition and merge back
    if pm.nc:
        m = to_mc(pm)
        g = [d.below(3) for _ in range(pm.nc)]
        ids = [[i for i in range(pm.nc) if g[i] == k] for k in range(3)]
        ids = [x for x in ids if x]
        ps = [m[x] for x in ids]
        r = mc.MEDCouplingUMesh.MergeUMeshesOnSameCoords(ps)
        flat = [i for x in ids for i in x]
        eq(d, from_mc(r).cells, [pm.cells[i] for i in flat], 'MergeUMeshesOnSameCoords')
        r.renumberCells(flat)
        eq(d, r.isEqual(m, 1e-12) or from_mc(r).cells == pm.cells, True, 'partition, merge and renumber')
        a = ps[0].mergeMyselfWithOnSameCoords(ps[-1])
        eq(d, from_mc(a).cells, [pm.cells[i] for i in ids[0] + ids[-1]], 'mergeMyselfWithOnSameCoords')
        ps[0].setCoords(ps[0].getCoords().deepCopy())
        if len(ps) > 1 and not raises(lambda: mc.MEDCouplingUMesh.MergeUMeshesOnSameCoords(ps)):
            d.fail('MergeUMeshesOnSameCoords accepts meshes that do not share')


def corners2(t, c):
    """(corners, mids, centre) of a 2D cell"""
    n = len(c)
    if t in (TRI6, QUAD8, QPOLYG):
        return c[:n // 2], c[n // 2:], ()
    if t in (TRI7, QUAD9):
        return c[:n // 2], c[n // 2:n - 1], c[n - 1:]
    return c, (), ()


def rot(t, c, k):
    a, b, e = corners2(t, c)
    return list(a[k:]) + list(a[:k]) + list(b[k:]) + list(b[:k]) + list(e)


def revd(t, c):
    if DIM[t] == 1:
        return [c[1], c[0]] + ([c[2]] if t == SEG3 else [c[3], c[2]] if t == SEG4 else [])
    a, b, e = corners2(t, c)
    return [a[0]] + list(a[:0:-1]) + list(b[::-1]) + list(e)


def same(pol, A, B):
    """comparison policy; 1 / 0, and 2 for opposite orientation (policy 7)"""
    (t, a), (u, b) = A, B
    if pol == 3:
        return int(nodes_of(t, a) == nodes_of(u, b))
    if t != u or len(a) != len(b):
        return 0
    a, b = list(a), list(b)
    if pol == 0 or DIM[t] == 0 and pol != 2:
        return int(a == b)
    if pol == 2:
        return int(nodes_of(t, a) == nodes_of(u, b))
    if DIM[t] == 1:
        if a == b:
            return 1
        return 2 if pol == 7 and revd(t, a) == b else 0
    n = len(corners2(t, a)[0])
    if any(rot(t, a, k) == b for k in range(n)):
        return 1
    if pol == 7 and any(rot(t, revd(t, a), k) == b for k in range(n)):
        return 2
    return 0


def variant(d, t, c):
    """another writing of the same cell, or a near miss"""
    k = d.below(6)
    c = list(c)
    if k == 0 or t == POLYHED or DIM[t] == 0:
        return t, c
    if k == 1 and DIM[t] == 2:
        return t, rot(t, c, d.below(len(corners2(t, c)[0])))
    if k == 2 and DIM[t] in (1, 2) and t != POLYL:
        r = revd(t, c)
        return t, rot(t, r, d.below(len(corners2(t, r)[0]))) if DIM[t] == 2 else r
    if k == 3:
        return t, [c[i] for i in d.perm(len(c))]
    if k == 4 and t == TRI3:
        return POLYGON, c
    if k == 4 and t == QUAD4:
        return POLYGON, c
    if k == 5:
        i, j = d.below(len(c)), d.below(len(c))
        c[i], c[j] = c[j], c[i]
    return t, c


def dup_mesh(d, md=None):
    pm = gen.random_topo(d, md, empty=False, ncmax=6, nnmax=4)
    cells = list(pm.cells)
    if pm.md == 1:
        cells = [c for c in cells if c[0] not in (SEG4, POLYL)] or [(SEG2, [0, 1])]
    for _ in range(d.below(6)):
        cells.append(variant(d, *d.choice(cells)))
    pm.cells = [cells[i] for i in d.perm(len(cells))]
    return pm


@check(n=25000, rule='at least two equal cells')
def common(d):
    """findCommonCells, zipConnectivityTraducer, FuseUMeshesOnSameCoords, areCellsIncludedIn(Policy7), areCellsFrom2MeshEqual"""
    pm = dup_mesh(d)
    d.sample(repr(pm)[:600])
    pol = d.choice([0, 2] if pm.md in (0, 3) else [0, 1, 2, 7])
    d.label('policy %d' % pol)
    cs = pm.cells
    n = pm.nc
    groups = []
    seen = set()
    for i in range(n):
        if i not in seen:
            g = [j for j in range(i, n) if same(pol, cs[i], cs[j])]
            if any(same(pol, cs[x], cs[y]) == 0 for x in g for y in g):
                raise Discard()
            seen |= set(g)
            groups.append(g)
    d.nontrivial(any(len(g) > 1 for g in groups))
    m = to_mc(pm)
    c, ci = m.findCommonCells(pol)
    got = packs(c, ci)
    if pol == 7:
        want = [[g[0]] + [j for j in g[1:]] for g in groups if len(g) > 1]
        eq(d, sorted(got), sorted(want), 'findCommonCells(7)')
    else:
        eq(d, sorted(sorted(g) for g in got), sorted(g for g in groups if len(g) > 1), 'findCommonCells(%d)' % pol)
        i, j = d.below(n), d.below(n)
        x = m.deepCopy()
        if pol != 2 or pm.md != 3:
            o2n = L(x.zipConnectivityTraducer(pol))
            w = {}
            for k, g in enumerate(groups):
                for a in g:
                    w[a] = k
            eq(d, o2n, [w[a] for a in range(n)], 'zipConnectivityTraducer(%d)' % pol)
            q = from_mc(x)
            eq(d, len(q.cells), len(groups), 'cells after zipConnectivityTraducer')
            for k, g in enumerate(groups):
                if q.cells[k] not in [cs[a] for a in g]:
                    d.fail('zipConnectivityTraducer: cell %d is %s, none of %s' % (k, q.cells[k], [cs[a] for a in g]))
            # fuse
            g = [d.below(3) for _ in range(n)]
            ids = [[a for a in range(n) if g[a] == k] for k in range(3)]
            ids = [v for v in ids if v]
            if all(v for v in ids):
                ps = [m[v] for v in ids]
                f, corr = mc.MEDCouplingUMesh.FuseUMeshesOnSameCoords(ps, pol)
                qf = from_mc(f)
                eq(d, qf.nc, len(groups), 'FuseUMeshesOnSameCoords number of cells')
                for v, co in zip(ids, corr):
                    for a, b in zip(v, L(co)):
                        if not same(pol, cs[a], qf.cells[b]):
                            d.fail('FuseUMeshesOnSameCoords: cell %s sent to %s' % (cs[a], qf.cells[b]))
    # inclusion
    g = [d.below(3) for _ in range(n)]
    A, B = [i for i in range(n) if g[i]], [i for i in range(n) if g[i] != 1]
    if d.bool(.1):
        B = []
    a, b = m[I(A)], m[I(B)]
    if pol == 7:
        first = [next(((x, same(7, cs[A[x]], cs[j])) for x in range(len(A)) if same(7, cs[A[x]], cs[j])), None) for j in B]
        if B:
            ok, arr = a.areCellsIncludedInPolicy7(b)
            eq(d, ok, None not in first, 'areCellsIncludedInPolicy7')
            if ok:
                for v, j in zip(L(arr), B):
                    k = abs(v) - 1
                    if not 0 <= k < len(A) or same(7, cs[A[k]], cs[j]) != (1 if v > 0 else 2):
                        d.fail('areCellsIncludedInPolicy7: %s -> %d' % (cs[j], v))
    elif pol in (0, 1, 2):
        ok, arr = a.areCellsIncludedIn(b, pol)
        arr = L(arr)
        eq(d, len(arr), len(B), 'areCellsIncludedIn length')
        inc = [any(same(pol, cs[x], cs[j]) for x in A) for j in B]
        eq(d, ok, all(inc), 'areCellsIncludedIn(%d)' % pol)
        for v, j, i in zip(arr, B, inc):
            if (0 <= v < len(A)) != i or i and not same(pol, cs[A[v]], cs[j]):
                d.fail('areCellsIncludedIn(%d): cell %s -> %d, %s (this: %s)' % (pol, cs[j], v, 'present' if i else 'absent', [cs[x] for x in A]))
        # all policies agree with the pairwise test
        for p in ([0, 2] if pm.md in (0, 3) else [0, 1, 2]):
            i, j = d.below(n), d.below(n)
            o = to_mc(PM(pm.sd, pm.md, pm.xyz, [cs[j]]))
            o.setCoords(m.getCoords())
            got = m[[i]].areCellsIncludedIn(o, p)[0]
            if bool(got) != bool(same(p, cs[i], cs[j])):
                d.fail('policy %d: %s vs %s -> %s' % (p, cs[i], cs[j], got))


@check(n=15000, rule='two meshes that differ by numbering or by one cell')
def equiv(d):
    """checkGeoEquivalWith / checkDeepEquivalWith / OnSameNodes / checkFastEquivalWith, isEqual levels"""
    pm = gen.any_mesh(d, (1, 2, 3), 2, quad=.2)
    eps = 2. ** -10
    # distinct nodes, distinct cells by node set
    if len({tuple(p) for p in pm.xyz}) != pm.nn:
        raise Discard()
    if len({frozenset(c) for _, c in pm.cells}) != pm.nc or not pm.nc:
        raise Discard()
    m = to_mc(pm)
    d.sample(repr(pm)[:500])
    pol = d.choice([0, 2] if pm.md == 3 else [0, 1, 2])
    samenodes = d.bool(.4)
    pn = list(range(pm.nn)) if samenodes else d.perm(pm.nn)        # new -> old
    pc = d.perm(pm.nc)
    inv = [0] * pm.nn
    for n, o in enumerate(pn):
        inv[o] = n
    cells = []
    for i in pc:
        t, c = pm.cells[i]
        c = list(c)
        if pol >= 1 and DIM[t] == 2:
            c = rot(t, c, d.below(len(corners2(t, c)[0])))
        if pol == 2 and DIM[t] < 3 and d.bool(.3):
            c = [c[k] for k in d.perm(len(c))]
        cells.append((t, [v if v < 0 else inv[v] for v in c]))
    xyz = [tuple(pm.xyz[o]) for o in pn]
    if not samenodes:
        xyz = [tuple(x + d.sint(2) / 4 * eps for x in p) for p in xyz]
    bad = d.choice([None, None, None, 'type', 'node', 'coord', 'missing'])
    if bad == 'node':
        k = d.below(pm.nc)
        t, c = cells[k]
        out = [v for v in range(pm.nn) if v not in c]
        if not out:
            raise Discard()
        c2 = list(c)
        j = d.choice([x for x in range(len(c)) if c[x] >= 0])
        old, nw = c[j], d.choice(out)
        c2 = [nw if v == old else v for v in c]
        if frozenset(c2) in {frozenset(c) for _, c in cells}:
            raise Discard()
        cells[k] = (t, c2)
    elif bad == 'coord' and not samenodes:
        j = d.below(pm.nn)
        p = list(xyz[j])
        p[d.below(pm.sd)] += 3000.
        xyz[j] = tuple(p)
    elif bad == 'missing':
        cells.pop()
        if not cells:
            raise Discard()
    else:
        bad = None
    d.label(str(bad), 'pol%d' % pol)
    d.nontrivial(bad is not None or pc != list(range(pm.nc)) or pn != list(range(pm.nn)))
    o = to_mc(PM(pm.sd, pm.md, xyz, cells))
    if samenodes:
        o.setCoords(m.getCoords())
    lev = (20 if samenodes else 10) + pol

    def run():
        if d.bool():
            return m.checkGeoEquivalWith(o, lev, eps)
        return (m.checkDeepEquivalOnSameNodesWith(o, pol, eps), None) if samenodes else m.checkDeepEquivalWith(o, pol, eps)
    if bad == 'missing' and samenodes:      # on shared nodes, a part of the mesh is accepted (user guide), not the converse
        cc, _ = run()
        eq(d, L(cc) if cc is not None else list(range(pm.nc - 1)), pc[:-1], 'cell correspondence of a part, level %d' % lev)
        if not raises(lambda: o.checkDeepEquivalOnSameNodesWith(m, pol, eps)):
            d.fail('level %d: a mesh with one more cell is reported equivalent' % lev)
        return
    if bad:
        try:
            r = run()
        except InterpKernelException:
            return
        d.fail('level %d: meshes that differ (%s) are reported equivalent: %s' % (lev, bad, r))
    cc, nc_ = run()
    cc = L(cc) if cc is not None else list(range(pm.nc))
    eq(d, cc, pc, 'cell correspondence, level %d' % lev)
    nn = L(nc_) if nc_ is not None else list(range(pm.nn))
    eq(d, nn, pn, 'node correspondence, level %d' % lev)
    # identical copies pass every level, the fast check included
    c = m.deepCopy()
    for lv in (0, 1, 2, 10, 12):
        m.checkGeoEquivalWith(c, lv, 1e-12)
    m.checkFastEquivalWith(c, 1e-12)
    c.setName('other')
    if not raises(lambda: m.checkGeoEquivalWith(c, 0, 1e-12)):
        d.fail('level 0 ignores the name')
    m.checkGeoEquivalWith(c, 2, 1e-12)
    if pm.nc > 1:
        c = m[:-1]
        for lv in (0, 1, 2, 10):
            if not raises(lambda: m.checkGeoEquivalWith(c, lv, 1e-12)):
                d.fail('level %d accepts a mesh with a missing cell' % lv)
    x = c.getCoords().deepCopy()
