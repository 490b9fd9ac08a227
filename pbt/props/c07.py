"""C07 mesh topology: oracle = dictionaries over the node sets of the cell faces / edges (own face tables)."""
from common import *
from ref import *
import gen

ASSUMPTIONS = ['a face or edge is identified by its set of nodes; drawn arbitrary connectivities where two different faces share a node set are discarded']


def canon(nodes):
    """cyclic canonical form of an oriented closed chain"""
    k = nodes.index(min(nodes))
    return tuple(nodes[k:] + nodes[:k])


def corners(t, c):
    return linear_conn(t, c)[1]


def ty(t):
    """faces of polyhedra are stored as polygons whatever their number of nodes"""
    return POLYGON if t in (TRI3, QUAD4) else t


def oriented(t, c):
    if DIM[t] == 0:
        return tuple(c)
    if DIM[t] == 1:
        return tuple(c[:2])
    return canon(list(corners(t, c)))


def rev(t, o):
    if DIM[t] == 0:
        return o
    if DIM[t] == 1:
        return o[::-1]
    return canon(list(o[::-1]))


def draw_mesh(d, md=None, topo=.4, dims=(1, 2, 3), quad=.3):
    if d.bool(topo):
        m = md or d.choice(dims)
        pm = gen.random_topo(d, m, d.int(m, 3), empty=d.bool(.05))
    else:
        pm = gen.any_mesh(d, (md,) if md else dims, 3, quad=quad)
        if pm.nc > 1 and d.bool(.3):       # drop some cells
            keep = [i for i in range(pm.nc) if not d.bool(.3)] or [0]
            pm.cells = [pm.cells[i] for i in keep]
        if d.bool(.15):                    # reverse some cells: topology is unchanged
            pm.cells = [flip(t, c) if d.bool(.4) else (t, c) for t, c in pm.cells]
    if pm.nc and d.bool(.1):               # a cell present twice shares all its faces, in the same direction
        pm.cells.append(d.choice(pm.cells))
    d.sample(repr(pm)[:600])
    return pm


def flip(t, c):
    if t in (TRI3, QUAD4, POLYGON):
        return t, c[:1] + c[:0:-1]
    if t == SEG2:
        return t, c[::-1]
    return t, c


def faces_table(d, pm):
    """-> per cell ordered [(type,nodes)], key->list of (cell,occurrence)"""
    per, tab = [], {}
    shapes = {}
    for i, (t, c) in enumerate(pm.cells):
        fs = cell_faces(t, c)
        per.append(fs)
        for ft, f in fs:
            k = frozenset(f)
            if len(k) != len(f):
                raise Discard()
            tab.setdefault(k, []).append(i)
            o = oriented(ft, f)
            n = len(corners(ft, f))
            s = (ty(ft), min(o, rev(ft, o)), frozenset((frozenset((f[j], f[(j + 1) % n])), f[n + j]) for j in range(n)) if is_quad(ft) and DIM[ft] == 2 else 0)
            if shapes.setdefault(k, s) != s:
                raise Discard()
    return per, tab


@check(n=30000, rule='at least one face shared by two cells')
def descending(d):
    """buildDescendingConnectivity / 2 / Crude: faces exactly once, ids, orientation signs, transposed arrays"""
    pm = draw_mesh(d)
    per, tab = faces_table(d, pm)
    d.nontrivial(any(len(v) > 1 for v in tab.values()))
    d.label('dim%d' % pm.md, *{NAMES[t] for t, _ in pm.cells})
    m = to_mc(pm)
    for which in ('buildDescendingConnectivity', 'buildDescendingConnectivity2', 'crude')[::1 if pm.md > 1 else 2]:
        if which == 'crude':
            crude_check(d, pm, per, *m.buildDescendingConnectivityCrude())
            continue
        sub, desc, di, rd, rdi = getattr(m, which)()
        s = from_mc(sub) if sub.getNumberOfCells() else PM(pm.sd, pm.md - 1, pm.xyz, [])
        eq(d, sub.getMeshDimension(), pm.md - 1, which + ' dimension')
        if sub.getCoords().getHiddenCppPointer() != m.getCoords().getHiddenCppPointer():
            d.fail(which + ': coordinates not shared')
        eq(d, s.nc, len(tab), which + ' number of faces')
        keys = [frozenset(c) for _, c in s.cells]
        if len(set(keys)) != len(keys):
            d.fail(which + ': face present twice: %s' % s.cells)
        p = packs(desc, di)
        eq(d, len(p), pm.nc, which + ' desc index')
        for i, ids in enumerate(p):
            eq(d, len(ids), len(per[i]), which + ' number of faces of cell %d' % i)
            for a, (ft, f) in zip(ids, per[i]):
                if which[-1] == '2':
                    if a == 0 or abs(a) > s.nc:
                        d.fail('%s: id %d in cell %d' % (which, a, i))
                    sign, a = (1 if a > 0 else -1), abs(a) - 1
                else:
                    sign = 0
                    if not 0 <= a < s.nc:
                        d.fail('%s: id %d in cell %d' % (which, a, i))
                t2, c2 = s.cells[a]
                if ty(t2) != ty(ft) or keys[a] != frozenset(f):
                    d.fail('%s: cell %d %s has face %s, got face %d (%s %s)' % (which, i, pm.cells[i], (NAMES[ft], f), a, NAMES[t2], c2))
                o, o2 = oriented(ft, f), oriented(t2, c2)
                if o2 not in (o, rev(ft, o)):
                    d.fail('%s: face %d %s is not %s' % (which, a, c2, f))
                if sign and DIM[ft] > 0 and o != rev(ft, o) and (o == o2) != (sign > 0):
                    d.fail('%s: cell %d face %s stored as %s has sign %d' % (which, i, f, c2, sign))
        # transposed
        want = [[] for _ in range(s.nc)]
        for i, ids in enumerate(p):
            for a in ids:
                want[abs(a) - 1 if which[-1] == '2' else a].append(i)
        got = [sorted(x) for x in packs(rd, rdi)]
        eq(d, got, [sorted(x) for x in want], which + ' reverse descending')
    eq(d, L(m.computeNbOfFacesPerCell()), [len(x) for x in per], 'computeNbOfFacesPerCell')


def crude_check(d, pm, per, sub, di, rni, rd):
    s = from_mc(sub) if sub.getNumberOfCells() else PM(pm.sd, pm.md - 1, pm.xyz, [])
    flat = [(ft, list(f)) for fs in per for ft, f in fs]
    eq(d, [(ty(t), c) for t, c in s.cells], [(ty(t), c) for t, c in flat], 'buildDescendingConnectivityCrude faces')
    eq(d, L(di), [sum(len(x) for x in per[:i]) for i in range(pm.nc + 1)], 'crude desc index')
    eq(d, L(rd), [i for i, x in enumerate(per) for _ in x], 'crude reverse')


@check(n=12000, rule='at least one edge shared by two cells')
def edges(d):
    """edges of 3D cells and micro edges"""
    pm = draw_mesh(d, 3 if d.bool(.7) else 2)
    m = to_mc(pm)
    d.label('dim%d' % pm.md, *{NAMES[t] for t, _ in pm.cells})
    if pm.md == 3:
        if any(t in (HEXA27,) for t, _ in pm.cells):
            d.assume(False)
        per = [cell_edges(t, c) for t, c in pm.cells]
        one_edge_table(d, pm, per, m.explode3DMeshTo1D(), 'explode3DMeshTo1D')
        one_edge_table(d, pm, per, m.explodeIntoEdges(), 'explodeIntoEdges')
        one_edge_table(d, pm, per, m.explodeMeshTo(-2), 'explodeMeshTo(-2)')
    else:
        per = [[tuple(f) for _, f in cell_faces(t, c)] for t, c in pm.cells]
        one_edge_table(d, pm, per, m.explodeIntoEdges(), 'explodeIntoEdges')
        one_edge_table(d, pm, per, m.explodeMeshTo(-1), 'explodeMeshTo(-1)')
    if all(t not in (POLYGON, QPOLYG, POLYHED) for t, _ in pm.cells):
        per2 = [[x for e in es for x in ([e] if len(e) == 2 else [(e[0], e[2]), (e[2], e[1])])] for es in per]
        one_edge_table(d, pm, per2, m.explodeMeshIntoMicroEdges(), 'explodeMeshIntoMicroEdges')


def one_edge_table(d, pm, per, res, what):
    sub, desc, di, rd, rdi = res
    tab = {}
    for i, es in enumerate(per):
        for e in es:
            tab.setdefault(frozenset(e), []).append(i)
    ends = {}
    for es in per:
        for e in es:
            k = (frozenset(e), frozenset(e[:2]))
            if ends.setdefault(k[0], k[1]) != k[1]:
                raise Discard()
    d.nontrivial(any(len(v) > 1 for v in tab.values()))
    s = from_mc(sub) if sub.getNumberOfCells() else PM(pm.sd, 1, pm.xyz, [])
    keys = [frozenset(c) for _, c in s.cells]
    if len(set(keys)) != len(keys) or set(keys) != set(tab):
        d.fail('%s: edges %s, expected %s' % (what, sorted(map(sorted, keys)), sorted(map(sorted, tab))))
    p = packs(desc, di)
    eq(d, len(p), pm.nc, what + ' index')
    for i, ids in enumerate(p):
        eq(d, sorted(sorted(keys[a]) for a in ids), sorted(sorted(e) for e in per[i]), '%s edges of cell %d %s' % (what, i, pm.cells[i]))
    want = [[] for _ in range(s.nc)]
    for i, ids in enumerate(p):
        for a in ids:
            want[a].append(i)
    eq(d, [sorted(x) for x in packs(rd, rdi)], [sorted(x) for x in want], what + ' reverse')


@check(n=20000, rule='mesh with inner and outer faces')
def skin(d):
    """skin mesh, boundary nodes and cells, faces on nodes, cells lying on a sub-level mesh"""
    pm = draw_mesh(d, topo=.3)
    d.assume(pm.nc > 0)
    per, tab = faces_table(d, pm)
    m = to_mc(pm)
    outer = {k for k, v in tab.items() if len(v) == 1}
    d.nontrivial(outer and len(outer) < len(tab))
    orient = {frozenset(f): (ty(ft), oriented(ft, f)) for fs in per for ft, f in fs}
    for nm, s in (('computeSkin', m.computeSkin()), ('buildBoundaryMesh(True)', m.buildBoundaryMesh(True))):
        s = from_mc(s) if s.getNumberOfCells() else PM(pm.sd, pm.md - 1, pm.xyz, [])
        eq(d, sorted(sorted(c) for _, c in s.cells), sorted(map(sorted, outer)), nm)
        for t, c in s.cells:
            if (ty(t), oriented(t, c)) != orient[frozenset(c)]:
                d.fail('%s: face %s %s is not oriented as in its cell %s' % (nm, NAMES[t], c, orient[frozenset(c)]))
    s = m.buildBoundaryMesh(False)
    if s.getNumberOfCells():
        z = from_mc(s)
        eq(d, sorted(sorted(z.xyz[v] for v in c) for _, c in z.cells), sorted(sorted(pm.xyz[v] for v in k) for k in outer), 'buildBoundaryMesh(False)')
        eq(d, len(z.xyz), len({v for k in outer for v in k}), 'buildBoundaryMesh(False) number of nodes')
    else:
        eq(d, 0, len(outer), 'buildBoundaryMesh(False) empty')
    eq(d, L(m.findBoundaryNodes()), sorted({v for k in outer for v in k}), 'findBoundaryNodes')
    eq(d, L(m.findCellIdsOnBoundary()), sorted({tab[k][0] for k in outer}), 'findCellIdsOnBoundary')
    ids = d.subset(pm.nn, .6)
    ss = set(ids)
    for full in (True, False):
        f = m.buildFacePartOfMySelfNode(ids, full)
        got = sorted(sorted(c) for _, c in from_mc(f).cells) if f.getNumberOfCells() else []
        eq(d, got, sorted(sorted(k) for k in tab if (k <= ss if full else k & ss)), 'buildFacePartOfMySelfNode(%s,%s)' % (ids, full))
    if pm.md > 1:
        fm = m.buildDescendingConnectivity()[0]
        sel = d.subset(fm.getNumberOfCells(), .3) or [0]
        om = fm.buildPartOfMySelf(sel, True)
        pick = [frozenset(c) for _, c in from_mc(om).cells]
        r0, r1 = m.findCellIdsLyingOn(om)
        nodes = {v for k in pick for v in k}
        w0 = [i for i, (t, c) in enumerate(pm.cells) if nodes & set(c)]
        eq(d, L(r0), w0, 'findCellIdsLyingOn rank 0')
        eq(d, [w0[i] for i in L(r1)], sorted({i for k in pick for i in tab[frozenset(k)]}), 'findCellIdsLyingOn rank 1')


@check(n=20000, rule='at least 2 neighbour cells')
def neighbours(d):
    """cell/node neighbourhoods, reverse nodal connectivity, graph, node queries"""
    pm = draw_mesh(d, topo=.3)
    d.assume(pm.nc > 0)
    per, tab = faces_table(d, pm)
    m = to_mc(pm)
    nset = [set(v for v in c if v != -1) for _, c in pm.cells]
    # reverse nodal
    r = packs(*m.getReverseNodalConnectivity())
    eq(d, [sorted(set(x)) for x in r], [[i for i in range(pm.nc) if v in nset[i]] for v in range(pm.nn)], 'getReverseNodalConnectivity')
    ng = [set() for _ in range(pm.nc)]
    for k, v in tab.items():
        for a in v:
            ng[a].update(v)
    for i, s in enumerate(ng):
        s.discard(i)
    d.nontrivial(sum(map(len, ng)) >= 2)
    for nm, res in (('computeNeighborsOfCells', m.computeNeighborsOfCells()), ('ComputeNeighborsOfCellsAdv', mc.MEDCouplingUMesh.ComputeNeighborsOfCellsAdv(*m.buildDescendingConnectivity()[1:]))):
        got = [sorted(set(x)) for x in packs(*res)]
        eq(d, got, [sorted(s) for s in ng], nm)
    eq(d, [sorted(x) for x in packs(*m.computeEnlargedNeighborsOfNodes())],
       [sorted(set().union(*([s for s in nset if v in s] or [set()])) - {v}) for v in range(pm.nn)], 'computeEnlargedNeighborsOfNodes')
    lin = not any(is_quad(t) or t == QPOLYG for t, _ in pm.cells)
    if not any(t == HEXA27 for t, _ in pm.cells):
        adj = [set() for _ in range(pm.nn)]
        for t, c in pm.cells:
            es = [tuple(c)] if pm.md == 1 else [tuple(f) for _, f in cell_faces(t, c)] if pm.md == 2 else cell_edges(t, c)
            for e in es:
                for a in e:
                    adj[a].update(e)
        for v, s in enumerate(adj):
            s.discard(v)
        got = packs(*m.computeNeighborsOfNodes())
        if lin and (pm.md > 1 or len({frozenset(c) for _, c in pm.cells}) == pm.nc):
            got = [sorted(x) for x in got]
        else:
            got = [sorted(set(x)) for x in got]
        eq(d, got, [sorted(s) for s in adj], 'computeNeighborsOfNodes')
    if lin:
        # arcs between cells having at least meshdim nodes in common
        g = m.generateGraph()
        gi, gv = L(g.getIndexArray()), L(g.getValuesArray())
        got = [sorted(gv[a:b]) for a, b in zip(gi, gi[1:])]
        eq(d, got, [[j for j in range(pm.nc) if len(nset[i] & nset[j]) >= pm.md] for i in range(pm.nc)], 'generateGraph')
    # cell neighbourhood through nodes
    dat = [sorted(d.subset(pm.nc, .3)) for _ in range(pm.nn)]
    idx = [0]
    for x in dat:
        idx.append(idx[-1] + len(x))
    got = packs(*m.computeCellNeighborhoodFromNodesOne(I([v for x in dat for v in x]), I(idx)))
    eq(d, [sorted(x) for x in got], [sorted(set().union(*[dat[v] for v in nset[i]]) - {i}) for i in range(pm.nc)], 'computeCellNeighborhoodFromNodesOne')
    # counts and fetched nodes
    used = sorted(pm.used())
    eq(d, L(m.computeFetchedNodeIds()), used, 'computeFetchedNodeIds')
    o2n, k = m.getNodeIdsInUse()
    eq(d, (L(o2n), k), ([used.index(v) if v in used else -1 for v in range(pm.nn)], len(used)), 'getNodeIdsInUse')
    eq(d, m.areAllNodesFetched(), len(used) == pm.nn, 'areAllNodesFetched')
    eq(d, L(m.computeEffectiveNbOfNodesPerCell()), [len(s) for s in nset], 'computeEffectiveNbOfNodesPerCell')
    eq(d, L(m.computeNbOfNodesPerCell()), [len([v for v in c if v != -1]) for _, c in pm.cells], 'computeNbOfNodesPerCell')
    ids = d.subset(pm.nn, .6)
    ss = set(ids)
    eq(d, L(m.getCellIdsLyingOnNodes(ids, True)), [i for i in range(pm.nc) if nset[i] <= ss], 'getCellIdsLyingOnNodes fully')
    eq(d, L(m.getCellIdsLyingOnNodes(ids, False)), [i for i in range(pm.nc) if nset[i] & ss], 'getCellIdsLyingOnNodes partly')
    eq(d, L(m.getCellIdsFullyIncludedInNodeIds(ids)), [i for i in range(pm.nc) if nset[i] <= ss], 'getCellIdsFullyIncludedInNodeIds')
    for i in range(pm.nc):
        eq(d, list(m.getNodeIdsOfCell(i)), [v for v in pm.cells[i][1] if v != -1], 'getNodeIdsOfCell')
        eq(d, m.getTypeOfCell(i), pm.cells[i][0], 'getTypeOfCell')
    types = [t for t, _ in pm.cells]
    for t in set(types):
        eq(d, m.getNumberOfCellsWithType(t), types.count(t), 'getNumberOfCellsWithType')
        eq(d, L(m.giveCellsWithType(t)), [i for i, x in enumerate(types) if x == t], 'giveCellsWithType')
    eq(d, sorted(m.getAllGeoTypes()), sorted(set(types)), 'getAllGeoTypes')
    sm = {TRI3, TETRA4, SEG2, POINT1}
    eq(d, m.areOnlySimplexCells(), all(t in sm for t in types), 'areOnlySimplexCells')
    eq(d, m.isPresenceOfQuadratic(), any(is_quad(t) or t == QPOLYG for t in types), 'isPresenceOfQuadratic')
    eq(d, m.isFullyQuadratic(), all(is_quad(t) or t == QPOLYG for t in types), 'isFullyQuadratic')


@check(n=20000, rule='at least 2 zones or a zone of 3 cells')
def zones(d):
    """spread zones and connected components over cell neighbourhoods and arbitrary graphs"""
    if d.bool(.5):
        pm = draw_mesh(d, topo=.3)
        d.assume(pm.nc > 0)
        per, tab = faces_table(d, pm)
        n = pm.nc
        E = [(a, b) for v in tab.values() for a in v for b in v]
        m = to_mc(pm)
        nb, nbi = m.computeNeighborsOfCells()
        zs = [sorted(L(z)) for z in m.partitionBySpreadZone()]
    else:
        n = d.int(1, 14)
        E = [(d.below(n), d.below(n)) for _ in range(d.below(16))]
        adj = [set() for _ in range(n)]
        for a, b in E:
            if a != b:
                adj[a].add(b)
                adj[b].add(a)
        v, idx = [], [0]
        for s in adj:
            v += [x for x in s] + ([-1] if d.bool(.1) else [])
            idx.append(len(v))
        nb, nbi = I(v), I(idx)
        zs = [sorted(L(z)) for z in mc.MEDCouplingUMesh.PartitionBySpreadZone(nb, nbi)]
    adj = [set() for _ in range(n)]
    u = UF(n)
    for a, b in E:
        u.union(a, b)
        if a != b:
            adj[a].add(b)
            adj[b].add(a)
    comp = sorted(sorted(g) for g in u.groups())
    d.nontrivial(len(comp) > 1 or len(comp[0]) > 2)
    eq(d, sorted(zs), comp, 'partition by spread zone')
    eq(d, sorted(L(mc.MEDCouplingUMesh.ComputeSpreadZoneGradually(nb, nbi))), next(g for g in comp if 0 in g), 'ComputeSpreadZoneGradually')
    seed = sorted(set(d.below(n) for _ in range(d.int(1, 3))))
    depth = d.int(-1, 4)
    got, nbp = mc.MEDCouplingUMesh.ComputeSpreadZoneGraduallyFromSeed(seed, nb, nbi, depth)
    cur, front, k = set(seed), set(seed), 0
    while front and (depth < 0 or k < depth):
        front = set().union(*[adj[i] for i in front]) - cur
        cur |= front
        k += 1
    eq(d, sorted(L(got)), sorted(cur), 'ComputeSpreadZoneGraduallyFromSeed(%s, depth %d)' % (seed, depth))
    if depth >= 0 and nbp > depth:
        d.fail('ComputeSpreadZoneGraduallyFromSeed performed %d peels, limit %d' % (nbp, depth))


@check(n=20000, rule='at least 3 segments')
def chains(d):
    """ordering of 1D cells, contiguity"""
    sd = d.int(1, 3)
    nch = d.int(1, 3)
    nn = 0
    cells = []
    quad = d.bool(.2)
    for _ in range(nch):
        k = d.int(1, 6)
        closed = k > 2 and d.bool(.3)
        ids = list(range(nn, nn + k + (0 if closed else 1)))
        nn += len(ids)
        for i in range(k):
            cells.append([ids[i], ids[(i + 1) % len(ids)]])
    p = d.perm(nn)
    cells = [[p[a], p[b]] for a, b in cells]
    shuf = d.bool(.7)
    if shuf:
        o = d.perm(len(cells))
        cells = [cells[i] if d.bool(.5) else cells[i][::-1] for i in o]
    n0 = nn
    if quad:
        cells = [(SEG3, c + [nn + i]) for i, c in enumerate(cells)]
        nn += len(cells)
    else:
        cells = [(SEG2, c) for c in cells]
    nn += d.below(3)
    pm = PM(sd, 1, [tuple(d.sint(20) / 2 for _ in range(sd)) for _ in range(nn)], cells)
    d.nontrivial(len(cells) > 2)
    d.sample(repr(pm.cells))
    m = to_mc(pm)
    cont = all(cells[i][1][1] == cells[i + 1][1][0] for i in range(len(cells) - 1))
    eq(d, m.isContiguous1D(), cont, 'isContiguous1D of %s' % cells)
    r = L(m.orderConsecutiveCells1D())
    eq(d, sorted(r), list(range(len(cells))), 'orderConsecutiveCells1D is a permutation')
    # every connected piece is a run of consecutive positions, neighbours in the piece follow each other
    u = UF(nn)
    for _, c in cells:
        u.union(c[0], c[1])
    seq = [cells[i][1][:2] for i in r]
    for orderd in (seq,):
        brk = 0
        for a, b in zip(orderd, orderd[1:]):
            if not set(a) & set(b):
                brk += 1
        npieces = len({u.find(c[0]) for _, c in cells})
        if brk > npieces - 1:
            d.fail('orderConsecutiveCells1D of %s gives %s: %d breaks for %d pieces' % (cells, r, brk, npieces))
    deg = {}
    for _, c in cells:
        for v in c[:2]:
            deg[v] = deg.get(v, 0) + 1
    # a branching point is refused
    v = d.choice(sorted(deg))
    if deg[v] == 2:
        br = PM(sd, 1, pm.xyz, cells + [(SEG2, [v, next(w for w in deg if w != v)])])
        if not raises(lambda: to_mc(br).orderConsecutiveCells1D()):
            d.fail('orderConsecutiveCells1D accepts a branching line')
