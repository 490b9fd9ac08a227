"""C12 orientation checks and corrections: a random subset of well oriented cells is inverted by the model, exactly those are found and fixed."""
from common import *
from ref import *
import gen

ASSUMPTIONS = ['cells have flat faces and a non zero measure', 'convex standard cells', 'surfaces are manifold']


def fat(pm, m=1e-4):
    try:
        return all(abs(cell_measure_centroid(pm.sd, t, c, pm.xyz)[0]) > m for t, c in pm.cells)
    except ZeroDivisionError:
        return False


def invert(t, c):
    """mirror numbering of a cell of a 3D mesh (linear types)"""
    if t == POLYHED:
        return join_faces([[f[0]] + f[1:][::-1] for f in poly_faces(c)])
    if t == TETRA4:
        return [c[0], c[2], c[1], c[3]]
    if t == PYRA5:
        return [c[0], c[3], c[2], c[1], c[4]]
    n = len(c) // 2
    b, u = c[:n], c[n:]
    return [b[0]] + b[1:][::-1] + [u[0]] + u[1:][::-1]


def fset(t, c):
    """set of faces, as node sets"""
    return sorted(sorted(fc) for ft, fc in cell_faces(t, c))


def solid(d, **kw):
    pm = gen.mesh3d(d, nmax=2, zmax=2, perturb=False, **kw)
    d.assume(fat(pm))
    return gen.shuffle(d, pm)


@check(n=3000*2, rule='some cells inverted and some not')
def cells3d(d):
    """findAndCorrectBadOriented3DCells / ...ExtrudedCells / polyhedra checks on linear cells"""
    pm = solid(d)
    good = to_mc(pm).getMeasureField(False).getArray().getValues()
    d.check(all(x > 0 for x in good), 'the generated cells are well oriented: %s' % short(good))
    bad = sorted(d.subset(pm.nc))
    cells = [(t, invert(t, c) if i in bad else c) for i, (t, c) in enumerate(pm.cells)]
    q = PM(3, 3, pm.xyz, cells, pm.name)
    mode = d.choice(['all', 'all', 'poly', 'extruded', 'measure'])
    d.assume(mode != 'measure' or all(pm.cells[i][0] not in (POLYHED, HEXGP12) for i in bad))      # no inverter for these types, refused
    d.nontrivial(0 < len(bad) < pm.nc)
    d.label(mode, *sorted({MED_NAMES[gen.ORDER.index(t)] for t, c in pm.cells}))
    d.sample('%s: %r inverted %r' % (mode, q, bad))
    m = to_mc(q)
    eq(d, [x < 0 for x in m.getMeasureField(False).getArray().getValues()], [i in bad for i in range(pm.nc)], 'negative measures')
    if mode == 'all':
        touched = bad
        eq(d, L(m.findAndCorrectBadOriented3DCells()), bad, 'findAndCorrectBadOriented3DCells')
        again = L(m.deepCopy().findAndCorrectBadOriented3DCells())
    elif mode == 'poly':
        touched = [i for i in bad if pm.cells[i][0] == POLYHED]
        eq(d, L(m.arePolyhedronsNotCorrectlyOriented()), touched, 'arePolyhedronsNotCorrectlyOriented')
        m.orientCorrectlyPolyhedrons()
        again = L(m.arePolyhedronsNotCorrectlyOriented())
    elif mode == 'extruded':
        touched = [i for i in bad if pm.cells[i][0] in (PENTA6, HEXA8, HEXGP12)]
        eq(d, L(m.findAndCorrectBadOriented3DExtrudedCells()), touched, 'findAndCorrectBadOriented3DExtrudedCells')
        again = L(m.deepCopy().findAndCorrectBadOriented3DExtrudedCells())
    else:
        touched = bad
        m.orientCorrectly3DCells()
        again = [i for i, x in enumerate(m.getMeasureField(False).getArray().getValues()) if x < 0]
    eq(d, again, [], 'second check')
    r = from_mc(m)
    meas = m.getMeasureField(False).getArray().getValues()
    near(d, meas, [-x if i in bad and i not in touched else x for i, x in enumerate(good)], 'measures after the correction', 1e-9)
    eq(d, r.xyz, [tuple(p) for p in pm.xyz], 'coordinates')
    for i in range(pm.nc):
        if i not in touched:
            eq(d, r.cells[i], q.cells[i], 'cell %d was well oriented' % i)
        else:
            eq(d, r.cells[i][0], q.cells[i][0], 'type of cell %d' % i)
            eq(d, fset(*r.cells[i]), fset(*pm.cells[i]), 'faces of cell %d' % i)


@check(n=2000*2, rule='faces of a polyhedron inverted')
def polyhedra(d):
    """polyhedra with any subset of their faces inverted are found and repaired"""
    pm = solid(d, kinds=('polyhed', 'mix'))
    cells, bad = [], []
    for i, (t, c) in enumerate(pm.cells):
        if t == POLYHED and d.bool(.6):
            fs = poly_faces(c)
            k = d.subset(len(fs))
            # keep the first face, or invert everything around it: any subset must be repaired
            if len(k):
                bad.append(i)
            fs = [f[:1] + f[1:][::-1] if j in k else f for j, f in enumerate(fs)]
            c = join_faces(fs)
        cells.append((t, c))
    q = PM(3, 3, pm.xyz, cells, pm.name)
    d.nontrivial(bool(bad))
    d.sample('%r bad %r' % (q, bad))
    m = to_mc(q)
    eq(d, L(m.arePolyhedronsNotCorrectlyOriented()), bad, 'arePolyhedronsNotCorrectlyOriented')
    if d.bool():
        m.orientCorrectlyPolyhedrons()
    else:
        eq(d, L(m.findAndCorrectBadOriented3DCells()), bad, 'findAndCorrectBadOriented3DCells')
    eq(d, L(m.arePolyhedronsNotCorrectlyOriented()), [], 'second check')
    r = from_mc(m)
    near(d, m.getMeasureField(False).getArray().getValues(), to_mc(pm).getMeasureField(False).getArray().getValues(), 'measures', 1e-9)
    for i in range(pm.nc):
        if i in bad:
            # every face outward
            eq(d, fset(*r.cells[i]), fset(*pm.cells[i]), 'faces of cell %d' % i)
            want = [canon(f) for f in poly_faces(pm.cells[i][1])]
            eq(d, sorted(canon(f) for f in poly_faces(r.cells[i][1])), sorted(want), 'orientation of the faces of cell %d' % i)
        else:
            eq(d, r.cells[i], q.cells[i], 'cell %d' % i)


def canon(f):
    k = f.index(min(f))
    return f[k:] + f[:k]


def edges_of(t, c):
    """oriented vertex edges of a 2D cell"""
    lc = linear_conn(t, c)[1]
    return [(lc[i], lc[(i + 1) % len(lc)]) for i in range(len(lc))]


def flip2(t, c):
    if t in (TRI3, QUAD4, POLYGON):
        return [c[0]] + c[1:][::-1]
    full = t in (TRI7, QUAD9)
    body = c[:-1] if full else c
    n = len(body) // 2
    v, e = body[:n], body[n:]
    return [v[0]] + v[1:][::-1] + e[::-1] + (c[-1:] if full else [])


@check(n=3000*2, rule='some cells inverted and some not')
def cells2d(d):
    """cells of a surface with respect to a direction"""
    pm = gen.mesh2d(d, 3, hanging=True)
    d.assume(fat(pm))
    a, b, c0 = d.sint(4) / 4, d.sint(4) / 4, d.sint(8) / 4
    pm = PM(3, 2, [(x, y, a * x + b * y + c0) for x, y in pm.xyz], pm.cells, 'ms')
    quad = d.bool(.4)
    if quad:
        pm = gen.quadratic(pm, None, 0., d.bool(.3))
    normal = (-a, -b, 1.)
    if d.bool(.5):
        A = gen.rotation3(d)
        t0 = [d.sint(40) / 4. for _ in range(3)]
        pm = PM(3, 2, [gen.apply3(A, t0, p) for p in pm.xyz], pm.cells, pm.name)
        normal = gen.apply3(A, (0., 0., 0.), normal)
    pm = gen.shuffle(d, pm)
    bad = sorted(d.subset(pm.nc))
    q = PM(3, 2, pm.xyz, [(t, flip2(t, c) if i in bad else c) for i, (t, c) in enumerate(pm.cells)], pm.name)
    vec = add(mul(normal, d.int(1, 8) / 4.), [d.sint(4) / 16. for _ in range(3)])
    d.assume(dot(vec, normal) > .05 * norm(vec) * norm(normal))
    poly = d.bool(.4)
    if d.bool(.3):
        vec = mul(vec, -1.)
        wrong = [i for i in range(pm.nc) if i not in bad]
    else:
        wrong = bad
    if poly:
        wrong = [i for i in wrong if pm.cells[i][0] in (POLYGON, QPOLYG)]
    d.nontrivial(0 < len(bad) < pm.nc)
    d.label('quadratic' if quad else 'linear', 'polygons only' if poly else 'all', *sorted({MED_NAMES[gen.ORDER.index(t)] for t, c in pm.cells}))
    d.sample('%r vec %r poly %r' % (q, vec, poly))
    m = to_mc(q)
    eq(d, list(m.are2DCellsNotCorrectlyOriented(list(vec), poly).getValues()), wrong, 'are2DCellsNotCorrectlyOriented')
    m.orientCorrectly2DCells(list(vec), poly)
    r = from_mc(m)
    eq(d, list(m.are2DCellsNotCorrectlyOriented(list(vec), poly).getValues()), [], 'second check')
    for i in range(pm.nc):
        t, c = r.cells[i]
        if i not in wrong:
            eq(d, r.cells[i], q.cells[i], 'cell %d' % i)
        else:
            eq(d, t, q.cells[i][0], 'type of cell %d' % i)
            eq(d, sorted(edges_full(t, c)), sorted(rev_edges(q.cells[i])), 'edges of cell %d' % i)


def edges_full(t, c):
    """oriented edges with their mid node"""
    n = len(linear_conn(t, c)[1])
    if t in (TRI3, QUAD4, POLYGON):
        return [(c[i], c[(i + 1) % n]) for i in range(n)]
    return [(c[i], c[(i + 1) % n], c[n + i]) for i in range(n)] + [tuple(c[2 * n:])]


def rev_edges(cell):
    return [(e[1], e[0]) + e[2:] if len(e) > 1 else e for e in edges_full(*cell)]


@check(n=2500*2, rule='at least two cells')
def inversions(d):
    """invertOrientationOfAllCells and changeOrientationOfCells: measures change sign, twice is the identity up to the starting node"""
    md = d.int(1, 3)
    if md == 1:
        pm = gen.seg_mesh(d)
    elif md == 2:
        pm = gen.mesh2d(d, 3, hanging=True)
    else:
        pm = gen.mesh3d(d, nmax=2, zmax=2, perturb=False)
    d.assume(fat(pm))
    if d.bool(.4):
        pm = gen.quadratic(pm, d, 0., d.bool(.4))
    pm = gen.shuffle(d, pm)
    op = d.choice(['invert', 'change']) if md < 3 else 'invert'
    if op == 'invert' and any(t in (TRI7, QUAD9, HEXGP12, POLYHED, PENTA18, HEXA27) for t, c in pm.cells):
        if not raises(to_mc(pm).invertOrientationOfAllCells):
            d.label('more types')
        else:
            raise Discard()          # refused: no inverter for these types
    d.nontrivial(pm.nc > 1)
    d.label(op, '%dD' % md, *sorted({MED_NAMES[gen.ORDER.index(t)] for t, c in pm.cells}))
    d.sample('%s %r' % (op, pm))
    m = to_mc(pm)
    f = m.invertOrientationOfAllCells if op == 'invert' else m.changeOrientationOfCells
    v0 = m.getMeasureField(False).getArray().getValues()
    f()
    m.checkConsistency(1e-12)
    r = from_mc(m)
    if md == pm.sd and md > 1:
        near(d, m.getMeasureField(False).getArray().getValues(), [-x for x in v0], 'measures after %s' % op, 1e-9)
    eq(d, [t for t, c in r.cells], [t for t, c in pm.cells], 'types')
    eq(d, r.xyz, [tuple(p) for p in pm.xyz], 'coordinates')
    for i in range(pm.nc):
        if md == 3:
            t, c = r.cells[i]
            eq(d, fset(t, c), fset(*pm.cells[i]), 'faces of cell %d' % i)
        elif md == 2:
            eq(d, sorted(edges_full(*r.cells[i])), sorted(rev_edges(pm.cells[i])), 'edges of cell %d' % i)
        else:
            c = pm.cells[i][1]
            if op == 'invert' and pm.cells[i][0] == SEG3 and r.cells[i][1] == c[::-1]:
                d.label('SEG3 known finding')        # see known_findings.json: pinned by an existing test
                continue
            eq(d, r.cells[i][1], [c[1], c[0]] + c[2:], 'cell %d' % i)
    if md > 1 or op == 'change':
        near(d, m.getMeasureField(True).getArray().getValues(), [abs(x) for x in v0], 'absolute measures', 1e-9)
    f()
    r2 = from_mc(m)
    eq(d, r2.cells, [(t, list(c)) for t, c in pm.cells], 'twice')


@check(n=2500*2, rule='at least three connected cells')
def propagate(d):
    """orientCorrectly2DCells(reference faces): neighbours traverse their common edge in opposite directions, in the direction of the reference"""
    pm = gen.mesh2d(d, 3)
    if d.bool(.4):
        pm = gen.quadratic(pm, None)
    n0 = pm.nc
    if d.bool(.3):     # a second, separate surface
        k = pm.nn
        pm = PM(2, 2, pm.xyz + [add(p, (100., 0.)) for p in pm.xyz], pm.cells + [(t, [v + k for v in c]) for t, c in pm.cells], pm.name)
    pm = gen.shuffle(d, pm)
    if d.bool(.5):
        pm = PM(3, 2, [(x, y, .25 * x) for x, y in pm.xyz], pm.cells, pm.name)
    bad = sorted(d.subset(pm.nc))
    q = PM(pm.sd, 2, pm.xyz, [(t, flip2(t, c) if i in bad else c) for i, (t, c) in enumerate(pm.cells)], pm.name)
    m = to_mc(q)
    # components of cells connected by edges
    uf = UF(pm.nc)
    own = {}
    for i, (t, c) in enumerate(pm.cells):
        for e in edges_of(t, c):
            k = frozenset(e)
            if k in own:
                uf.union(i, own[k])
            own[k] = i
    comp = {}
    for i in range(pm.nc):
        comp.setdefault(uf.find(i), []).append(i)
    kind = d.choice(['none', 'copy', 'extra', 'extra', 'null'])
    d.nontrivial(max(len(v) for v in comp.values()) > 2 and bool(bad))
    d.label(kind, '%d components' % min(2, len(comp)), '%dD' % pm.sd)
    refs, gone, cs = {}, [], []
    if kind in ('copy', 'extra'):
        ids = d.subset(pm.nc) or [d.below(pm.nc)]
        for i in ids:
            r = uf.find(i)
            t, c = pm.cells[i]
            if kind == 'copy':          # the same faces, as they are numbered in the mesh
                if refs.setdefault(r, i not in bad) == (i not in bad):
                    cs.append(q.cells[i])
            else:                       # faces next to those of the mesh
                refs.setdefault(r, d.bool())
                gone.append(i)
                cs.append((t, c if refs[r] else flip2(t, c)))
        left = [i for i in range(pm.nc) if i not in gone]
        d.assume(left)
        q = PM(pm.sd, 2, pm.xyz, [q.cells[i] for i in left], pm.name)
        old = {i: k for k, i in enumerate(left)}
        bad = [old[i] for i in bad if i in old]
        new_comp = {}
        for root, v in comp.items():
            v = [old[i] for i in v if i in old]
            if root in refs:
                if v:
                    new_comp[root] = v
            elif v:
                new_comp[root] = v
        comp = new_comp
        pm = PM(pm.sd, 2, pm.xyz, [pm.cells[i] for i in left], pm.name)
        m = to_mc(q)
        rm = to_mc(PM(pm.sd, 2, pm.xyz, cs, 'ref'))
        rm.setCoords(m.getCoords())
    d.sample('%r reference %s' % (q, kind if not cs else kind + short(cs)))
    if kind == 'null':
        m.orientCorrectly2DCells(None)
    elif kind == 'none':
        rm = mc.MEDCouplingUMesh('ref', 2)
        rm.setCoords(m.getCoords())
        rm.allocateCells(0)
        rm.finishInsertingCells()
        m.orientCorrectly2DCells(rm)
    else:
        m.orientCorrectly2DCells(rm)
        eq(d, from_mc(rm).cells, [(t, list(c)) for t, c in cs], 'reference mesh')
    r = from_mc(m)
    same = []
    for i in range(pm.nc):
        t, c = r.cells[i]
        e = sorted(edges_full(t, c))
        if e == sorted(edges_full(*pm.cells[i])):
            same.append(True)
        elif e == sorted(rev_edges(pm.cells[i])):
            same.append(False)
        else:
            d.fail('cell %d: %r is neither %r nor its reverse' % (i, r.cells[i], pm.cells[i]))
        if same[-1] == (i not in bad):
            eq(d, c, list(q.cells[i][1]), 'cell %d did not need to be reversed' % i)
    for root, ids in comp.items():
        s = {same[i] for i in ids}
        if len(s) != 1:
            d.fail('cells %r are connected but not coherently oriented: %r' % (ids, [same[i] for i in ids]))
        if root in refs:
            eq(d, s, {refs[root]}, 'orientation of the cells %r' % ids)


@check(n=2500*2, rule='at least one butterfly cell and one sound cell')
def butterfly(d):
    """checkButterflyCells: exactly the cells with two crossing edges; convexEnvelop2D repairs the order"""
    xyz, cells, want = [], [], []
    for k in range(d.int(1, 5)):
        n = d.int(4, 7)
        ang = sorted(d.sample_ids(24, n))
        o = len(xyz)
        R = [1.] * n
        xyz += [(4. * k + r * math.cos(2 * math.pi * a / 24), r * math.sin(2 * math.pi * a / 24)) for r, a in zip(R, ang)]
        c = list(range(o, o + n))
        w = False
        if d.bool(.5):
            i = d.below(n)
            c[i], c[(i + 1) % n] = c[(i + 1) % n], c[i]
            w = True
        t = QUAD4 if n == 4 and d.bool() else POLYGON
        j = d.below(n)
        c = c[j:] + c[:j]
        cells.append((t, c if d.bool() else c[::-1]))
        if w:
            want.append(k)
    pm = PM(2, 2, xyz, cells, 'm')
    if d.bool(.4):
        A = gen.rotation3(d)
        pm = PM(3, 2, [gen.apply3(A, (0., 0., 0.), p + (0.,)) for p in pm.xyz], pm.cells, 'm')
    d.nontrivial(0 < len(want) < pm.nc)
    d.label('%dD' % pm.sd)
    d.sample(repr(pm))
    m = to_mc(pm)
    eq(d, L(m.checkButterflyCells(1e-8)), want, 'butterfly cells')
    if pm.sd == 2:
        ids = m.convexEnvelop2D() or I([])
        r = from_mc(m)
        eq(d, L(ids), want, 'cells modified by convexEnvelop2D')
        for i in range(pm.nc):
            if i in want:
                eq(d, sorted(r.cells[i][1]), sorted(pm.cells[i][1]), 'nodes of cell %d' % i)
                d.check(is_convex2d([xyz[v] for v in r.cells[i][1]]) or is_convex2d([xyz[v] for v in r.cells[i][1][::-1]]), 'cell %d is not convex: %r' % (i, r.cells[i]))
            else:
                eq(d, r.cells[i], (pm.cells[i][0], list(pm.cells[i][1])), 'cell %d' % i)


def demo_seg3():
    """invertOrientationOfAllCells swaps the end of a SEG3 with its middle node"""
    m = mc.MEDCouplingUMesh('m', 1)
    m.setCoords(mc.DataArrayDouble([0., 1., .5], 3, 1))
    m.allocateCells()
    m.insertNextCell(mc.NORM_SEG3, [0, 1, 2])
    m.invertOrientationOfAllCells()
    return L(m.getNodalConnectivity())[1:] != [1, 0, 2]
