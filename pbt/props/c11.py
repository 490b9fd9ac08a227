"""C11 type conversions: measure, centre of mass and orientation of every cell kept, announced types, maps new -> old."""
from common import *
from ref import *
import gen

ASSUMPTIONS = ['faces of 3D cells are flat', 'curved edges are arcs of circles (2D) for tessellate2D, straight elsewhere']


def geo(sd, t, c, xyz):
    try:
        return cell_measure_centroid(sd, t, c, xyz)
    except ZeroDivisionError:
        return 0., None


def fat(pm, m=1e-4):
    return all(abs(geo(pm.sd, t, c, pm.xyz)[0]) > m for t, c in pm.cells)


def convex(pm, i):
    t, c = pm.cells[i]
    ns = {v for v in c if v >= 0}
    for _, f in cell_faces(*linear_conn(t, c)):
        n = poly_normal3d([pm.xyz[v] for v in f])
        s = [dot(n, sub(pm.xyz[v], pm.xyz[f[0]])) for v in ns]
        if min(s) < -1e-12 < 1e-12 < max(s):
            return False
    return True


def flat_convex(ps):
    n = poly_normal3d(ps)
    if norm(n) < 1e-6:
        return False
    return all(dot(cross(sub(ps[i], ps[i - 1]), sub(ps[(i + 1) % len(ps)], ps[i])), n) > -1e-12 for i in range(len(ps)))


def geos(pm):
    return [geo(pm.sd, t, c, pm.xyz) for t, c in pm.cells]


def same_cells(d, pm, q, what):
    eq(d, q.nc, pm.nc, what + ': number of cells')
    for i, ((m0, c0), (m1, c1)) in enumerate(zip(geos(pm), geos(q))):
        near(d, [m1], [m0], '%s: measure of cell %d' % (what, i), 1e-10, max(1., abs(m0)))
        near(d, list(c1), list(c0), '%s: centre of cell %d' % (what, i), 1e-9, 4.)
        if pm.md == 2 and pm.sd == 3:
            n0, n1 = (poly_normal3d([x.xyz[v] for v in linear_conn(*x.cells[i])[1]]) for x in (pm, q))
            d.check(dot(n0, n1) > 0, '%s: orientation of cell %d' % (what, i))


def parts(d, pm, q, n2o, what, o2n_all=True):
    """cells of q cover those of pm, through n2o"""
    eq(d, len(n2o), q.nc, what + ': length of the map')
    S, C = [0.] * pm.nc, [(0.,) * pm.sd] * pm.nc
    for (m, c), o in zip(geos(q), n2o):
        d.check(0 <= o < pm.nc, '%s: id %d in the map' % (what, o))
        if c is None:
            continue
        S[o] += m
        C[o] = add(C[o], mul(c, m))
    for i, (m, c) in enumerate(geos(pm)):
        near(d, [S[i]], [m], '%s: measure of the parts of cell %d' % (what, i), 1e-10, max(1., abs(m)))
        near(d, list(mul(C[i], 1 / S[i])), list(c), '%s: centre of the parts of cell %d' % (what, i), 1e-9, 8.)


def base(d, dims=(2, 3), quad=.2):
    pm = gen.any_mesh(d, dims=dims, quad=quad, nmax=3)
    if pm.md == 3:
        d.assume(all(m > 1e-4 for m, c in geos(pm)))
    elif pm.md == 2:
        d.assume(fat(pm))
    return pm


POLY = {2: (POLYGON, QPOLYG), 3: (POLYHED, POLYHED)}


@check(n=5000, rule='some cells converted and some not')
def poly(d):
    """convertToPolyTypes / convertAllToPoly, then unPolyze gives the classical types back"""
    pm = base(d)
    m = to_mc(pm)
    ids = sorted(d.subset(pm.nc)) if d.bool(.8) else list(range(pm.nc))
    if len(ids) == pm.nc and d.bool():
        m.convertAllToPoly()
    else:
        m.convertToPolyTypes(I(d.perm_of(ids) if hasattr(d, 'perm_of') else ids))
    d.nontrivial(0 < len(ids) < pm.nc)
    d.label(*sorted({MED_NAMES[gen.ORDER.index(t)] for t, c in pm.cells}))
    d.sample('%r converted %r' % (pm, ids))
    m.checkConsistency(1e-12)
    q = from_mc(m)
    s = set(ids)
    eq(d, [t for t, c in q.cells], [POLY[pm.md][is_quad(t)] if i in s else t for i, (t, c) in enumerate(pm.cells)], 'types after conversion')
    eq(d, [c for i, (t, c) in enumerate(q.cells) if i not in s], [c for i, (t, c) in enumerate(pm.cells) if i not in s], 'untouched cells')
    same_cells(d, pm, q, 'conversion')
    eq(d, sorted(set(m.getAllGeoTypes())), sorted({t for t, c in q.cells}), 'getAllGeoTypes')
    if pm.md == 3:
        for i in ids:
            if not is_quad(pm.cells[i][0]):
                eq(d, sorted(sorted(f) for f in poly_faces(q.cells[i][1])), sorted(sorted(f) for _, f in cell_faces(*pm.cells[i])), 'faces of cell %d' % i)
    m2 = m.deepCopy()
    r = m2.unPolyze()
    q2 = from_mc(m2)
    m2.checkConsistency(1e-12)
    if any(is_quad(t) for t, c in pm.cells) and pm.md == 3:
        d.label('quadratic 3D')
        return
    same_cells(d, pm, q2, 'unPolyze')
    back = {TRI7: TRI6, QUAD9: QUAD8}

    def simple(t, c):
        if t in (POLYGON, QPOLYG):
            n = len(c)
            return {3: TRI3, 4: QUAD4}.get(n, t) if t == POLYGON else {6: TRI6, 8: QUAD8}.get(n, t)
        if t == POLYHED:
            fs = sorted(len(f) for f in poly_faces(c))
            k = {(3, 3, 3, 3): TETRA4, (3, 3, 3, 3, 4): PYRA5, (3, 3, 4, 4, 4): PENTA6, (4,) * 6: HEXA8, (4,) * 6 + (6, 6): HEXGP12}.get(tuple(fs), t)
            return k
        return t
    want = [simple(*(q.cells[i])) for i in range(pm.nc)]
    eq(d, [t for t, c in q2.cells], want, 'types after unPolyze')
    eq(d, r, any(a != b for a, b in zip(want, [t for t, c in q.cells])), 'unPolyze tells whether something changed')
    m3 = m2.deepCopy()
    eq(d, m3.unPolyze(), False, 'unPolyze again')
    d.check(m3.isEqual(m2, 0.), 'unPolyze again changes the mesh')
    k = d.choice((-1, pm.nc, pm.nc + 5))
    d.check(raises(lambda: m3.convertToPolyTypes(I([k]))), 'convertToPolyTypes(%d) accepted' % k)


@check(n=3500, rule='a cell split and another kept')
def simplexize(d):
    """simplexize of 2D and 3D meshes, every policy; nodes untouched"""
    pm = base(d, quad=.1)
    m = to_mc(pm)
    pol = d.choice((0, 1)) if pm.md == 2 else d.choice((mc.PLANAR_FACE_5, mc.PLANAR_FACE_6))
    split = (QUAD4,) if pm.md == 2 else (HEXA8,)
    d.label('policy %d' % pol)
    d.sample('%r policy %d' % (pm, pol))
    n2o = L(m.simplexize(pol))
    q = from_mc(m)
    m.checkConsistency(1e-12)
    d.nontrivial(any(t in split for t, c in pm.cells) and any(t not in split for t, c in pm.cells))
    eq(d, q.xyz, pm.xyz, 'nodes after simplexize')
    parts(d, pm, q, n2o, 'simplexize')
    per = {QUAD4: 2, HEXA8: 5 if pol == mc.PLANAR_FACE_5 else 6}
    want = []
    for i, (t, c) in enumerate(pm.cells):
        want += [(i, {QUAD4: TRI3, HEXA8: TETRA4}[t])] * per[t] if t in split else [(i, t)]
    eq(d, [(o, t) for o, (t, c) in zip(n2o, q.cells)], want, 'order and types of the new cells')
    for o, (t, c) in zip(n2o, q.cells):
        if pm.cells[o][0] in split:
            d.check(set(c) <= set(pm.cells[o][1]), 'new cell %r out of cell %d' % (c, o))
            d.check(geo(pm.sd, t, c, pm.xyz)[0] > 1e-12 if pm.sd == pm.md else True, 'flat or inverted part %r of cell %d' % (c, o))
        else:
            eq(d, c, pm.cells[o][1], 'kept cell %d' % o)
    if pm.md == 2:
        for i, (t, c) in enumerate(pm.cells):
            if t == QUAD4:
                diag = {c[0], c[2]} if pol == 0 else {c[1], c[3]}
                d.check(all(diag <= set(x) for o, (_, x) in zip(n2o, q.cells) if o == i), 'diagonal of cell %d' % i)
    bad = d.choice((0, 1)) if pm.md == 3 else d.choice((mc.PLANAR_FACE_5, mc.PLANAR_FACE_6))
    d.check(raises(lambda: to_mc(pm).simplexize(bad)), 'policy %d accepted in dimension %d' % (bad, pm.md))
    d.check(raises(lambda: to_mc(pm).simplexize(d.choice((mc.GENERAL_24, mc.GENERAL_48, 33)))), 'unknown policy accepted')


@check(n=2500, rule='at least two types, one of them not simplicial')
def tetrahedrize(d):
    """tetrahedrize with the four policies"""
    pm = base(d, dims=(3,), quad=0.)
    m = to_mc(pm)
    pol = d.choice((mc.PLANAR_FACE_5, mc.PLANAR_FACE_6, mc.GENERAL_24, mc.GENERAL_48))
    ts = {t for t, c in pm.cells}
    d.nontrivial(len(ts) > 1)
    d.label('policy %d' % pol, *sorted(MED_NAMES[gen.ORDER.index(t)] for t in ts))
    d.sample('%r policy %d' % (pm, pol))
    r, n2o, add_ = m.tetrahedrize(pol)
    d.check(m.isEqual(to_mc(pm), 0.), 'tetrahedrize changed its mesh')
    eq(d, r.getCellModelEnum(), TETRA4, 'type of the result')
    q = from_mc(r.buildUnstructured())
    r.checkConsistency(1e-12)
    eq(d, q.nn, pm.nn + add_, 'number of nodes')
    eq(d, q.xyz[:pm.nn], pm.xyz, 'original nodes')
    parts(d, pm, q, L(n2o), 'tetrahedrize')
    used = {v for t, c in q.cells for v in c}
    eq(d, sorted(v for v in range(pm.nn, q.nn) if v not in used), [], 'added nodes left unused')
    for o, (t, c) in zip(L(n2o), q.cells):
        d.check(geo(3, t, c, q.xyz)[0] > -1e-12 or not convex(pm, o), 'inverted part of cell %d' % o)
        d.check(all(v >= pm.nn or v in set(pm.cells[o][1]) for v in c), 'part of cell %d out of it' % o)
    if pol in (mc.GENERAL_24, mc.GENERAL_48):
        k = 24 if pol == mc.GENERAL_24 else 48
        cnt = [0] * pm.nc
        for o in L(n2o):
            cnt[o] += 1
        eq(d, [cnt[i] for i, (t, c) in enumerate(pm.cells) if t == HEXA8], [k for t, c in pm.cells if t == HEXA8], 'tetrahedra per hexahedron')


FULL = {TRI3: TRI7, QUAD4: QUAD9, HEXA8: HEXA27, PENTA6: PENTA18}


@check(n=5000, rule='several cells sharing an edge')
def linear_quadratic(d):
    """convertLinearCellsToQuadratic (both kinds) against the model, and back"""
    pm = base(d, dims=(1, 2, 3), quad=.15)
    kind = d.below(2)
    m = to_mc(pm)
    d.nontrivial(pm.nc > 1)
    d.label('kind %d dim %d' % (kind, pm.md))
    d.sample('%r kind %d' % (pm, kind))
    lin = [i for i, (t, c) in enumerate(pm.cells) if not is_quad(t) and t in QUADR and t not in (POLYHED, HEXGP12)]
    if kind == 1 and any(not is_quad(t) and t not in (SEG2, TRI3, QUAD4, HEXA8) for t, c in pm.cells):
        # no such quadratic type
        d.check(raises(lambda: m.convertLinearCellsToQuadratic(1)), 'conversion of kind 1 without the type')
        eq(d, from_mc(m).cells, pm.cells, 'mesh after a refusal')
        return
    ids = m.convertLinearCellsToQuadratic(kind)
    eq(d, sorted(L(ids)), lin, 'ids of the converted cells')
    m.checkConsistency(1e-12)
    q = from_mc(m)
    eq(d, q.xyz[:pm.nn], pm.xyz, 'original nodes')
    ref = gen.quadratic(PM(pm.sd, pm.md, pm.xyz, [pm.cells[i] for i in lin]), None, 0., kind == 1)
    if kind == 1:
        for (t, c), i in zip(ref.cells, lin):
            t0, c0 = pm.cells[i]
            if t in (TRI7, QUAD9):
                ref.xyz[c[-1]] = tuple(geo(pm.sd, t0, c0, pm.xyz)[1])
            elif t == HEXA27:
                ref.xyz[c[26]] = tuple(geo(3, t0, c0, pm.xyz)[1])
                for _, f in FACES[HEXA27]:
                    ref.xyz[c[f[8]]] = tuple(geo(3, QUAD4, [c[k] for k in f[:4]], pm.xyz)[1])
    want, it = [], iter(ref.cells)
    for i, (t, c) in enumerate(pm.cells):
        want.append(next(it) if i in set(lin) else (t, c))
    W = PM(pm.sd, pm.md, ref.xyz, want)
    if any(t in (PYRA5, HEXA8, PENTA6, TETRA4) for t, c in pm.cells) and kind == 1:
        eq(d, [t for t, c in q.cells], [t for t, c in want], 'types')
    shape = lambda x: [(t, [v >= 0 for v in c]) for t, c in x.cells]
    eq(d, shape(q), shape(W), 'shape of the quadratic cells')
    for i, ((t, c), (t1, c1)) in enumerate(zip(q.cells, W.cells)):
        near(d, [x for v in c if v >= 0 for x in q.xyz[v]], [x for v in c1 if v >= 0 for x in W.xyz[v]], 'nodes of quadratic cell %d' % i, 1e-9, 4.)
    if len(lin) == pm.nc:
        eq(d, q.nn, W.nn, 'nodes shared between the cells')
    m2 = m.deepCopy()
    m2.convertQuadraticCellsToLinear()
    b = from_mc(m2)
    lin0 = [(t, c) if not is_quad(t) else linear_conn(t, c) for t, c in pm.cells]
    eq(d, b.cells, [(t, list(c)) for t, c in lin0], 'linear cells back')
    eq(d, b.xyz, q.xyz, 'nodes of the linear mesh')
    if pm.md in (2, 3) and kind == 0 and all(t in (TRI3, QUAD4, TETRA4, PYRA5, PENTA6, HEXA8) for t, c in pm.cells):
        # middles given by a mesh of SEG3 with the same nodes
        e = to_mc(pm)
        for _ in range(pm.md - 1):
            e = e.buildUnstructured().buildDescendingConnectivity()[0]
        e = PM(pm.sd, 1, pm.xyz, from_mc(e).cells)
        e = gen.quadratic(gen.shuffle(d, e, nodes=False, unused=False), d, .125)
        s3 = to_mc(e)
        q3 = mc.MEDCoupling1SGTUMesh(s3)
        src = to_mc(pm)
        src.setCoords(s3.getCoords())
        r = from_mc(src.convertToQuadraticBasedOnSeg3(q3))
        mid = {tuple(sorted(c[:2])): e.xyz[c[2]] for t, c in e.cells}
        edges = {TRI3: [(0, 1), (1, 2), (2, 0)], QUAD4: [(0, 1), (1, 2), (2, 3), (3, 0)]}
        for i, ((t, c), (t2, c2)) in enumerate(zip(pm.cells, r.cells)):
            eq(d, t2, QUADR[t], 'convertToQuadraticBasedOnSeg3: type of cell %d' % i)
            n = len(c)
            eq(d, c2[:n], c, 'convertToQuadraticBasedOnSeg3: vertices of cell %d' % i)
            ed = edges[t] if t in edges else EDGES3[t]
            eq(d, [r.xyz[v] for v in c2[n:]], [mid[tuple(sorted((c[a], c[b])))] for a, b in ed], 'convertToQuadraticBasedOnSeg3: middles of cell %d' % i)


@check(n=6000, rule='a cell reduced without vanishing')
def degenerated(d):
    """convertDegeneratedCells (and removal of the flat ones) after merging nodes of random edges"""
    md = d.choice((2, 3))
    pm = gen.mesh2d(d, 3) if md == 2 else gen.mesh3d(d, 2, zmax=2, perturb=False)
    pm = gen.shuffle(d, pm)
    uf = list(range(pm.nn))
    edges = sorted({tuple(sorted(e)) for t, c in pm.cells for e in cell_edges(t, c)}) if md == 3 else sorted({tuple(sorted((c[i - 1], c[i]))) for t, c in pm.cells for i in range(len(c))})
    for _ in range(d.int(1, 3)):
        a, b = d.choice(edges)
        a, b = uf[a], uf[b]
        uf = [a if x == b else x for x in uf]
    cells = [(t, [uf[v] if v >= 0 else -1 for v in c]) for t, c in pm.cells]
    q = PM(pm.sd, md, pm.xyz, cells)
    rm = d.bool()
    m = to_mc(q)
    touched = [len({v for v in c if v >= 0}) < len({v for v in c0 if v >= 0}) for (t, c), (t0, c0) in zip(cells, pm.cells)]
    d.label(*sorted({MED_NAMES[gen.ORDER.index(t)] for (t, c), x in zip(cells, touched) if x}))
    d.sample('%r merged %s' % (pm, [(i, v) for i, v in enumerate(uf) if i != v]))

    def vol(t, c):
        if md == 2:
            return poly_area2d([pm.xyz[v] for v in c]), None
        return solid_volume_centroid([[pm.xyz[k] for k in f] for _, f in cell_faces(t, c)])
    gone = []
    if rm:
        gone = L(m.convertDegeneratedCellsAndRemoveFlatOnes())
    else:
        m.convertDegeneratedCells()
    r = from_mc(m)
    keep = [i for i in range(pm.nc) if i not in set(gone)]
    eq(d, r.nc, len(keep), 'number of cells')
    for i in gone:
        d.check(abs(vol(*cells[i])[0]) < 1e-12, 'cell %d removed with a measure of %g' % (i, vol(*cells[i])[0]))
    red = False
    for i, (t, c) in zip(keep, r.cells):
        t0, c0 = cells[i]
        if not touched[i]:
            if t0 != POLYHED or t == POLYHED:
                eq(d, (t, c), (t0, c0), 'cell %d without repeated nodes' % i)
                continue
        v0 = vol(t0, c0)
        if abs(v0[0]) > 1e-9:
            red = True
            flatfaces = md == 2 or all(abs(dot(unitn(ps), sub(p, ps[0]))) < 1e-9 for ps in ([pm.xyz[k] for k in f] for _, f in cell_faces(t0, c0)) if len(set(ps)) > 3 for p in ps)
            d.check({v for v in c if v >= 0} <= {v for v in c0 if v >= 0}, 'cell %d gets other nodes' % i)
            if t != POLYHED:
                eq(d, len([k for k in range(len(c)) if c[k - 1] != c[k]]) if md == 2 else len(set(c)), len(c), 'nodes of cell %d still repeated (%r -> %r %r)' % (i, c0, t, c))
            else:
                for f in poly_faces(c):
                    d.check(len(set(f)) == len(f) >= 3, 'face %r of cell %d, from %r %r' % (f, i, t0, c0))
            if flatfaces:
                v1 = vol(t, c)
                near(d, [abs(v1[0])], [abs(v0[0])], 'measure of reduced cell %d %r %r -> %r %r' % (i, t0, c0, t, c), 1e-9, 4.)
                d.check(v0[0] * v1[0] > 0, 'cell %d turned over: %r %r -> %r %r' % (i, t0, c0, t, c))
            else:
                d.label('warped')
    d.nontrivial(red)


def unitn(ps):
    n = poly_normal3d(ps)
    l = norm(n)
    return mul(n, 1 / l) if l else n


@check(n=1500, rule='null and non null segments')
def degenerated1d(d):
    """removeDegenerated1DCells"""
    n = d.int(2, 6)
    cells = [d.choice([(SEG2, [d.below(n), d.below(n)]), (SEG3, [d.below(n), d.below(n), d.below(n)])]) for _ in range(d.size(8, 1))]
    pm = PM(2, 1, [(float(i), 0.) for i in range(n)], cells)
    m = to_mc(pm)
    keep = [(t, c) for t, c in cells if c[0] != c[1]]
    d.nontrivial(0 < len(keep) < len(cells))
    eq(d, m.removeDegenerated1DCells(), len(keep) < len(cells), 'removeDegenerated1DCells')
    eq(d, from_mc(m).cells, keep, 'remaining segments')


@check(n=2000, rule='an extruded polyhedron')
def extruded(d):
    """convertExtrudedPolyhedra: polyhedra given as two bases; refused when the node count is odd"""
    pm2 = gen.mesh2d(d, 2)
    xyz, cells = gen.extrude_cells(pm2, gen.incr(d, d.int(1, 2) + 1), d)
    flat = []
    for t, c in cells:
        if t == POLYHED or d.bool():
            fs = [f for _, f in cell_faces(t, c)]
            n = len(fs[0])
            base_, rest = fs[0], fs[2:]
            up = {}
            for f in rest:
                for a, b in zip(f, f[1:] + f[:1]):
                    if a in base_ and b not in base_:
                        up[a] = b
                    if b in base_ and a not in base_:
                        up[b] = a
            flat.append((POLYHED, list(base_) + [up[v] for v in base_]))
        else:
            flat.append((t, c))
    d.nontrivial(any(t == POLYHED for t, c in flat))
    src = PM(3, 3, xyz, flat)
    m = to_mc(src)
    m.convertExtrudedPolyhedra()
    q = from_mc(m)
    eq(d, [t for t, c in q.cells], [t for t, c in flat], 'types')
    same_cells(d, PM(3, 3, xyz, cells), q, 'convertExtrudedPolyhedra')
    for (t, c), (t0, c0) in zip(q.cells, cells):
        if t == POLYHED:
            eq(d, sorted(sorted(f) for f in poly_faces(c)), sorted(sorted(f) for _, f in cell_faces(t0, c0)), 'faces')
    if any(t == POLYHED for t, c in flat):
        i = d.choice([i for i, (t, c) in enumerate(flat) if t == POLYHED])
        ref = to_mc(PM(3, 3, xyz, flat[:i] + [(POLYHED, flat[i][1][:-1])] + flat[i + 1:]))
        bad = ref.deepCopy()
        d.check(raises(bad.convertExtrudedPolyhedra), 'odd polyhedron accepted')
        d.check(bad.isEqual(ref, 0.), 'refused mesh changed')


@check(n=1200, rule='coplanar faces merged')
def simplify(d):
    """simplifyPolyhedra merges the coplanar faces of each polyhedron"""
    pm = gen.mesh3d(d, 2, zmax=1, kinds=('polyhed', 'asis'))
    d.assume(fat(pm))
    xyz, cells, want = list(pm.xyz), [], []
    for t, c in pm.cells:
        fs = [f for _, f in cell_faces(t, c)]
        if not d.bool(.7):
            cells.append((t, c))
            want.append(None if t != POLYHED else len(fs))
            continue
        out = []
        for f in fs:
            k = d.below(3)
            if k == 0 and len(f) > 3:
                s = d.below(len(f))
                g = f[s:] + f[:s]
                h = d.int(2, len(f) - 2)
                out += [g[:h + 1], g[h:] + g[:1]]
            elif k == 1 and len(f) > 3:
                out += [[f[0], f[i], f[i + 1]] for i in range(1, len(f) - 1)]
            else:
                out.append(f)
        cells.append((POLYHED, join_faces(out)))
        want.append(len(fs))
    q = PM(3, 3, xyz, cells)
    d.nontrivial(any(t == POLYHED and len(poly_faces(c)) > w for (t, c), w in zip(cells, want) if w))
    d.assume(all(flat_convex([xyz[v] for v in f]) for t, c in cells if t == POLYHED for f in poly_faces(c)))
    m = to_mc(q)
    owners = {}
    for i, (t, c) in enumerate(cells):
        for _, f in cell_faces(t, c):
            owners.setdefault(frozenset(f), set()).add(i)
    m.simplifyPolyhedra(1e-9)
    r = from_mc(m)
    same_cells(d, q, r, 'simplifyPolyhedra')
    for i, ((t, c), w) in enumerate(zip(r.cells, want)):
        if w is None:
            eq(d, (t, c), cells[i], 'cell %d' % i)
        else:
            # coplanar faces in contact with the same cell
            planes, keyed = [], []
            for f in poly_faces(cells[i][1]):
                n_, o_, k_ = unitn([xyz[v] for v in f]), xyz[f[0]], owners[frozenset(f)]
                same = lambda p, o, k: norm(sub(n_, p)) < 1e-7 and abs(dot(n_, sub(o_, o))) < 1e-7
                if not any(same(*x) for x in planes):
                    planes.append((n_, o_, k_))
                if not any(same(*x) and x[2] == k_ for x in keyed):
                    keyed.append((n_, o_, k_))
            d.check(len(planes) <= len(poly_faces(c)) <= len(keyed), 'faces of cell %d: %d -> %d instead of %d' % (i, len(poly_faces(cells[i][1])), len(poly_faces(c)), len(keyed)))


@check(n=2500, rule='some nodes removed and some corners kept')
def colinear(d):
    """colinearize2D and its conformity keeping variant on straight sided cells"""
    pm = gen.mesh2d(d, 3, perturb=d.bool(), kinds=('quad', 'tri', 'poly', 'merge'))
    for _ in range(d.int(1, 2)):
        pm = gen.add_hanging(d, pm)
    pm = gen.shuffle(d, pm)
    conf = d.bool()
    m = to_mc(pm)
    ids = L(m.colinearizeKeepingConform2D(1e-9) if conf else m.colinearize2D(1e-9))
    m.checkConsistency(1e-12)
    q = from_mc(m)
    d.label('keeping conform' if conf else 'free')
    d.sample('%r %s' % (pm, conf))
    same_cells(d, pm, q, 'colinearize2D')
    used = {}
    for t, c in pm.cells:
        n = len(c)
        for i in range(n):
            for e in (tuple(sorted((c[i], c[(i + 1) % n]))),):
                for v in e:
                    used.setdefault(v, set()).add(e)
    some = False
    for i, ((t0, c0), (t, c)) in enumerate(zip(pm.cells, q.cells)):
        n = len(c0)
        keep = []
        for k in range(n):
            a, b, e = c0[k - 1], c0[k], c0[(k + 1) % n]
            u, v = sub(pm.xyz[b], pm.xyz[a]), sub(pm.xyz[e], pm.xyz[b])
            flat = abs(u[0] * v[1] - u[1] * v[0]) < 1e-12
            if not flat or (conf and len(used[b]) > 2):
                keep.append(b)
        if len(keep) == n:
            eq(d, c, c0, 'cell %d without aligned edges' % i)
            d.check(t in (t0, POLYGON), 'type of cell %d without aligned edges: %d' % (i, t))
            d.check(i not in ids, 'cell %d reported without change' % i)
        else:
            some = True
            d.check(i in ids, 'changed cell %d not reported' % i)
            eq(d, t, POLYGON, 'type of cell %d' % i)
            k = c.index(keep[0]) if keep[0] in c else -1
            d.check(k >= 0, 'corner %d of cell %d lost' % (keep[0], i))
            eq(d, c[k:] + c[:k], keep, 'nodes of cell %d' % i)
    d.nontrivial(some)
    eq(d, q.xyz[:pm.nn], pm.xyz, 'nodes')


@check(n=1500, rule='an arc tessellated')
def tessellate(d):
    """tessellate2D: same cells, straight edges on the arcs, angle of the sub-edges bounded"""
    lin = gen.mesh2d(d, 2, kinds=('quad', 'tri', 'poly'))
    # bulge each edge along its normal: arc through its three nodes
    xyz, mids, cells = list(lin.xyz), {}, []
    for t, c in lin.cells:
        ms = []
        for i in range(len(c)):
            a, b = c[i], c[(i + 1) % len(c)]
            k = (min(a, b), max(a, b))
            if k not in mids:
                p, q = xyz[k[0]], xyz[k[1]]
                h = d.choice((0., 0., .0625, -.0625, .125))
                mids[k] = len(xyz)
                xyz.append(((p[0] + q[0]) / 2 - h * (q[1] - p[1]), (p[1] + q[1]) / 2 + h * (q[0] - p[0])))
            ms.append(mids[k])
        cells.append(({3: TRI6, 4: QUAD8}.get(len(c), QPOLYG) if t != POLYGON else QPOLYG, c + ms) if d.bool(.8) else (t, c))
    pm = PM(2, 2, xyz, cells)
    eps = d.choice((.5, .2, .1, .05))
    m = to_mc(pm)
    m.tessellate2D(eps)
    m.checkConsistency(1e-12)
    q = from_mc(m)
    d.sample('%r eps %g' % (pm, eps))
    eq(d, q.nc, pm.nc, 'number of cells')
    eq(d, q.xyz[:pm.nn], pm.xyz, 'nodes')
    curved = False
    for i, ((t0, c0), (t, c)) in enumerate(zip(cells, q.cells)):
        if not is_quad(t0):
            eq(d, c, c0, 'linear cell %d' % i)
            continue
        eq(d, t, POLYGON, 'type of cell %d' % i)
        n = len(c0) // 2
        pos = [c.index(v) if v in c else -1 for v in c0[:n]]
        d.check(-1 not in pos, 'vertices of cell %d lost' % i)
        for k in range(n):
            a, b, mi = c0[k], c0[(k + 1) % n], c0[n + k]
            s = c[pos[k]:] + c[:pos[k]]
            path = s[:s.index(b) + 1] if b != a else s
            P = [q.xyz[v] for v in path]
            A, B, M = xyz[a], xyz[b], xyz[mi]
            u, w = sub(B, A), sub(M, A)
            cr = u[0] * w[1] - u[1] * w[0]
            if abs(cr) < 1e-12:
                eq(d, len(path), 2, 'straight edge %d of cell %d' % (k, i))
                continue
            curved = True
            # circle through A, M, B
            ux, uy, wx, wy = u[0], u[1], w[0], w[1]
            D = 2 * cr
            O = (A[0] + (wy * (ux * ux + uy * uy) - uy * (wx * wx + wy * wy)) / D, A[1] + (ux * (wx * wx + wy * wy) - wx * (ux * ux + uy * uy)) / D)
            R = dist(O, A)
            near(d, [dist(O, p) for p in P], [R] * len(P), 'points of edge %d of cell %d on the arc' % (k, i), 1e-8, max(1., R))
            angs = [math.atan2(p[1] - O[1], p[0] - O[0]) for p in P]
            st = [(y - x + math.pi) % (2 * math.pi) - math.pi for x, y in zip(angs, angs[1:])]
            d.check(all(x * st[0] > 0 for x in st), 'points of edge %d of cell %d are not in order' % (k, i))
            d.check(max(abs(x) for x in st) < 2 * eps * (1 + 1e-6) if len(P) > 3 else max(abs(x) for x in st) < 1.5 * eps * (1 + 1e-6), 'edge %d of cell %d: angle %g > %g' % (k, i, max(abs(x) for x in st), eps))
            tot = (math.atan2(B[1] - O[1], B[0] - O[0]) - angs[0] + math.pi) % (2 * math.pi) - math.pi
            near(d, [sum(st)], [tot], 'angle of edge %d of cell %d' % (k, i), 1e-7)
    d.nontrivial(curved)


def known_tessellate_step():
    """an arc of 0.9 rad tessellated with steps of at most 0.2 rad gets a step of 0.3 (pinned by the existing tests)"""
    a = .9
    m = mc.MEDCouplingUMesh('a', 1)
    m.setCoords(Dbl([math.cos(x) for y in (0, a, a / 2) for x in (y, y - math.pi / 2)], 2))
    m.allocateCells()
    m.insertNextCell(SEG3, [0, 1, 2])
    m.tessellate2D(.2)
    c = [m.getCoords().getTuple(i) for i in L(m.getNodalConnectivity())[1:]]
    t = [math.atan2(p[1], p[0]) for p in c]
    return max(y - x for x, y in zip(t, t[1:])) > .25
