"""C15 - 3D slices, clips and conformization: exact sections, half cells, volumes preserved."""
from fields import *
import math
import ref
import gen
from ref import PM, sub, add, mul, dot, cross, norm, dist


def _convex(pm, i):
    t, c = pm.cells[i]
    ns = {v for v in c if v >= 0}
    for _, f in ref.cell_faces(*ref.linear_conn(t, c)):
        n = ref.poly_normal3d([pm.xyz[v] for v in f])
        s = [dot(n, sub(pm.xyz[v], pm.xyz[f[0]])) for v in ns]
        if min(s) < -1e-12 < 1e-12 < max(s):
            return False
    return True


def _flat_convex(ps):
    n = ref.poly_normal3d(ps)
    if norm(n) < 1e-6:
        return False
    return all(dot(cross(sub(ps[i], ps[i - 1]), sub(ps[(i + 1) % len(ps)], ps[i])), n) > -1e-12 for i in range(len(ps)))


def half_space(d, pm):
    """plane through nodes of the mesh, axis aligned, or general: origin and normal (any magnitude)"""
    k = d.weighted([(3, 'general'), (2, 'node'), (2, 'nodes'), (2, 'axis'), (1, 'edge')])
    us = pm.used()
    us = sorted(us)
    ps = [pm.xyz[i] for i in us]
    lo, hi = [min(p[k] for p in ps) for k in range(3)], [max(p[k] for p in ps) for k in range(3)]
    o = tuple(lo[k] + (hi[k] - lo[k]) * d.int(1, 31) / 32 for k in range(3))
    n = tuple(float(d.sint(8)) for _ in range(3))
    if k == 'node':
        o = d.choice(ps)
    elif k == 'nodes' or k == 'edge':
        a, b, c = (d.choice(ps) for _ in range(3))
        o = a
        n = cross(sub(b, a), sub(c, a)) if k == 'nodes' else cross(sub(b, a), (1., .5, .25))
    elif k == 'axis':
        n = [0., 0., 0.]
        n[d.below(3)] = d.choice([1., -1., 3.])
        n = tuple(n)
        if d.bool():
            o = d.choice(ps)
    d.assume(norm(n) > .1)
    n = mul(n, d.choice([1., 1., .25, -2., 1e-3]) / (norm(n) if d.bool(.3) else 1.))
    d.assume(norm(n) > 1e-5)
    u = mul(n, 1 / norm(n))
    s = [dot(u, sub(p, o)) for p in pm.xyz]
    d.assume(all(abs(x) < 1e-11 or abs(x) > 1e-5 for x in s))
    return o, n, u, [0. if abs(x) < 1e-11 else x for x in s], k


def section(pm, i, u, s):
    """points of the section of a convex cell by the plane"""
    t, c = pm.cells[i]
    ns = [v for v in c if v >= 0]
    pts = [pm.xyz[v] for v in set(ns) if s[v] == 0.]
    fs = [f for _, f in ref.cell_faces(*ref.linear_conn(t, c))] if pm.md == 3 else [ns]
    for f in fs:
        for a, b in zip(f, f[1:] + f[:1]):
            if s[a] * s[b] < 0:
                w = s[a] / (s[a] - s[b])
                pts.append(add(pm.xyz[a], mul(sub(pm.xyz[b], pm.xyz[a]), w)))
    return pts


def basis(u):
    v = cross(u, (1., 0., 0.) if abs(u[0]) < .9 else (0., 1., 0.))
    v = mul(v, 1 / norm(v))
    return v, cross(u, v)


def hull_area(pts, u):
    v, w = basis(u)
    q = [(dot(p, v), dot(p, w)) for p in pts]
    h = gen.convex_hull([(round(a, 11), round(b, 11)) for a, b in q])
    return abs(ref.poly_area2d(h)) if len(h) >= 3 else 0.


def where(s, ns):
    return min(s[v] for v in ns), max(s[v] for v in ns)


def colinear(pm, s):
    """a face not in the plane has several edges in the plane (known finding)"""
    for i in range(pm.nc):
        for t, f in ref.cell_faces(*ref.linear_conn(*pm.cells[i])):
            if sum(s[v] == 0. for v in f) > 2 and any(s[v] != 0. for v in f):
                return True
    return False


def solid(d, nmax=3):
    pm = gen.mesh3d(d, nmax, zmax=2)
    if d.bool(.3):
        A, t = gen.rotation3(d), tuple(d.sint(8) / 4 for _ in range(3))
        pm = PM(3, 3, [gen.apply3(A, t, p) for p in pm.xyz], pm.cells)
    d.assume(all(_convex(pm, i) and abs(ref.cell_measure_centroid(3, *pm.cells[i], pm.xyz)[0]) > 1e-9 for i in range(pm.nc)))
    pm = gen.shuffle(d, pm, unused=False)
    return pm


def ns_of(pm, i):
    return sorted(set(v for v in pm.cells[i][1] if v >= 0))


@check(n=2000, rule='a cell is cut in its inside')
def slices(d):
    """section of 3D cells"""
    pm = solid(d)
    o, n, u, s, k = half_space(d, pm)
    eps = d.choice([1e-10, 1e-8])
    m = to_mc(pm)
    before = m.deepCopy()
    rng = [where(s, ns_of(pm, i)) for i in range(pm.nc)]
    cut = [i for i, (a, b) in enumerate(rng) if a < 0 < b]
    onf = {}
    for i in range(pm.nc):
        for t, f in ref.cell_faces(*ref.linear_conn(*pm.cells[i])):
            if all(s[v] == 0. for v in f):
                onf[i] = f
    d.label('plane', k)
    d.assume(not colinear(pm, s))
    d.nontrivial(bool(cut))
    d.sample('%s, plane %s %s: %d cut, %d with a face in the plane' % (short(pm), o, n, len(cut), len(onf)))
    ids = m.getCellIdsCrossingPlane(o, n, eps)
    eq(d, L(ids), [i for i, (a, b) in enumerate(rng) if a <= 0 <= b], 'cells crossing the plane')
    if not cut and not onf:
        d.check(raises(lambda: m.buildSlice3D(o, n, eps)), 'a slice crossing nothing must be rejected')
        return
    r, ids = m.buildSlice3D(o, n, eps)
    r.checkConsistency()
    d.check(m.isEqual(before, 0.), 'the sliced mesh is modified')
    ids = L(ids)
    eq(d, len(ids), r.getNumberOfCells(), 'size of the ids')
    q = from_mc(r)
    got = {}
    for (t, c), i in zip(q.cells, ids):
        ps = [q.xyz[v] for v in c]
        for p in ps:
            near(d, [dot(u, sub(p, o))], [0.], 'distance of a node of the section to the plane', 1e-9, 10.)
        d.check(len(set(c)) == len(c), 'node repeated in a section: %s' % c)
        got.setdefault(i, []).append(norm(ref.poly_normal3d(ps)))
    for i in got:
        eq(d, len(got[i]), 1, 'number of sections of cell %d' % i)
    exp = {i: hull_area(section(pm, i, u, s), u) for i in set(cut) | set(onf)}
    eq(d, sorted(got), sorted(exp), 'cells cut by the plane')
    areas = {i: r.getMeasureField(True).getArray().getIJ(k, 0) for k, i in enumerate(ids)}
    for i in exp:
        near(d, [abs(areas[i])], [exp[i]], 'area of the section of cell %d' % i, 1e-8, 1. + exp[i])
        ps = section(pm, i, u, s)
        for p in ps:    # every point of the exact section is a node of the section
            k = ids.index(i)
            d.check(min(dist(p, q.xyz[v]) for v in q.cells[k][1]) < 1e-8 or
                    min(ref.pt_seg_dist(p, q.xyz[a], q.xyz[b]) for a, b in zip(q.cells[k][1], q.cells[k][1][1:] + q.cells[k][1][:1])) < 1e-8,
                    'point %s of the section of cell %d' % (p, i))


@check(n=1600, rule='a cell is cut')
def surfaces(d):
    """section of surface cells"""
    pm = gen.surf3d(d, 3)
    if d.bool(.5):
        A, t = gen.rotation3(d) if d.bool() else gen.rand_affine3(d), tuple(d.sint(8) / 4 for _ in range(3))
        pm = PM(3, 2, [gen.apply3(A, t, p) for p in pm.xyz], pm.cells)
    d.assume(all(_flat_convex([pm.xyz[v] for v in c]) for _, c in pm.cells))
    pm = gen.shuffle(d, pm, unused=False)
    o, n, u, s, k = half_space(d, pm)
    eps = d.choice([1e-10, 1e-8])
    m = to_mc(pm)
    rng = [where(s, c) for _, c in pm.cells]
    d.assume(all(sum(s[v] == 0. for v in c) <= 2 for _, c in pm.cells))      # see colinear
    eq(d, L(m.getCellIdsCrossingPlane(o, n, eps)), [i for i, (a, b) in enumerate(rng) if a <= 0 <= b], 'cells crossing the plane')
    exp = {}
    for i in range(pm.nc):
        ps = section(pm, i, u, s)
        l = max([dist(a, b) for a in ps for b in ps] + [0.])
        if l > 1e-9:
            exp[i] = l
    cut = [i for i in exp if rng[i][0] < 0 < rng[i][1]]
    d.nontrivial(bool(cut))
    d.label('plane', k)
    d.sample('%d cells, plane %s %s: %d cut' % (pm.nc, o, n, len(cut)))
    if not exp:
        d.check(raises(lambda: m.buildSlice3DSurf(o, n, eps)), 'a slice crossing nothing must be rejected')
        return
    r, ids = m.buildSlice3DSurf(o, n, eps)
    r.checkConsistencyLight()
    ids = L(ids)
    eq(d, len(ids), r.getNumberOfCells(), 'size of the ids')
    q = from_mc(r)
    got = {}
    for (t, c), i in zip(q.cells, ids):
        d.check(t == ref.SEG2, 'type of a section')
        for v in c:
            near(d, [dot(u, sub(q.xyz[v], o))], [0.], 'distance of a node of the section to the plane', 1e-9, 10.)
        got[i] = got.get(i, 0.) + dist(q.xyz[c[0]], q.xyz[c[1]])
    eq(d, sorted(got), sorted(exp), 'cells cut by the plane')
    for i in exp:
        near(d, [got[i]], [exp[i]], 'length of the section of cell %d' % i, 1e-8, 1. + exp[i])


@check(n=2000, rule='always')
def clips(d):
    """one cell clipped by a plane crossing its inside"""
    pm = solid(d, 2)
    i = d.below(pm.nc)
    pm = PM(3, 3, pm.xyz, [pm.cells[i]])
    keep = ns_of(pm, 0)
    mp = {v: k for k, v in enumerate(keep)}
    pm = PM(3, 3, [pm.xyz[v] for v in keep], [(pm.cells[0][0], [mp[v] if v >= 0 else -1 for v in pm.cells[0][1]])])
    o, n, u, s, k = half_space(d, pm)
    d.assume(min(s) < 0 < max(s) and not colinear(pm, s))
    m = to_mc(pm)
    d.nontrivial()
    d.label('plane', k)
    d.sample('cell %s, plane %s %s' % (short(pm), o, n))
    r = m.clipSingle3DCellByPlane(o, n, 1e-10)
    eq(d, r.getNumberOfCells(), 2, 'number of cells')
    r.checkConsistency()
    q = from_mc(r)
    fs = ref.solid_faces(pm.cells[0][0], pm.cells[0][1], pm.xyz)
    bad = r.getMeasureField(False).getArray()
    for k, sg in enumerate((1., -1.)):      # side opposed to the normal first
        want = ref.clip_solid(fs, mul(u, sg), sg * dot(u, o))
        vw, cw = ref.solid_volume_centroid(want)
        near(d, [bad.getIJ(k, 0)], [abs(vw)], 'volume of the clipped cell %d' % k, 1e-9, 1. + abs(vw))
        if abs(vw) > 1e-4:
            near(d, list(T(r.computeCellCenterOfMass())[k]), list(cw), 'centre of the clipped cell', 1e-7, 10.)
        for v in ns_of(q, k):
            d.check(sg * dot(u, sub(q.xyz[v], o)) < 1e-9, 'node %s of part %d on the other side' % (q.xyz[v], k))


def skin_volume(pm, cells):
    """faces of the cells seen once, oriented outward"""
    seen = {}
    for i in cells:
        for t, f in ref.cell_faces(*ref.linear_conn(*pm.cells[i])):
            k = frozenset(f)
            if k in seen:
                seen[k] = None
            else:
                seen[k] = f
    return [f for f in seen.values() if f]


@check(n=1000, rule='at least two cells')
def unions(d):
    """union of cells"""
    pm = gen.shuffle(d, gen.mesh3d(d, 3, zmax=2), unused=False)
    sel = sorted(d.subset(pm.nc)) or [0]
    # connected by faces
    d.nontrivial(len(sel) > 1)
    m = to_mc(PM(3, 3, pm.xyz, [pm.cells[i] for i in sel]))
    d.sample('%d cells of %s' % (len(sel), short(pm)))
    c = L(m.buildUnionOf3DMesh())
    eq(d, c[0], ref.POLYHED, 'type of the union')
    fs = ref.poly_faces(c[1:])
    want = skin_volume(pm, sel)
    eq(d, sorted(sorted(f) for f in fs), sorted(sorted(f) for f in want), 'faces of the union')
    v = ref.solid_volume_centroid([[pm.xyz[x] for x in f] for f in fs])[0]
    w = sum(ref.cell_measure_centroid(3, t, cc, pm.xyz)[0] for t, cc in (pm.cells[i] for i in sel))
    near(d, [v], [w], 'volume of the union', 1e-9, 1. + abs(w))


def demo_colinear():
    """slice by a plane holding two consecutive edges of a face: rejected"""
    m = mc.MEDCouplingUMesh('a', 3)
    m.setCoords(mc.DataArrayDouble([(0., 0., 0.), (1., 0., 0.), (2., 0., 0.), (2., 1., 0.), (0., 1., 0.),
                                    (0., 0., 1.), (1., 0., 1.), (2., 0., 1.), (2., 1., 1.), (0., 1., 1.)]))
    m.allocateCells()
    m.insertNextCell(mc.NORM_POLYHED, [4, 3, 2, 1, 0, -1, 5, 6, 7, 8, 9, -1, 0, 1, 6, 5, -1, 1, 2, 7, 6, -1, 2, 3, 8, 7, -1, 3, 4, 9, 8, -1, 4, 0, 5, 9])
    try:
        r, ids = m.buildSlice3D([0., 0., 0.], [0., 1., 1e-1], 1e-10)
        r, ids = m.buildSlice3D([0., 0., 0.], [0., 1., -.5], 1e-10)
        return abs(r.getMeasureField(True).getArray().getIJ(0, 0) - 2 * math.sqrt(1.25)) > 1e-9
    except InterpKernelException as e:
        return 'unexpected situation' in str(e)


def demo_orientation():
    """conformize3D: the faces inserted in a cell are oriented as in the cell they come from, its volume is wrong"""
    m = mc.MEDCouplingCMesh()
    x = mc.DataArrayDouble([0., 1.])
    m.setCoords(x, x, mc.DataArrayDouble([0., 1., 2.]))
    m = m.buildUnstructured()
    up = m[1]
    up.convertToPolyTypes([0])
    lo = m[0]
    cells = [lo.getNodeIdsOfCell(0)]
    c = m.getNodeIdsOfCell(1)      # two prisms above one hexahedron
    a = mc.MEDCouplingUMesh('a', 3)
    a.setCoords(m.getCoords())
    a.allocateCells()
    a.insertNextCell(mc.NORM_HEXA8, lo.getNodeIdsOfCell(0))
    a.insertNextCell(mc.NORM_PENTA6, [c[0], c[1], c[2], c[4], c[5], c[6]])
    a.insertNextCell(mc.NORM_PENTA6, [c[0], c[2], c[3], c[4], c[6], c[7]])
    a.convertAllToPoly()
    v = L(a.getMeasureField(False).getArray())
    a.conformize3D(1e-9)
    w = L(a.getMeasureField(False).getArray())
    return max(abs(x - y) for x, y in zip(v, w)) > 1e-6


@check(n=1600, rule='a face is shared by several smaller ones')
def conformize(d):
    """conformize3D on partition-like non conformities: volumes preserved and faces shared"""
    pm2 = gen.mesh2d(d, 2, ('quad', 'tri', 'poly'))
    z0, z1, z2 = [i / 2 for i in sorted(d.sample_ids(12, 3))]
    mode = d.choice(['fan', 'grid', 'both'])
    xy = list(pm2.xyz)
    idx = {p: i for i, p in enumerate(xy)}

    def node(p):
        if p not in idx:
            idx[p] = len(xy)
            xy.append(p)
        return idx[p]

    def mid(*vs):
        return node(tuple(sum(xy[v][k] for v in vs) / len(vs) for k in range(2)))
    fine = []
    split = 0
    for t, c in pm2.cells:
        k = mode if mode != 'both' else d.choice(['fan', 'keep', 'grid'])
        if mode == 'both' and k == 'grid':
            k = 'keep'
        if k == 'fan' and len(c) > 3:
            split += 1
            fine += [(ref.TRI3, [c[0], c[j], c[j + 1]]) for j in range(1, len(c) - 1)]
        elif mode == 'grid':
            split += 1
            g = mid(*c)
            ms = [mid(c[j], c[(j + 1) % len(c)]) for j in range(len(c))]
            fine += [(ref.QUAD4, [c[j], ms[j], g, ms[j - 1]]) for j in range(len(c))]
        else:
            fine.append((t, c))
    d.assume(all(ref.is_convex2d([xy[v] for v in c]) for _, c in fine + list(pm2.cells)))
    lower = gen.extrude_cells(PM(2, 2, xy, pm2.cells), [z0, z1], d, 0.)
    upper = gen.extrude_cells(PM(2, 2, xy, fine), [z1, z2], d, 0.)
    xyz = list(lower[0])
    pos = {p: i for i, p in enumerate(xyz)}
    mp = {}
    for i, p in enumerate(upper[0]):
        if p not in pos:
            pos[p] = len(xyz)
            xyz.append(p)
        mp[i] = pos[p]
    cells = list(lower[1]) + [(t, [mp[v] if v >= 0 else -1 for v in c]) for t, c in upper[1]]
    cells = [gen.to_polyhed(t, c) if t != ref.POLYHED else (t, c) for t, c in cells]
    used = sorted(set(v for _, c in cells for v in c if v >= 0))
    mp = {v: k for k, v in enumerate(used)}
    pm = PM(3, 3, [xyz[v] for v in used], [(t, [mp[v] if v >= 0 else -1 for v in c]) for t, c in cells])
    block = PM(3, 3, *gen.extrude_cells(pm2, [z0, z2], d, 0.))
    if d.bool(.5):
        A = gen.rand_affine3(d) if d.bool() else gen.rotation3(d)
        block = PM(3, 3, [gen.apply3(A, (0., 0., 0.), p) for p in block.xyz], block.cells)
        pm = PM(3, 3, [gen.apply3(A, (0., 0., 0.), p) for p in pm.xyz], pm.cells)
    pm = gen.shuffle(d, pm, unused=False)
    d.nontrivial(split > 0)
    d.sample('%s' % short(pm))
    m = to_mc(pm)
    vol = [ref.cell_measure_centroid(3, t, c, pm.xyz) for t, c in pm.cells]
    ids = L(m.conformize3D(1e-9))
    m.checkConsistency()
    q = from_mc(m)
    d.check(all(abs(ref.cell_measure_centroid(3, t, c, q.xyz)[0] - vol[i][0]) < 1e-9 for i, (t, c) in enumerate(q.cells) if i not in ids),
            'volume of a cell which is not modified')
    m.orientCorrectlyPolyhedrons()      # known finding: faces are inserted with the orientation of the other cell
    q = from_mc(m)
    eq(d, q.nc, pm.nc, 'number of cells')
    eq(d, len(q.xyz), len(pm.xyz), 'number of nodes')
    for i, ((t, c), (v, g)) in enumerate(zip(q.cells, vol)):
        eq(d, t, ref.POLYHED, 'type of cell %d' % i)
        v1, g1 = ref.cell_measure_centroid(3, t, c, q.xyz)
        near(d, [v1], [v], 'volume of cell %d' % i, 1e-9, 1. + abs(v))
        near(d, list(g1), list(g), 'centre of cell %d' % i, 1e-8, 10.)
    def fset(p, i):
        return sorted(tuple(sorted(f)) for _, f in ref.cell_faces(*p.cells[i]))
    mod = [i for i in range(pm.nc) if fset(pm, i) != fset(q, i)]
    d.check(set(mod) <= set(ids), 'modified cells %s not in the result %s' % (mod, ids))
    d.check((len(ids) > 0) == bool(mod), 'ids %s, modified cells %s' % (ids, mod))
    # conform: the skin of the result is the boundary of the whole (area), every other face being shared by two cells
    cnt = {}
    for i in range(q.nc):
        for _, f in ref.cell_faces(*q.cells[i]):
            cnt.setdefault(frozenset(f), []).append(f)
    d.check(all(len(v) <= 2 for v in cnt.values()), 'face shared by more than two cells')
    sk = [v[0] for v in cnt.values() if len(v) == 1]
    area = sum(norm(ref.poly_normal3d([q.xyz[v] for v in f])) for f in sk)
    blk = [b_ for b_ in skin_volume(block, range(block.nc))]
    want = sum(norm(ref.poly_normal3d([block.xyz[v] for v in f])) for f in blk)
    near(d, [area], [want], 'area of the boundary', 1e-9, 1. + want)
    m2 = m.deepCopy()
    eq(d, L(m2.conformize3D(1e-9)), [], 'cells modified by a second conformization')
    q2 = from_mc(m2)
    eq(d, [fset(q2, i) for i in range(q.nc)], [fset(q, i) for i in range(q.nc)], 'faces after a second conformization')
    eq(d, len(m.partitionBySpreadZone()), 1, 'number of connected zones')
