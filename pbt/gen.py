"""Generators of reference meshes (PM).  All coordinates are dyadic rationals unless stated."""
import math
from ref import *
import ref


def incr(d, n, lo=-4, den=4, maxstep=6):
    """n strictly increasing dyadic values"""
    x = [d.sint(8) / den]
    for _ in range(n - 1):
        x.append(x[-1] + (1 + d.below(maxstep)) / den)
    return x


def seg_mesh(d, sd=None, nmax=12, perturb=True):
    """1D mesh: chains of SEG2 in dimension sd"""
    sd = sd or d.int(1, 3)
    n = d.int(1, nmax)
    xs = incr(d, n + 1)
    xyz = []
    for x in xs:
        p = [x] + [0.] * (sd - 1)
        for k in range(1, sd):
            p[k] = d.sint(8) / 8
        xyz.append(tuple(p))
    cells = [(SEG2, [i, i + 1]) for i in range(n)]
    if n > 2 and d.bool(.3):       # break the chain
        k = d.int(1, n - 1)
        cells = [c for i, c in enumerate(cells) if i != k]
    return PM(sd, 1, xyz, cells, 'm1')


def quad_grid(d, nmax=4, perturb=True):
    nx, ny = d.int(1, nmax), d.int(1, nmax)
    xs, ys = incr(d, nx + 1), incr(d, ny + 1)
    xyz = [(x, y) for y in ys for x in xs]
    if perturb and d.bool(.7):
        # |delta| < 1/4 of the smallest step (1/4): keeps quads convex
        xyz = [(x + d.sint(3) / 64, y + d.sint(3) / 64) for x, y in xyz]
    quads = [[j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i] for j in range(ny) for i in range(nx)]
    return xyz, quads, nx, ny


def mesh2d(d, nmax=4, kinds=('quad', 'tri', 'poly', 'merge', 'center'), perturb=True, hanging=False, uniform_kind=0.4):
    """conformal planar mesh, cells counter-clockwise"""
    xyz, quads, nx, ny = quad_grid(d, nmax, perturb)
    cells = []
    one = d.choice(kinds) if d.bool(uniform_kind) else None
    skip = set()
    for q, c in enumerate(quads):
        if q in skip:
            continue
        k = one or d.choice(kinds)
        if k == 'quad':
            cells.append((QUAD4, c))
        elif k == 'tri':
            if d.bool():
                cells += [(TRI3, [c[0], c[1], c[2]]), (TRI3, [c[0], c[2], c[3]])]
            else:
                cells += [(TRI3, [c[0], c[1], c[3]]), (TRI3, [c[1], c[2], c[3]])]
        elif k == 'poly':
            cells.append((POLYGON, c))
        elif k == 'merge':
            if (q + 1) % nx and q + 1 < len(quads):
                r = quads[q + 1]
                skip.add(q + 1)
                cells.append((POLYGON, [c[0], c[1], r[1], r[2], c[2], c[3]]))
            else:
                cells.append((POLYGON, c))
        elif k == 'center':
            n = len(xyz)
            xyz.append(centroid_pts([xyz[v] for v in c]))
            cells += [(TRI3, [c[i], c[(i + 1) % 4], n]) for i in range(4)]
    pm = PM(2, 2, xyz, cells, 'm2')
    if hanging and d.bool(.3):
        pm = add_hanging(d, pm)
    return pm


def add_hanging(d, pm):
    """put a midpoint node on some edges: cells touching them become polygons (still conformal)"""
    mids = {}
    xyz = list(pm.xyz)
    edges = {}
    for t, c in pm.cells:
        for i in range(len(c)):
            edges.setdefault(tuple(sorted((c[i], c[(i + 1) % len(c)]))), None)
    for e in edges:
        if d.bool(.3):
            mids[e] = len(xyz)
            xyz.append(mul(add(xyz[e[0]], xyz[e[1]]), .5))
    cells = []
    for t, c in pm.cells:
        nc = []
        for i in range(len(c)):
            nc.append(c[i])
            e = tuple(sorted((c[i], c[(i + 1) % len(c)])))
            if e in mids:
                nc.append(mids[e])
        cells.append((t, nc) if len(nc) == len(c) else (POLYGON, nc))
    return PM(2, 2, xyz, cells, pm.name)


def random_convex_polygon(d, nmax=8, R=8):
    """convex polygon with dyadic vertices (counter-clockwise)"""
    while True:
        pts = [(d.sint(R * 8) / 8, d.sint(R * 8) / 8) for _ in range(d.int(3, nmax + 3))]
        h = convex_hull(pts)
        if len(h) >= 3 and abs(poly_area2d(h)) > .5:
            return h
        pts = [(0., 0.), (1., 0.), (0., 1.)]
        return convex_hull(pts)


def convex_hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def extrude_cells(pm2, zs, d=None, hexgp=0.5, polyh=0.):
    """prisms over a planar mesh: (xyz, cells) layer-major, correctly oriented"""
    n = pm2.nn
    xyz = [(x, y, z) for z in zs for (x, y) in pm2.xyz]
    cells = []
    for l in range(len(zs) - 1):
        for t, c in pm2.cells:
            # outward bottom face: clockwise seen from above
            b = [v + l * n for v in c][::-1]
            u = [v + n for v in b]
            if polyh and d.bool(polyh):
                cells.append((POLYHED, prism_faces(b, u)))
            elif len(c) == 3:
                cells.append((PENTA6, b + u))
            elif len(c) == 4:
                cells.append((HEXA8, b + u))
            elif len(c) == 6 and d is not None and d.bool(hexgp):
                cells.append((HEXGP12, b + u))
            else:
                cells.append((POLYHED, prism_faces(b, u)))
    return xyz, cells


def prism_faces(b, u):
    n = len(b)
    fs = [list(b), list(u[::-1])]
    for i in range(n):
        j = (i + 1) % n
        fs.append([b[i], u[i], u[j], b[j]])
    return join_faces(fs)


def to_polyhed(t, c):
    return (POLYHED, join_faces([f for _, f in cell_faces(t, c)]))


def split_center_pyra(xyz, t, c):
    """cell -> pyramids/tets from its centre (appends a node)"""
    n = len(xyz)
    xyz.append(centroid_pts([xyz[v] for v in cell_nodes(t, c)]))
    out = []
    for ft, f in cell_faces(t, c):
        # base normal must point outward of the new cell: same as face
        if len(f) == 3:
            out.append((TETRA4, list(f) + [n]))
        elif len(f) == 4:
            out.append((PYRA5, list(f) + [n]))
        else:
            fs = [list(f)]
            for i in range(len(f)):
                fs.append([f[(i + 1) % len(f)], f[i], n])
            out.append((POLYHED, join_faces(fs)))
    return out


def tets_minid(xyz, t, c):
    """cell -> tetrahedra fanned from its smallest node, quad faces cut from their smallest node (conformal)"""
    nodes = cell_nodes(t, c)
    a = min(nodes)
    out = []
    for ft, f in cell_faces(t, c):
        if a in f:
            continue
        k = f.index(min(f))
        f = f[k:] + f[:k]
        for i in range(1, len(f) - 1):
            out.append((TETRA4, [f[0], f[i], f[i + 1], a]))
    return out


def mesh3d(d, nmax=3, kinds=('asis', 'pyra', 'tets', 'polyhed', 'mix'), perturb=True, affine=True, kinds2=('quad', 'tri', 'poly', 'merge', 'center'), zmax=3):
    """conformal 3D mesh with planar faces, correctly oriented"""
    pm2 = mesh2d(d, nmax, kinds2, perturb)
    zs = incr(d, d.int(1, zmax) + 1)
    xyz, cells = extrude_cells(pm2, zs, d)
    k = d.choice(kinds)
    if k == 'pyra':
        cells = [x for t, c in cells for x in split_center_pyra(xyz, t, c)]
    elif k == 'tets':
        cells = [x for t, c in cells for x in tets_minid(xyz, t, c)]
    elif k == 'polyhed':
        cells = [to_polyhed(t, c) if t != POLYHED else (t, c) for t, c in cells]
    elif k == 'mix':
        new = []
        for t, c in cells:
            m = d.below(3)
            if m == 0 or t == POLYHED:
                new.append((t, c))
            elif m == 1:
                new += split_center_pyra(xyz, t, c)
            else:
                new.append(to_polyhed(t, c))
        cells = new
    if affine and d.bool(.5):
        A = rand_affine3(d)
        xyz = [tuple(dot(r, p) for r in A) for p in xyz]
    return PM(3, 3, xyz, cells, 'm3')


def rand_affine3(d):
    """unit-ish dyadic matrix, determinant > 0"""
    while True:
        A = [[(1. if i == j else 0.) + d.sint(3) / 4 for j in range(3)] for i in range(3)]
        det = dot(A[0], cross(A[1], A[2]))
        if det > .2:
            return A
        return [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]


def rotation3(d):
    """generic rotation matrix (not dyadic)"""
    a, b, c = (d.uniform(0, 2 * math.pi) for _ in range(3))
    ca, sa, cb, sb, cc, sc = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
    return [[ca * cb, ca * sb * sc - sa * cc, ca * sb * cc + sa * sc],
            [sa * cb, sa * sb * sc + ca * cc, sa * sb * cc - ca * sc],
            [-sb, cb * sc, cb * cc]]


def apply3(A, t, p):
    return tuple(dot(A[i], p) + t[i] for i in range(3))


def surf3d(d, nmax=4, flat=None, **kw):
    """surface mesh in 3D: planar mesh lifted; flat=True keeps every cell planar (affine lift)"""
    pm = mesh2d(d, nmax, **kw)
    flat = d.bool(.6) if flat is None else flat
    if flat:
        a, b, c = d.sint(4) / 4, d.sint(4) / 4, d.sint(8) / 4
        xyz = [(x, y, a * x + b * y + c) for x, y in pm.xyz]
    else:
        tri = []
        for t, c in pm.cells:
            tri += [(TRI3, [c[0], c[i], c[i + 1]]) for i in range(1, len(c) - 1)] if len(c) > 4 or t != TRI3 else [(TRI3, c)]
        pm = PM(2, 2, pm.xyz, tri)
        xyz = [(x, y, d.sint(8) / 8) for x, y in pm.xyz]
    return PM(3, 2, xyz, pm.cells, 'ms')


def quadratic(pm, d=None, bulge=0., full=False):
    """linear -> quadratic, shared mid nodes at edge middles (moved by <=bulge when d given)"""
    xyz = list(pm.xyz)
    mids = {}

    def mid(a, b):
        k = (min(a, b), max(a, b))
        if k not in mids:
            p = mul(add(xyz[a], xyz[b]), .5)
            if bulge and d is not None:
                p = tuple(x + bulge * d.sint(4) / 4 for x in p)
            mids[k] = len(xyz)
            xyz.append(p)
        return mids[k]
    centers = {}

    def center(ns):
        k = frozenset(ns)
        if k not in centers:
            centers[k] = len(xyz)
            xyz.append(centroid_pts([xyz[v] for v in ns]))
        return centers[k]
    cells = []
    for t, c in pm.cells:
        if t == SEG2:
            cells.append((SEG3, c + [mid(c[0], c[1])]))
        elif t in (TRI3, QUAD4, POLYGON):
            n = len(c)
            q = c + [mid(c[i], c[(i + 1) % n]) for i in range(n)]
            if full and t == TRI3:
                cells.append((TRI7, q + [center(c)]))
            elif full and t == QUAD4:
                cells.append((QUAD9, q + [center(c)]))
            else:
                cells.append((QUADR[t], q))
        elif t == HEXA8 and full:
            h20 = c + [mid(c[e[0]], c[e[1]]) for e in EDGES3[HEXA8]]
            # HEXA27: faces 20..25 then centre 26, in the order of the face table
            fc = []
            for ft, f in FACES[HEXA27]:
                fc.append((f[8], center([c[k] for k in f[:4]])))
            fc.sort()
            cells.append((HEXA27, h20 + [v for _, v in fc] + [center(c)]))
        elif t == PENTA6 and full:
            p15 = c + [mid(c[e[0]], c[e[1]]) for e in EDGES3[PENTA6]]
            fc = []
            for ft, f in FACES[PENTA18]:
                if len(f) == 9:
                    fc.append((f[8], center([c[k] for k in f[:4]])))
            fc.sort()
            cells.append((PENTA18, p15 + [v for _, v in fc]))
        elif t in QUADR:
            cells.append((QUADR[t], c + [mid(c[e[0]], c[e[1]]) for e in EDGES3[t]]))
        else:
            cells.append((t, c))
    return PM(pm.sd, pm.md, xyz, cells, pm.name)


def rotate_cell(d, t, c):
    """same cell, other starting node (orientation kept); only for 2D linear/polygons/polyhedra"""
    if t in (TRI3, QUAD4, POLYGON):
        k = d.below(len(c))
        return t, c[k:] + c[:k]
    if t in (TRI6, QUAD8, QPOLYG):
        n = len(c) // 2
        k = d.below(n)
        return t, c[:n][k:] + c[:n][:k] + c[n:][k:] + c[n:][:k]
    if t == POLYHED:
        fs = poly_faces(c)
        p = d.perm(len(fs))
        out = []
        for i in p:
            k = d.below(len(fs[i]))
            out.append(fs[i][k:] + fs[i][:k])
        return t, join_faces(out)
    return t, c


def shuffle(d, pm, cells=True, nodes=True, unused=True, rotate=True, sort_types=False):
    """renumber nodes and cells at random, add unused nodes; geometry unchanged"""
    xyz = list(pm.xyz)
    cs = [(t, list(c)) for t, c in pm.cells]
    if unused and d.bool(.3):
        for _ in range(d.int(1, 3)):
            xyz.append(tuple(d.sint(40) / 4 for _ in range(pm.sd)))
    if rotate and d.bool(.5):
        cs = [rotate_cell(d, t, c) for t, c in cs]
    if cells and d.bool(.6):
        p = d.perm(len(cs))
        cs = [cs[i] for i in p]
    if nodes and d.bool(.6):
        p = d.perm(len(xyz))          # new -> old
        inv = [0] * len(p)
        for i, k in enumerate(p):
            inv[k] = i
        xyz = [xyz[k] for k in p]
        cs = [(t, [v if v == -1 else inv[v] for v in c]) for t, c in cs]
    if sort_types:
        cs.sort(key=lambda x: ORDER.index(x[0]))
    return PM(pm.sd, pm.md, xyz, cs, pm.name)


ORDER = [POINT1, SEG2, SEG3, SEG4, POLYL, TRI3, QUAD4, TRI6, TRI7, QUAD8, QUAD9, POLYGON, QPOLYG, TETRA4, PYRA5, PENTA6, HEXA8, HEXGP12, TETRA10, PYRA13, PENTA15, PENTA18, HEXA20, HEXA27, POLYHED]


def any_mesh(d, dims=(1, 2, 3), nmax=3, quad=0.2, surf=True, points=True, shuffled=True):
    """a geometrically valid conformal mesh of any dimension"""
    md = d.choice(dims)
    if md == 0:
        n = d.int(1, 6)
        sd = d.int(1, 3)
        pm = PM(sd, 0, [tuple(d.dyadic(40, 4) for _ in range(sd)) for _ in range(n)], [(POINT1, [i]) for i in range(n)], 'm0')
    elif md == 1:
        pm = seg_mesh(d)
    elif md == 2:
        pm = surf3d(d, nmax) if surf and d.bool(.3) else mesh2d(d, nmax, hanging=True)
    else:
        pm = mesh3d(d, min(nmax, 2), zmax=2)
    if quad and md > 0 and d.bool(quad):
        pm = quadratic(pm, d, 0., d.bool(.3))
    if shuffled:
        pm = shuffle(d, pm)
    return pm


def random_topo(d, md=None, sd=None, types=None, ncmax=8, nnmax=12, empty=True, order=False, nnmin=None):
    """arbitrary connectivity (distinct nodes per cell), geometry meaningless; every cell type"""
    md = d.int(0, 3) if md is None else md
    sd = d.int(max(1, md), 3) if sd is None else sd
    types = types or TYPES_BY_DIM[md]
    lo = 0 if empty else 1
    nc = d.size(ncmax, lo)
    sel = [d.choice(types) for _ in range(d.int(1, 4))]
    ts = [d.choice(sel) for _ in range(nc)]
    need = max([NN.get(t, 8) for t in ts] + [4])
    nn = need + d.below(nnmax)
    xyz = [tuple(d.sint(40) / 4 for _ in range(sd)) for _ in range(nn)]
    cells = []
    for t in ts:
        cells.append((t, random_conn(d, t, nn)))
    if order:
        cells.sort(key=lambda x: ORDER.index(x[0]))
    return PM(sd, md, xyz, cells, 'rt')


def random_conn(d, t, nn):
    if t == POLYGON:
        return d.sample_ids(nn, d.int(3, min(7, nn)))
    if t == QPOLYG:
        return d.sample_ids(nn, 2 * d.int(3, max(3, min(4, nn // 2))))
    if t == POLYL:
        return d.sample_ids(nn, d.int(2, min(6, nn)))
    if t == POLYHED:
        k = d.below(3)
        if k == 0:
            c = d.sample_ids(nn, 4)
            return to_polyhed(TETRA4, c)[1]
        if k == 1 and nn >= 8:
            c = d.sample_ids(nn, 8)
            return to_polyhed(HEXA8, c)[1]
        m = min(d.int(3, 5), nn // 2)
        if m < 3:
            return to_polyhed(TETRA4, d.sample_ids(nn, 4))[1]
        c = d.sample_ids(nn, 2 * m)
        return prism_faces(c[:m], c[m:])
    return d.sample_ids(nn, NN[t])


def values(d, n, nc=1):
    """dyadic values, exact under sums"""
    return [[d.dyadic(400, 8) for _ in range(nc)] for _ in range(n)]
