"""C24 interpolation matrices against exact clipping (ref.py), symmetry, row/column sums, invariance under algorithm and numbering."""
from common import *
from ref import *
import gen
from interp import *

ASSUMPTIONS = ['cells are not self-intersecting; Convex and Triangulation intersectors are given convex cells only; 3D cells have planar faces']
IT = {'Triangulation': 0, 'Convex': 1, 'Geometric2D': 2}


def compare(d, M, ns, want, tol, what, boxes=None):
    """M list of dict rows; want {(target, source): measure}"""
    seen = {}
    for i, row in enumerate(M):
        for j, v in row.items():
            if not 0 <= j < ns:
                d.fail('%s: column %d out of range %d' % (what, j, ns))
            seen[i, j] = v
            w = want.get((i, j), 0.)
            if not abs(v - w) <= tol:
                d.fail('%s: entry (target %d, source %d) is %r, expected %r' % (what, i, j, v, w))
            if boxes and boxes(i, j):
                d.fail('%s: entry (target %d, source %d) = %r for cells that are apart' % (what, i, j, v))
    for k, w in want.items():
        if abs(w) > tol and k not in seen:
            d.fail('%s: entry (target %d, source %d) missing, expected %r' % ((what,) + k + (w,)))


def cell_pts(pm):
    return [[pm.xyz[v] for v in linear_conn(t, c)[1]] if t != POLYHED else [pm.xyz[v] for v in cell_nodes(t, c)] for t, c in pm.cells]


def apart(A, B, gap):
    return any(a[0] > b[1] + gap or b[0] > a[1] + gap for a, b in zip(A, B))


def boxes_of(pm):
    return [bbox(p) for p in cell_pts(pm)]


def inter2(p, q):
    if is_convex2d(p) and is_convex2d(q):
        return convex_inter2d(p, q)[0]
    return signed_fan_inter2d(p, q)


def matrix2d(A, B, inter=inter2):
    """{(target, source)}: A target point lists, B source"""
    ba, bb = [bbox(p) for p in A], [bbox(p) for p in B]
    out = {}
    for i, p in enumerate(A):
        for j, q in enumerate(B):
            if not apart(ba[i], bb[j], 0.):
                v = inter(p, q)
                if v:
                    out[i, j] = v
    return out


def flips(d, pm, prob):
    s = []
    cells = []
    for t, c in pm.cells:
        f = d.bool(prob)
        s.append(-1 if f else 1)
        cells.append((t, c[::-1]) if f else (t, c))
    return PM(pm.sd, pm.md, pm.xyz, cells, pm.name), s


def with_sign(d, w, st, ss, o):
    out = {}
    for (i, j), v in w.items():
        sg = st[i] * ss[j]
        x = v * sg if o == 0 else v if o == 2 else (v if sg == o else 0.)
        if x:
            out[i, j] = x
    return out


def cov(d, w, nt):
    d.nontrivial(len(w) >= 2)
    d.label('pairs>=5', len(w) >= 5)


@check(n=20000, rule='at least two intersecting pairs')
def m2d(d):
    """2D cells in 2D, three intersectors, every orientation option"""
    it = d.choice(['Triangulation', 'Geometric2D'])
    kinds = ('quad', 'tri', 'poly', 'center', 'merge') if it == 'Geometric2D' else ('quad', 'tri', 'poly', 'center')
    mk = lambda: gen.mesh2d(d, d.int(1, 3), kinds) if d.bool(.85) else PM(2, 2, *(lambda p: (p, [(POLYGON if len(p) != 3 else TRI3, list(range(len(p))))]))([tuple(map(float, x)) for x in gen.random_convex_polygon(d)]))
    s, t = mk(), mk()
    t = PM(2, 2, place(d, t, bbox(s.xyz)), t.cells)
    if d.bool(.2):
        t = s
    if d.bool():
        s, t = gen.shuffle(d, s), gen.shuffle(d, t)
    o = d.choice([0, 0, 2])          # the other values are specific to surfaces in 3D
    sg = [1] * s.nc, [1] * t.nc
    if o:
        (s, a), (t, b) = flips(d, s, .3), flips(d, t, .3)
        sg = a, b
    P, Q = cell_pts(t), cell_pts(s)
    if not all(is_convex2d(p) for p in P + Q) and it != 'Geometric2D':
        raise Discard()
    w = with_sign(d, matrix2d(P, Q), sg[1], sg[0], o)
    cov(d, w, t.nc)
    opt = dict(itype=it, orient=o)
    sc = 1.
    if d.bool(.2):          # scale invariance
        sc = d.choice([1e-3, 1e3, 1e5])
        s = PM(2, 2, [tuple(sc * x for x in p) for p in s.xyz], s.cells)
        t = PM(2, 2, [tuple(sc * x for x in p) for p in t.xyz], t.cells)
        w = {k: v * sc * sc for k, v in w.items()}
    d.sample('%s %s' % (opt, (repr(s) + ' -> ' + repr(t))[:700]))
    ms, mt = to_mc(s), to_mc(t)
    if d.bool(.15) and all(c[0] == s.cells[0][0] for c in s.cells):
        ms = mc.MEDCoupling1SGTUMesh(ms) if s.cells[0][0] != POLYGON else mc.MEDCoupling1DGTUMesh(ms)
        d.label('1gt')
    r = remap(d, ms, mt, **opt)
    big = max(abs(x) for p in s.xyz + t.xyz for x in p) / sc
    tol = 1e-9 * sc * sc * max(1, big)
    B, C = boxes_of(t), boxes_of(s)
    M = r.getCrudeMatrix()
    if len(M) != t.nc or r.getNumberOfColsOfMatrix() != s.nc:
        d.fail('matrix of %d x %d for %d targets and %d sources' % (len(M), r.getNumberOfColsOfMatrix(), t.nc, s.nc))
    compare(d, M, s.nc, w, tol, 'P0P0 %s orientation %d' % (it, o), lambda i, j: apart(B[i], C[j], 1e-6 * sc))
    if d.bool(.2):
        M2 = transposed(remap(d, mt, ms, **opt).getCrudeMatrix(), t.nc)
        compare(d, M2, s.nc, w, tol, 'transposed P0P0 %s' % it)


@check(n=6000, rule='at least two intersecting pairs')
def m1d(d):
    """segments on a line, curves in 2D"""
    def line():
        x = gen.incr(d, d.int(2, 6))
        c = [(SEG2, [i, i + 1]) for i in range(len(x) - 1)]
        if len(c) > 2 and d.bool(.2):
            del c[1]
        return x, c
    (xs, cs), (xt, ct) = line(), line()
    k = d.below(3)
    if k:
        sh, f = d.choice([0, .5, .25, d.uniform(-2, 2)]), d.choice([1., 1., .5, 2., d.uniform(.2, 3)])
        xt = [x * f + sh for x in xt]
    w = {}
    for i, (_, (a, b)) in enumerate(ct):
        for j, (_, (p, q)) in enumerate(cs):
            v = min(xt[b], xs[q]) - max(xt[a], xs[p])
            if v > 0:
                w[i, j] = v
    cov(d, w, len(ct))
    if d.bool(.5):
        s, t = PM(1, 1, [(x,) for x in xs], cs), PM(1, 1, [(x,) for x in xt], ct)
        sd = 1
        nm = 'P0P0 in 1D'
    else:
        sd = d.choice([2, 2, 3])
        u = [d.sint(8) / 8 for _ in range(sd)]
        n = math.sqrt(sum(x * x for x in u))
        if n < .1:
            raise Discard()
        u = [x / n for x in u]
        o = [d.sint(8) / 4 for _ in range(sd)]
        P = lambda x: tuple(a + x * b for a, b in zip(o, u))
        s, t = PM(sd, 1, [P(x) for x in xs], cs), PM(sd, 1, [P(x) for x in xt], ct)
        nm = 'P0P0 of collinear segments in %dD' % sd
    s, t = gen.shuffle(d, s, cells=False, nodes=True, rotate=False), gen.shuffle(d, t, cells=False, nodes=True, rotate=False)
    d.sample((repr(s) + ' -> ' + repr(t))[:700])
    ms, mt = to_mc(s), to_mc(t)
    r = remap(d, ms, mt)
    compare(d, r.getCrudeMatrix(), s.nc, w, 1e-9, nm)
    if d.bool(.3):
        compare(d, transposed(remap(d, mt, ms).getCrudeMatrix(), t.nc), s.nc, w, 1e-9, 'transposed ' + nm)


@check(n=8000, rule='at least two intersecting pairs')
def surf(d):
    """surfaces in 3D: coplanar meshes equal the planar intersection; distance and angle limits"""
    it = d.choice(['Triangulation', 'Geometric2D'])
    kinds = ('quad', 'tri', 'poly', 'center')
    s, t = gen.mesh2d(d, d.int(1, 3), kinds), gen.mesh2d(d, d.int(1, 3), kinds)
    t = PM(2, 2, place(d, t, bbox(s.xyz)), t.cells)
    o = d.choice([0, 2, 1, -1]) if it != 'Geometric2D' else d.choice([0, 2])
    sg = [1] * s.nc, [1] * t.nc
    if o:
        (s, a), (t, b) = flips(d, s, .3), flips(d, t, .3)
        sg = a, b
    w = with_sign(d, matrix2d(cell_pts(t), cell_pts(s)), sg[1], sg[0], o)
    cov(d, w, t.nc)
    h = d.choice([0, 0, .125])
    sets = []
    far = False
    if h:
        sets.append(('setBoundingBoxAdjustmentAbs', .3))
        md = d.choice([-1, .0625, .25])
        sets.append(('setMaxDistance3DSurfIntersect', md))
        far = md == .0625
        if far:
            w = {}
    R = gen.rotation3(d) if d.bool(.7) else [[1., 0, 0], [0, 1., 0], [0, 0, 1.]]
    o3 = tuple(d.sint(8) / 4 for _ in range(3))
    ls = lambda pm, z: PM(3, 2, [gen.apply3(R, o3, (x, y, z)) for x, y in pm.xyz], pm.cells)
    s3, t3 = ls(s, 0.), ls(t, h)
    d.sample('%s o=%d h=%s %s %s' % (it, o, h, sets, (repr(s3) + ' -> ' + repr(t3))[:600]))
    r = remap(d, to_mc(s3), to_mc(t3), itype=it, orient=o, set=sets)
    compare(d, r.getCrudeMatrix(), s.nc, w, 1e-8, 'P0P0 surface %s orientation %d' % (it, o))


@check(n=2500, rule='at least two intersecting pairs')
def convex(d):
    """Convex intersector on regular polygons / aligned rectangles in generic position (see the known findings), in 2D and on a plane in 3D"""
    aligned = d.bool(.3)
    off = [0]

    def cells():
        xyz, cells = [], []
        for _ in range(d.int(1, 8)):
            x, y, r, w = [d.uniform(0, 1) for _ in range(4)]
            r, w = .1 + r, .1 + w
            n = 4 if aligned else d.int(3, 8)
            if aligned:
                p = [(x, y), (x + r, y), (x + r, y + w), (x, y + w)]
            else:
                p = [(x + r * math.cos(w * 7 + 2 * math.pi * i / n), y + r * math.sin(w * 7 + 2 * math.pi * i / n)) for i in range(n)]
            cells.append(({3: TRI3, 4: QUAD4}.get(n, POLYGON), list(range(len(xyz), len(xyz) + n))))
            xyz += p
        return PM(2, 2, xyz, cells)
    s, t = cells(), cells()
    o = d.choice([0, 2])
    (s, a), (t, b) = (flips(d, s, .3), flips(d, t, .3)) if o else ((s, [1] * s.nc), (t, [1] * t.nc))
    w = with_sign(d, matrix2d(cell_pts(t), cell_pts(s)), b, a, o)
    xs = sorted(p[0] for p in s.xyz + t.xyz)
    if min(q - p for p, q in zip(xs, xs[1:])) < 1e-5 and not aligned:
        raise Discard()
    if aligned:
        for k in 0, 1:
            v = {p[k] for p in s.xyz}
            if any(abs(p[k] - q) < 1e-5 for p in t.xyz for q in v):
                raise Discard()
    cov(d, w, t.nc)
    if d.bool(.3):
        R = gen.rotation3(d) if not aligned else [[1., 0, 0], [0, 1., 0], [0, 0, 1.]]
        up = lambda pm: PM(3, 2, [gen.apply3(R, (0., 0., 0.), (x, y, 0.)) for x, y in pm.xyz], pm.cells)
        s, t = up(s), up(t)
    d.sample((repr(s) + ' -> ' + repr(t))[:700])
    ms, mt = to_mc(s), to_mc(t)
    compare(d, remap(d, ms, mt, itype='Convex', orient=o).getCrudeMatrix(), s.nc, w, 1e-8, 'P0P0 Convex orientation %d' % o)


def convex3(d, n):
    k = d.below(10)
    if k == 0:
        A = gen.rand_affine3(d)
        c = [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)]
        return PM(3, 3, [tuple(dot(r, p) for r in A) for p in c], [(TETRA4, [0, 2, 1, 3])])
    return gen.mesh3d(d, n, kinds2=('quad', 'tri', 'poly', 'center'), zmax=2)


def volume_ok(pm):
    return all(abs(cell_measure_centroid(3, t, c, pm.xyz)[0]) > 1e-6 for t, c in pm.cells)


@check(n=2500, rule='at least two intersecting pairs')
def m3d(d):
    """3D cells, the four splitting policies"""
    s, t = convex3(d, d.int(1, 2)), convex3(d, d.int(1, 2))
    t = PM(3, 3, place(d, t, bbox(s.xyz)), t.cells)
    if d.bool(.15):
        t = s
    if s.nc * t.nc > 150 or not volume_ok(s) or not volume_ok(t):
        raise Discard()
    if d.bool():
        s, t = gen.shuffle(d, s), gen.shuffle(d, t)
    P, Q = [solid_faces(a, c, t.xyz) for a, c in t.cells], [solid_faces(a, c, s.xyz) for a, c in s.cells]
    B, C = boxes_of(t), boxes_of(s)
    w = {}
    for i in range(t.nc):
        for j in range(s.nc):
            if not apart(B[i], C[j], 0.):
                v = convex_inter3d(P[i], Q[j])
                if v:
                    w[i, j] = v
    cov(d, w, t.nc)
    sp = d.choice([mc.PLANAR_FACE_5, mc.PLANAR_FACE_6, mc.GENERAL_24, mc.GENERAL_48])
    sc = 1.
    if d.bool(.15):
        sc = d.choice([1e-3, 100.])
        s = PM(3, 3, [tuple(sc * x for x in p) for p in s.xyz], s.cells)
        t = PM(3, 3, [tuple(sc * x for x in p) for p in t.xyz], t.cells)
        w = {k: v * sc ** 3 for k, v in w.items()}
    d.sample('split %s %s' % (sp, (repr(s) + ' -> ' + repr(t))[:700]))
    ms, mt = to_mc(s), to_mc(t)
    r = remap(d, ms, mt, split=sp)
    big = max(abs(x) for p in s.xyz + t.xyz for x in p) / sc
    tol = 1e-8 * sc ** 3 * max(1, big)
    compare(d, r.getCrudeMatrix(), s.nc, w, tol, 'P0P0 3D split %s' % sp, lambda i, j: apart(B[i], C[j], 1e-3))
    if d.bool(.2):
        compare(d, transposed(remap(d, mt, ms, split=sp).getCrudeMatrix(), t.nc), s.nc, w, tol, 'transposed P0P0 3D split %s' % sp)


@check(n=6000, rule='at least two intersecting pairs')
def cart(d):
    """cartesian-cartesian, cartesian-unstructured and unstructured-cartesian"""
    dim = d.int(1, 3)
    nmax = {1: 6, 2: 4, 3: 3}[dim]
    ax = lambda: [gen.incr(d, d.int(2, nmax)) for _ in range(dim)]
    A, B = ax(), ax()
    f = d.choice([1., 1., .5, d.uniform(.3, 2)])
    sh = d.sint(8) / 16
    B = [[x * f + (sh if k == 0 else 0) for x in a] for k, a in enumerate(B)]

    def cm(a):
        m = mc.MEDCouplingCMesh()
        m.setCoords(*[mc.DataArrayDouble(x, len(x), 1) for x in a])
        return m

    def ijk(a, i):
        out = []
        for x in a:
            out.append(i % (len(x) - 1))
            i //= len(x) - 1
        return out
    ncell = lambda a: int(np.prod([len(x) - 1 for x in a]))
    w = {}
    for i in range(ncell(B)):
        I_ = ijk(B, i)
        for j in range(ncell(A)):
            J = ijk(A, j)
            v = 1.
            for k in range(dim):
                v *= max(0., min(B[k][I_[k] + 1], A[k][J[k] + 1]) - max(B[k][I_[k]], A[k][J[k]]))
            if v:
                w[i, j] = v
    cov(d, w, ncell(B))
    ms, mt = cm(A), cm(B)
    k = d.below(3)
    if k == 1:
        ms = ms.buildUnstructured()
    elif k == 2:
        mt = mt.buildUnstructured()
    if k and dim == 3 and d.bool(.3):
        (ms if k == 1 else mt).convertAllToPoly()
    d.sample('kind %d %s -> %s' % (k, A, B))
    r = remap(d, ms, mt)
    compare(d, r.getCrudeMatrix(), ncell(A), w, 1e-9, 'P0P0 %s in %dD' % (['cartesian-cartesian', 'unstructured-cartesian', 'cartesian-unstructured'][k], dim))
    if d.bool(.3):
        compare(d, transposed(remap(d, mt, ms).getCrudeMatrix(), ncell(B)), ncell(A), w, 1e-9, 'transposed %d' % k)


@check(n=1500, rule='at least two intersecting pairs')
def extruded(d):
    """extruded meshes: product of the planar and axial intersections"""
    kinds = ('quad', 'tri', 'poly', 'center')
    s, t = gen.mesh2d(d, 2, kinds), gen.mesh2d(d, 2, kinds)
    t = PM(2, 2, place(d, t, bbox(s.xyz)), t.cells)
    zs, zt = gen.incr(d, d.int(2, 4)), gen.incr(d, d.int(2, 4))
    out = []
    for pm, z in ((s, zs), (t, zt)):
        m2 = to_mc(PM(3, 2, [(x, y, z[0]) for x, y in pm.xyz], pm.cells))
        xyz, cells = gen.extrude_cells(pm, z, d)
        cells = list(cells)
        # cell (layer, i) of the volume
        order = list(range(len(cells)))
        if d.bool():
            order = d.perm(len(cells)) if hasattr(d, 'perm') else order
        m3 = to_mc(PM(3, 3, xyz, [cells[i] for i in order]))
        m3.mergeNodes(1e-12)
        m2 = m3.buildFacePartOfMySelfNode(I([v for v in range(m3.getNumberOfNodes()) if abs(m3.getCoords()[v, 2] - z[0]) < 1e-9]), True)
        m2b = m2.deepCopy()
        m3.tryToShareSameCoordsPermute(m2, 1e-12)
        m2.setCoords(m3.getCoords()) if m2.getCoords().getHiddenCppPointer() != m3.getCoords().getHiddenCppPointer() else None
        e = mc.MEDCouplingMappedExtrudedMesh(m3, m2, 0)
        out.append((e, m3, order))
    (es, ms, os_), (et, mt, ot) = out
    w2 = matrix2d(cell_pts(t), cell_pts(s))
    w = {}
    for a, i in enumerate(ot):
        for b, j in enumerate(os_):
            li, ci, lj, cj = i // t.nc, i % t.nc, j // s.nc, j % s.nc
            h = min(zt[li + 1], zs[lj + 1]) - max(zt[li], zs[lj])
            if h > 0 and (ci, cj) in w2:
                w[a, b] = h * w2[ci, cj]
    cov(d, w, len(ot))
    d.sample((repr(s) + ' %s -> ' % zs + repr(t) + ' %s' % zt)[:600])
    r = remap(d, es, et)
    compare(d, r.getCrudeMatrix(), len(os_), w, 1e-8, 'P0P0 extruded')


@check(n=5000, rule='a segment crossing at least two cells')
def mixed(d):
    """segments in planar cells (2D-1D) and faces in volumes (3D-2D), generic position"""
    if d.bool(.7):
        s = gen.mesh2d(d, 3, ('quad', 'tri', 'poly', 'center'))
        b = bbox(s.xyz)
        xyz, cells = [], []
        for k in range(d.int(1, 4)):
            p = [tuple(l + (h - l) * d.uniform(-.2, 1.2) for l, h in b) for _ in range(2)]
            cells.append((SEG2, [2 * k, 2 * k + 1]))
            xyz += p
        t = PM(2, 1, xyz, cells)
        Q = cell_pts(s)
        w = {}
        for i in range(t.nc):
            a, e = xyz[2 * i], xyz[2 * i + 1]
            for j, q in enumerate(Q):
                lo, hi = 0., 1.
                if poly_area2d(q) < 0:
                    q = q[::-1]
                for k in range(len(q)):
                    u, v = q[k], q[(k + 1) % len(q)]
                    n = (v[1] - u[1], u[0] - v[0])      # outward
                    f0, f1 = dot(n, sub(a, u)), dot(n, sub(e, u))
                    if f0 > 0 and f1 > 0:
                        lo, hi = 1., 0.
                    elif f0 > 0:
                        lo = max(lo, f0 / (f0 - f1))
                    elif f1 > 0:
                        hi = min(hi, f0 / (f0 - f1))
                if hi > lo:
                    w[i, j] = (hi - lo) * dist(a, e)
        opts = dict(itype='Geometric2D')
        nm = '2D-1D'
        tol = 1e-8
    else:
        s = convex3(d, 2)
        if not volume_ok(s):
            raise Discard()
        pm = gen.mesh2d(d, 2, ('quad', 'tri'))
        R = gen.rotation3(d)
        b = bbox(s.xyz)
        o3 = [l + (h - l) * d.uniform(.2, .8) for l, h in b]
        c = centroid_pts(pm.xyz)
        xyz = [gen.apply3(R, o3, (x - c[0], y - c[1], 0.)) for x, y in pm.xyz]
        t = PM(3, 2, xyz, pm.cells)
        w = {}
        n = tuple(R[i][2] for i in range(3))
        for j, (a, cc) in enumerate(s.cells):
            fs = solid_faces(a, cc, s.xyz)
            for i, (_, ct) in enumerate(t.cells):
                poly = [(x - c[0], y - c[1]) for x, y in (pm.xyz[v] for v in ct)]
                for f in fs:
                    nf = poly_normal3d(f)
                    if norm(nf) == 0 or len(poly) < 3:
                        continue
                    # half plane in local coordinates: dot(nf, R (u,v,0) + o - f0) <= 0
                    A_ = sum(nf[k] * R[k][0] for k in range(3))
                    B_ = sum(nf[k] * R[k][1] for k in range(3))
                    C_ = dot(nf, sub(o3, f[0]))
                    new = []
                    for k in range(len(poly)):
                        p, q = poly[k], poly[(k + 1) % len(poly)]
                        g, h = A_ * p[0] + B_ * p[1] + C_, A_ * q[0] + B_ * q[1] + C_
                        if g <= 0:
                            new.append(p)
                        if g * h < 0:
                            r = g / (g - h)
                            new.append((p[0] + r * (q[0] - p[0]), p[1] + r * (q[1] - p[1])))
                    poly = new
                if len(poly) >= 3 and abs(poly_area2d(poly)) > 0:
                    w[i, j] = abs(poly_area2d(poly))
        opts = dict(split=d.choice([mc.PLANAR_FACE_5, mc.PLANAR_FACE_6]))
        nm = '3D-2D'
        tol = 1e-7
    cov(d, w, t.nc)
    d.sample(nm + (repr(s) + ' -> ' + repr(t))[:700])
    compare(d, remap(d, to_mc(s), to_mc(t), **opts).getCrudeMatrix(), s.nc, w, tol, 'P0P0 ' + nm)
    if d.bool(.5):
        compare(d, transposed(remap(d, to_mc(t), to_mc(s), **opts).getCrudeMatrix(), t.nc), s.nc, w, tol, 'P0P0 transposed ' + nm)


@check(n=3000, rule='curved edges')
def curved(d):
    """quadratic cells with Geometric2D: covering sums equal the measures of the cells, symmetry"""
    base = gen.mesh2d(d, 2, ('quad', 'tri', 'poly'))
    s = gen.quadratic(base, d, .02)
    b = bbox(s.xyz)
    # target: rectangles or curved cells covering the source
    n = d.int(1, 3)
    m = .3
    xs = [b[0][0] - m + (b[0][1] - b[0][0] + 2 * m) * i / n for i in range(n + 1)]
    ys = [b[1][0] - m, b[1][1] + m]
    if n > 1:
        xs = [x + (d.uniform(-.05, .05) if 0 < i < n else 0) for i, x in enumerate(xs)]
    xyz = [(x, y) for y in ys for x in xs]
    t = PM(2, 2, xyz, [(QUAD4, [i, i + 1, n + 2 + i, n + 1 + i]) for i in range(n)])
    for tt, c in s.cells:         # known finding demo_bulge: bounding boxes are those of the nodes
        lo, hi = bbox([s.xyz[v] for v in c])[0]
        if any(lo - .06 < x <= lo + 1e-9 or hi - 1e-9 <= x < hi + .06 for x in xs):
            raise Discard()
    if d.bool(.5):
        t = gen.quadratic(t, d, .0)
    d.sample((repr(s) + ' -> ' + repr(t))[:700])
    d.nontrivial(s.nc > 1)
    ms, mt = to_mc(s), to_mc(t)
    M = remap(d, ms, mt, itype='Geometric2D').getCrudeMatrix()
    vs = [abs(x) for x in L(ms.getMeasureField(True).getArray())]
    col = [0.] * s.nc
    for row in M:
        for j, v in row.items():
            col[j] += v
    near(d, col, vs, 'sum of the column of a source cell covered by the targets', 1e-7, 1.)
    compare(d, transposed(remap(d, mt, ms, itype='Geometric2D').getCrudeMatrix(), t.nc), s.nc, {(i, j): v for i, r in enumerate(M) for j, v in r.items()}, 1e-8, 'transposed')


def _mesh(pts, cells):
    return to_mc(PM(2, 2, pts, cells))


def demo_convex_degenerate():
    """Convex intersector, a vertex of a cell on the first vertex of the other"""
    s = _mesh([(.0625, -.0625), (.0625, .0625), (0., 0.)], [(TRI3, [0, 1, 2])])
    t = _mesh([(0., 0.), (.25, 0.), (.25, .25), (0., .25)], [(QUAD4, [0, 1, 2, 3])])
    r = mc.MEDCouplingRemapper()
    r.setIntersectionType(mc.Convex)
    r.prepare(s, t, 'P0P0')
    return abs(r.getCrudeMatrix()[0].get(0, 0.) - .001953125) > 1e-9


def demo_bulge():
    """the arc of a quadratic source cell reaches a target which the nodes of the source do not reach"""
    s = _mesh([(0., 0.), (1., 0.), (1., 1.), (0., 1.), (.5, 0.), (1.2, .4), (.5, 1.), (0., .5)], [(QUAD8, list(range(8)))])
    t = _mesh([(1.201, -1.), (2., -1.), (2., 2.), (1.201, 2.)], [(QUAD4, [0, 1, 2, 3])])
    r = mc.MEDCouplingRemapper()
    r.setIntersectionType(mc.Geometric2D)
    r.prepare(s, t, 'P0P0')
    return not r.getCrudeMatrix()[0]
