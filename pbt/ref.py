"""Reference model of meshes in plain Python, independent of the library.

PM: points + list of (type, connectivity).  Polyhedra store faces separated by -1.
Cell tables follow the MED conventions (faces listed with outward normal)."""
import math
from fractions import Fraction

(POINT1, SEG2, SEG3, TRI3, QUAD4, POLYGON, TRI6, TRI7, QUAD8, QUAD9, SEG4) = range(11)
TETRA4, PYRA5, PENTA6, HEXA8, TETRA10, HEXGP12, PYRA13, PENTA15, HEXA27, PENTA18, HEXA20, POLYHED, QPOLYG, POLYL = 14, 15, 16, 18, 20, 22, 23, 25, 27, 28, 30, 31, 32, 33
NAMES = {v: k for k, v in list(globals().items()) if k.isupper() and isinstance(v, int)}
DIM = {POINT1: 0, SEG2: 1, SEG3: 1, SEG4: 1, POLYL: 1, TRI3: 2, QUAD4: 2, POLYGON: 2, TRI6: 2, TRI7: 2, QUAD8: 2, QUAD9: 2, QPOLYG: 2,
       TETRA4: 3, PYRA5: 3, PENTA6: 3, HEXA8: 3, TETRA10: 3, HEXGP12: 3, PYRA13: 3, PENTA15: 3, PENTA18: 3, HEXA20: 3, HEXA27: 3, POLYHED: 3}
NN = {POINT1: 1, SEG2: 2, SEG3: 3, SEG4: 4, TRI3: 3, QUAD4: 4, TRI6: 6, TRI7: 7, QUAD8: 8, QUAD9: 9, TETRA4: 4, PYRA5: 5, PENTA6: 6, HEXA8: 8,
      TETRA10: 10, HEXGP12: 12, PYRA13: 13, PENTA15: 15, PENTA18: 18, HEXA20: 20, HEXA27: 27}
DYN = {POLYGON, QPOLYG, POLYHED, POLYL}
FACES = {
    TETRA4: [(TRI3, [0, 1, 2]), (TRI3, [0, 3, 1]), (TRI3, [1, 3, 2]), (TRI3, [2, 3, 0])],
    HEXA8: [(QUAD4, [0, 1, 2, 3]), (QUAD4, [4, 7, 6, 5]), (QUAD4, [0, 4, 5, 1]), (QUAD4, [1, 5, 6, 2]), (QUAD4, [2, 6, 7, 3]), (QUAD4, [3, 7, 4, 0])],
    PYRA5: [(QUAD4, [0, 1, 2, 3]), (TRI3, [0, 4, 1]), (TRI3, [1, 4, 2]), (TRI3, [2, 4, 3]), (TRI3, [3, 4, 0])],
    PENTA6: [(TRI3, [0, 1, 2]), (TRI3, [3, 5, 4]), (QUAD4, [0, 3, 4, 1]), (QUAD4, [1, 4, 5, 2]), (QUAD4, [2, 5, 3, 0])],
    TETRA10: [(TRI6, [0, 1, 2, 4, 5, 6]), (TRI6, [0, 3, 1, 7, 8, 4]), (TRI6, [1, 3, 2, 8, 9, 5]), (TRI6, [2, 3, 0, 9, 7, 6])],
    HEXGP12: [(POLYGON, [0, 1, 2, 3, 4, 5]), (POLYGON, [6, 11, 10, 9, 8, 7]), (QUAD4, [0, 6, 7, 1]), (QUAD4, [1, 7, 8, 2]), (QUAD4, [2, 8, 9, 3]),
              (QUAD4, [3, 9, 10, 4]), (QUAD4, [4, 10, 11, 5]), (QUAD4, [5, 11, 6, 0])],
    PYRA13: [(QUAD8, [0, 1, 2, 3, 5, 6, 7, 8]), (TRI6, [0, 4, 1, 9, 10, 5]), (TRI6, [1, 4, 2, 10, 11, 6]), (TRI6, [2, 4, 3, 11, 12, 7]), (TRI6, [3, 4, 0, 12, 9, 8])],
    PENTA15: [(TRI6, [0, 1, 2, 6, 7, 8]), (TRI6, [3, 5, 4, 11, 10, 9]), (QUAD8, [0, 3, 4, 1, 12, 9, 13, 6]), (QUAD8, [1, 4, 5, 2, 13, 10, 14, 7]), (QUAD8, [2, 5, 3, 0, 14, 11, 12, 8])],
    PENTA18: [(TRI6, [0, 1, 2, 6, 7, 8]), (TRI6, [3, 5, 4, 11, 10, 9]), (QUAD9, [0, 3, 4, 1, 12, 9, 13, 6, 15]), (QUAD9, [1, 4, 5, 2, 13, 10, 14, 7, 16]), (QUAD9, [2, 5, 3, 0, 14, 11, 12, 8, 17])],
    HEXA20: [(QUAD8, [0, 1, 2, 3, 8, 9, 10, 11]), (QUAD8, [4, 7, 6, 5, 15, 14, 13, 12]), (QUAD8, [0, 4, 5, 1, 16, 12, 17, 8]), (QUAD8, [1, 5, 6, 2, 17, 13, 18, 9]),
             (QUAD8, [2, 6, 7, 3, 18, 14, 19, 10]), (QUAD8, [3, 7, 4, 0, 19, 15, 16, 11])],
    HEXA27: [(QUAD9, [0, 1, 2, 3, 8, 9, 10, 11, 20]), (QUAD9, [4, 7, 6, 5, 15, 14, 13, 12, 25]), (QUAD9, [0, 4, 5, 1, 16, 12, 17, 8, 21]), (QUAD9, [1, 5, 6, 2, 17, 13, 18, 9, 22]),
             (QUAD9, [2, 6, 7, 3, 18, 14, 19, 10, 23]), (QUAD9, [3, 7, 4, 0, 19, 15, 16, 11, 24])],
    TRI3: [(SEG2, [0, 1]), (SEG2, [1, 2]), (SEG2, [2, 0])],
    QUAD4: [(SEG2, [0, 1]), (SEG2, [1, 2]), (SEG2, [2, 3]), (SEG2, [3, 0])],
    TRI6: [(SEG3, [0, 1, 3]), (SEG3, [1, 2, 4]), (SEG3, [2, 0, 5])],
    TRI7: [(SEG3, [0, 1, 3]), (SEG3, [1, 2, 4]), (SEG3, [2, 0, 5])],
    QUAD8: [(SEG3, [0, 1, 4]), (SEG3, [1, 2, 5]), (SEG3, [2, 3, 6]), (SEG3, [3, 0, 7])],
    QUAD9: [(SEG3, [0, 1, 4]), (SEG3, [1, 2, 5]), (SEG3, [2, 3, 6]), (SEG3, [3, 0, 7])],
    SEG2: [(POINT1, [0]), (POINT1, [1])],
    SEG3: [(POINT1, [0]), (POINT1, [1]), (POINT1, [2])],
    SEG4: [(POINT1, [0]), (POINT1, [1]), (POINT1, [2]), (POINT1, [3])],
}
EDGES3 = {  # edges of 3D cells: (a,b) or (a,b,mid)
    TETRA4: [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    HEXA8: [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
    PYRA5: [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    PENTA6: [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    HEXGP12: [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0), (6, 7), (7, 8), (8, 9), (9, 10), (10, 11), (11, 6), (0, 6), (1, 7), (2, 8), (3, 9), (4, 10), (5, 11)],
    TETRA10: [(0, 1, 4), (1, 2, 5), (2, 0, 6), (0, 3, 7), (1, 3, 8), (2, 3, 9)],
    PYRA13: [(0, 1, 5), (1, 2, 6), (2, 3, 7), (3, 0, 8), (0, 4, 9), (1, 4, 10), (2, 4, 11), (3, 4, 12)],
    PENTA15: [(0, 1, 6), (1, 2, 7), (2, 0, 8), (3, 4, 9), (4, 5, 10), (5, 3, 11), (0, 3, 12), (1, 4, 13), (2, 5, 14)],
    PENTA18: [(0, 1, 6), (1, 2, 7), (2, 0, 8), (3, 4, 9), (4, 5, 10), (5, 3, 11), (0, 3, 12), (1, 4, 13), (2, 5, 14)],
    HEXA20: [(0, 1, 8), (1, 2, 9), (2, 3, 10), (3, 0, 11), (4, 5, 12), (5, 6, 13), (6, 7, 14), (7, 4, 15), (0, 4, 16), (1, 5, 17), (2, 6, 18), (3, 7, 19)],
}
LINEAR = {SEG3: SEG2, SEG4: SEG2, TRI6: TRI3, TRI7: TRI3, QUAD8: QUAD4, QUAD9: QUAD4, QPOLYG: POLYGON, TETRA10: TETRA4, PYRA13: PYRA5, PENTA15: PENTA6,
          PENTA18: PENTA6, HEXA20: HEXA8, HEXA27: HEXA8}
QUADR = {SEG2: SEG3, TRI3: TRI6, QUAD4: QUAD8, POLYGON: QPOLYG, TETRA4: TETRA10, PYRA5: PYRA13, PENTA6: PENTA15, HEXA8: HEXA20}
TYPES_BY_DIM = {0: [POINT1], 1: [SEG2, SEG3, SEG4], 2: [TRI3, QUAD4, POLYGON, TRI6, TRI7, QUAD8, QUAD9, QPOLYG],
                3: [TETRA4, PYRA5, PENTA6, HEXA8, HEXGP12, POLYHED, TETRA10, PYRA13, PENTA15, PENTA18, HEXA20, HEXA27]}


def is_quad(t):
    return t in LINEAR


def poly_faces(conn):
    out, cur = [], []
    for v in conn:
        if v == -1:
            out.append(cur)
            cur = []
        else:
            cur.append(v)
    out.append(cur)
    return out


def join_faces(faces):
    out = []
    for i, f in enumerate(faces):
        if i:
            out.append(-1)
        out += list(f)
    return out


def cell_faces(t, c):
    """sub-cells of dimension dim-1 as (type, nodes); oriented outward for 3D, turning for 2D"""
    if t == POLYGON:
        n = len(c)
        return [(SEG2, [c[i], c[(i + 1) % n]]) for i in range(n)]
    if t == QPOLYG:
        n = len(c) // 2
        return [(SEG3, [c[i], c[(i + 1) % n], c[n + i]]) for i in range(n)]
    if t == POLYHED:
        return [({3: TRI3, 4: QUAD4}.get(len(f), POLYGON), f) for f in poly_faces(c)]
    return [(ft, [c[i] for i in f]) for ft, f in FACES[t]]


def cell_edges(t, c):
    """edges of a 3D cell as tuples of nodes"""
    if t == POLYHED:
        seen = []
        keys = set()
        for f in poly_faces(c):
            for i in range(len(f)):
                e = (f[i], f[(i + 1) % len(f)])
                k = tuple(sorted(e))
                if k not in keys:
                    keys.add(k)
                    seen.append(e)
        return seen
    return [tuple(c[i] for i in e) for e in EDGES3[t]]


def cell_nodes(t, c):
    if t == POLYHED:
        s = []
        for v in c:
            if v != -1 and v not in s:
                s.append(v)
        return s
    return list(c)


def linear_conn(t, c):
    """(linear type, corner nodes)"""
    if t in (QPOLYG,):
        return POLYGON, c[:len(c) // 2]
    if t in LINEAR:
        lt = LINEAR[t]
        return lt, c[:NN[lt]]
    return t, c


def face_key(t, nodes):
    """identity of a face/edge whatever the direction and first node: node set of the cell"""
    return (frozenset(nodes), len(nodes))


class PM:
    def __init__(self, sd, md, xyz, cells, name=''):
        self.sd, self.md, self.xyz, self.cells, self.name = sd, md, [tuple(float(v) for v in p) for p in xyz], [(t, list(c)) for t, c in cells], name

    def copy(self):
        return PM(self.sd, self.md, self.xyz, self.cells, self.name)

    @property
    def nn(self):
        return len(self.xyz)

    @property
    def nc(self):
        return len(self.cells)

    def pts(self, i):
        t, c = self.cells[i]
        return [self.xyz[k] for k in cell_nodes(t, c)]

    def __repr__(self):
        return 'PM(%d,%d,%r,[%s])' % (self.sd, self.md, self.xyz, ', '.join('(%s,%r)' % (NAMES[t], c) for t, c in self.cells))

    def map_nodes(self, f, xyz):
        return PM(self.sd, self.md, xyz, [(t, [v if v == -1 else f(v) for v in c]) for t, c in self.cells], self.name)

    def used(self):
        s = set()
        for t, c in self.cells:
            s.update(v for v in c if v != -1)
        return s


# ---------------------------------------------------------------- vectors
def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(a, k):
    return tuple(x * k for x in a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def dist(a, b):
    return norm(sub(a, b))


def centroid_pts(ps):
    n = len(ps)
    return tuple(sum(p[k] for p in ps) / n for k in range(len(ps[0])))


# ---------------------------------------------------------------- measures of linear cells
def poly_area2d(ps):
    x0, y0 = ps[0]
    a = 0.
    for i in range(1, len(ps) - 1):
        a += (ps[i][0] - x0) * (ps[i + 1][1] - y0) - (ps[i + 1][0] - x0) * (ps[i][1] - y0)
    return a / 2


def poly_centroid2d(ps):
    x0, y0 = ps[0]
    a = cx = cy = 0.
    for i in range(1, len(ps) - 1):
        ux, uy, vx, vy = ps[i][0] - x0, ps[i][1] - y0, ps[i + 1][0] - x0, ps[i + 1][1] - y0
        w = ux * vy - uy * vx
        a += w
        cx += w * (ux + vx) / 3
        cy += w * (uy + vy) / 3
    return (x0 + cx / a, y0 + cy / a)


def poly_normal3d(ps):
    """vector area (norm = area for planar polygons)"""
    o = ps[0]
    n = (0., 0., 0.)
    for i in range(1, len(ps) - 1):
        n = add(n, cross(sub(ps[i], o), sub(ps[i + 1], o)))
    return mul(n, .5)


def poly_centroid3d(ps):
    """centre of mass of a planar polygon in 3D"""
    o = ps[0]
    n = poly_normal3d(ps)
    nn = norm(n)
    a = 0.
    c = (0., 0., 0.)
    for i in range(1, len(ps) - 1):
        u, v = sub(ps[i], o), sub(ps[i + 1], o)
        w = dot(cross(u, v), n) / nn
        a += w
        c = add(c, mul(add(u, v), w / 3))
    return add(o, mul(c, 1 / a))


def solid_volume_centroid(faces):
    """faces: lists of 3D points with outward normals, planar. -> (signed volume, centroid)"""
    o = faces[0][0]
    V = 0.
    C = (0., 0., 0.)
    for f in faces:
        a = sub(f[0], o)
        for i in range(1, len(f) - 1):
            b, c = sub(f[i], o), sub(f[i + 1], o)
            w = dot(a, cross(b, c)) / 6
            V += w
            C = add(C, mul(add(add(a, b), c), w / 4))
    return V, (add(o, mul(C, 1 / V)) if V else o)


def cell_measure_centroid(sd, t, c, xyz):
    """measure (signed for 2D in 2D and 3D) and centre of mass of a linear cell"""
    lt, lc = linear_conn(t, c)
    d = DIM[t]
    if d == 0:
        return 1., xyz[c[0]]
    if d == 1:
        if lt == POLYL:
            L = 0.
            C = tuple(0. for _ in range(sd))
            for a, b in zip(lc, lc[1:]):
                l = dist(xyz[a], xyz[b])
                L += l
                C = add(C, mul(add(xyz[a], xyz[b]), l / 2))
            return L, mul(C, 1 / L)
        a, b = xyz[lc[0]], xyz[lc[1]]
        return (b[0] - a[0] if sd == 1 else dist(a, b)), centroid_pts([a, b])
    if d == 2:
        ps = [xyz[k] for k in lc]
        if sd == 2:
            return poly_area2d(ps), poly_centroid2d(ps)
        return norm(poly_normal3d(ps)), poly_centroid3d(ps)
    fs = [[xyz[k] for k in linear_conn(ft, fc)[1]] for ft, fc in cell_faces(lt, lc)]
    return solid_volume_centroid(fs)


def bbox(ps):
    return [(min(p[k] for p in ps), max(p[k] for p in ps)) for k in range(len(ps[0]))]


# ---------------------------------------------------------------- clipping (convex)
def clip_poly2d(ps, a, b):
    """part of polygon ps on the left of the line a->b"""
    out = []
    n = len(ps)
    ex, ey = b[0] - a[0], b[1] - a[1]

    def side(p):
        return ex * (p[1] - a[1]) - ey * (p[0] - a[0])
    for i in range(n):
        p, q = ps[i], ps[(i + 1) % n]
        sp, sq = side(p), side(q)
        if sp >= 0:
            out.append(p)
        if (sp > 0 and sq < 0) or (sp < 0 and sq > 0):
            t = sp / (sp - sq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def convex_inter2d(p, q):
    """area and polygon of the intersection of convex polygons (any orientation)"""
    if poly_area2d(p) < 0:
        p = p[::-1]
    if poly_area2d(q) < 0:
        q = q[::-1]
    r = p
    for i in range(len(q)):
        if len(r) < 3:
            return 0., []
        r = clip_poly2d(r, q[i], q[(i + 1) % len(q)])
    if len(r) < 3:
        return 0., []
    return abs(poly_area2d(r)), r


def is_convex2d(ps):
    n = len(ps)
    s = 0
    for i in range(n):
        a, b, c = ps[i], ps[(i + 1) % n], ps[(i + 2) % n]
        z = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
        if z == 0:
            continue
        if s == 0:
            s = 1 if z > 0 else -1
        elif (z > 0) != (s > 0):
            return False
    return True


def tri_fan2d(ps):
    return [(ps[0], ps[i], ps[i + 1]) for i in range(1, len(ps) - 1)]


def signed_fan_inter2d(p, q):
    """intersection area of two simple polygons by signed fan decomposition (any simple polygons)"""
    o = 0.
    ap = 1 if poly_area2d(p) >= 0 else -1
    aq = 1 if poly_area2d(q) >= 0 else -1
    for t in tri_fan2d(p):
        st = poly_area2d(t)
        if st == 0:
            continue
        for u in tri_fan2d(q):
            su = poly_area2d(u)
            if su == 0:
                continue
            a, _ = convex_inter2d(list(t), list(u))
            o += a * (1 if st > 0 else -1) * (1 if su > 0 else -1)
    return o * ap * aq


def clip_solid(faces, n, d0):
    """convex solid (list of planar faces, outward) cut by halfspace dot(n,x)<=d0; -> faces"""
    out = []
    cut = []
    scale = max([1e-300] + [abs(dot(n, p) - d0) for f in faces for p in f])
    eps = 1e-13 * scale

    def sd(p):
        s = dot(n, p) - d0
        return 0. if abs(s) <= eps else s
    for f in faces:
        r = []
        m = len(f)
        for i in range(m):
            p, q = f[i], f[(i + 1) % m]
            sp, sq = sd(p), sd(q)
            if sp <= 0:
                r.append(p)
                if sp == 0:
                    cut.append(p)
            if (sp < 0 and sq > 0) or (sp > 0 and sq < 0):
                t = sp / (sp - sq)
                x = tuple(p[k] + t * (q[k] - p[k]) for k in range(3))
                r.append(x)
                cut.append(x)
        if len(r) >= 3:
            out.append(r)
    if not out:
        return []
    if len(cut) >= 3 and not any(all(sd(p) == 0 for p in f) for f in faces):
        # order cut points in the plane (convex)
        nn = norm(n)
        w = mul(n, 1 / nn)
        u = cross(w, (1., 0., 0.) if abs(w[0]) < .9 else (0., 1., 0.))
        u = mul(u, 1 / norm(u))
        v = cross(w, u)
        c = centroid_pts(cut)
        ang = sorted(cut, key=lambda p: math.atan2(dot(sub(p, c), v), dot(sub(p, c), u)))
        ded = []
        for p in ang:
            if not ded or dist(p, ded[-1]) > 1e-12:
                ded.append(p)
        if len(ded) >= 3:
            out.append(ded)
    return out


def convex_inter3d(A, B):
    """volume of the intersection of two convex solids given by outward faces"""
    cur = A
    for f in B:
        n = poly_normal3d(f)
        if norm(n) == 0:
            continue
        cur = clip_solid(cur, n, dot(n, f[0]))
        if len(cur) < 4:
            return 0.
    return abs(vol_of(cur))


def vol_of(faces):
    """volume of a convex solid, faces in any orientation"""
    ps = [p for f in faces for p in f]
    c = centroid_pts(ps)
    V = 0.
    for f in faces:
        n = poly_normal3d(f)
        V += abs(dot(sub(f[0], c), n)) / 3
    return V


def tets_of(t, c, xyz):
    """decomposition of a convex planar-faced cell in tetrahedra (point tuples) around its centre"""
    lt, lc = linear_conn(t, c)
    fs = [[xyz[k] for k in fc] for ft, fc in cell_faces(lt, lc)]
    ctr = centroid_pts([xyz[k] for k in cell_nodes(lt, lc)])
    out = []
    for f in fs:
        for i in range(1, len(f) - 1):
            out.append((ctr, f[0], f[i], f[i + 1]))
    return out


def solid_faces(t, c, xyz):
    lt, lc = linear_conn(t, c)
    fs = [[xyz[k] for k in linear_conn(ft, fc)[1]] for ft, fc in cell_faces(lt, lc)]
    V, _ = solid_volume_centroid(fs)
    if V < 0:
        fs = [f[::-1] for f in fs]
    return fs


# ---------------------------------------------------------------- point location
def pt_in_poly2d(p, ps):
    """winding test; -> (inside, distance to boundary)"""
    n = len(ps)
    w = False
    dm = float('inf')
    for i in range(n):
        a, b = ps[i], ps[(i + 1) % n]
        dm = min(dm, pt_seg_dist(p, a, b))
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
            if p[0] < x:
                w = not w
    return w, dm


def pt_seg_dist(p, a, b):
    u = sub(b, a)
    l2 = dot(u, u)
    t = 0. if l2 == 0 else max(0., min(1., dot(sub(p, a), u) / l2))
    return dist(p, add(a, mul(u, t)))


def pt_tri_dist(p, a, b, c):
    n = cross(sub(b, a), sub(c, a))
    n2 = dot(n, n)
    if n2 > 0:
        k = dot(sub(p, a), n) / n2
        q = sub(p, mul(n, k))
        if dot(cross(sub(b, a), sub(q, a)), n) >= 0 and dot(cross(sub(c, b), sub(q, b)), n) >= 0 and dot(cross(sub(a, c), sub(q, c)), n) >= 0:
            return abs(k) * math.sqrt(n2)
    return min(pt_seg_dist(p, a, b), pt_seg_dist(p, b, c), pt_seg_dist(p, c, a))


def pt_in_solid(p, fs):
    """convex solid by outward faces: (inside, min |distance| to face planes)"""
    inside = True
    dm = float('inf')
    for f in fs:
        n = poly_normal3d(f)
        l = norm(n)
        if l == 0:
            continue
        s = dot(n, sub(p, f[0])) / l
        dm = min(dm, abs(s))
        if s > 0:
            inside = False
    return inside, dm


# ---------------------------------------------------------------- union find
class UF:
    def __init__(self, n):
        self.p = list(range(n))

    def find(self, i):
        while self.p[i] != i:
            self.p[i] = self.p[self.p[i]]
            i = self.p[i]
        return i

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[max(a, b)] = min(a, b)

    def groups(self):
        g = {}
        for i in range(len(self.p)):
            g.setdefault(self.find(i), []).append(i)
        return list(g.values())
