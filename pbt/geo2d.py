"""exact planar geometry of meshes with straight and circular edges"""
from fields import *


def arc(a, m, b):
    """(centre, radius, start angle, signed span) of the arc a-m-b, None when straight"""
    ux, uy = b[0] - a[0], b[1] - a[1]
    l = math.hypot(ux, uy)
    h = ((m[0] - a[0]) * -uy + (m[1] - a[1]) * ux) / l
    if abs(h) < 1e-9 * max(1., l):
        return None
    M = np.array([[2 * (m[0] - a[0]), 2 * (m[1] - a[1])], [2 * ux, 2 * uy]])
    da, dm, db = 0., (m[0] - a[0]) ** 2 + (m[1] - a[1]) ** 2, ux ** 2 + uy ** 2
    c = np.linalg.solve(M, [dm, db])
    c = (c[0] + a[0], c[1] + a[1])
    R = math.hypot(a[0] - c[0], a[1] - c[1])
    t0, t1, t2 = (math.atan2(p[1] - c[1], p[0] - c[0]) for p in (a, m, b))
    ccw = (t1 - t0) % (2 * math.pi) < (t2 - t0) % (2 * math.pi)
    span = (t2 - t0) % (2 * math.pi) if ccw else -((t0 - t2) % (2 * math.pi))
    return c, R, t0, span


class Geo(PM):
    """PM with its edges as segments (a, b) or arcs (a, m, b)"""

    def __init__(self, pm):
        PM.__init__(self, pm.sd, pm.md, [tuple(p) for p in pm.xyz], pm.cells, pm.name)
        self.edges = []
        self.arcs = {}
        for t, c in self.cells:
            if self.md == 1:
                self.edges.append([(c[0], c[1], c[2] if t == SEG3 else None)])
                continue
            q = t in (TRI6, QUAD8, QPOLYG, TRI7, QUAD9)
            n = {TRI6: 3, TRI7: 3, QUAD8: 4, QUAD9: 4}.get(t, len(c) // 2 if q else len(c))
            self.edges.append([(c[k], c[(k + 1) % n], c[n + k] if q else None) for k in range(n)])
        for es in self.edges:
            for a, b, m in es:
                if m is not None and (a, b, m) not in self.arcs:
                    self.arcs[(a, b, m)] = arc(self.xyz[a], self.xyz[m], self.xyz[b])
        self.curved = any(v is not None for v in self.arcs.values())
        self._pl = {}
        self.ok = True
        if not self.curved and self.md == 2:
            self.ok = all(is_convex2d([self.xyz[e[0]] for e in es]) for es in self.edges)

    def arc_of(self, e):
        return self.arcs.get(e) if e[2] is not None else None

    def line(self, e, n=24):
        """(points of the edge without the last one, largest distance to the edge)"""
        r = self._pl.get(e)
        if r is None:
            A = self.arc_of(e)
            if A is None:
                r = ([self.xyz[e[0]]], 0.)
            else:
                c, R, t0, sp = A
                r = ([(c[0] + R * math.cos(t0 + sp * k / n), c[1] + R * math.sin(t0 + sp * k / n)) for k in range(n)], R * (1 - math.cos(sp / n / 2)))
            self._pl[e] = r
        return r

    def poly(self, i):
        ps, s = [], 0.
        for e in self.edges[i]:
            p, x = self.line(e)
            ps += p
            s = max(s, x)
        return ps, s


def area(g, i):
    """signed area, counter-clockwise positive"""
    s = 0.
    x0, y0 = g.xyz[g.edges[i][0][0]]
    for e in g.edges[i]:
        (ax, ay), (bx, by) = g.xyz[e[0]], g.xyz[e[1]]
        s += ((ax - x0) * (by - y0) - (bx - x0) * (ay - y0)) / 2
        A = g.arc_of(e)
        if A is not None:
            c, R, t0, sp = A
            s += R * R / 2 * (sp - math.sin(sp))
    return s


def poly_area(ps):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(ps, ps[1:] + ps[:1])) / 2


def length(g, i):
    e = g.edges[i][0]
    A = g.arc_of(e)
    return dist(g.xyz[e[0]], g.xyz[e[1]]) if A is None else abs(A[1] * A[3])


def middle(g, i, e=None):
    """middle of the edge and unit tangent there"""
    e = e or g.edges[i][0]
    a, b = g.xyz[e[0]], g.xyz[e[1]]
    A = g.arc_of(e)
    if A is None:
        l = dist(a, b)
        return mul(add(a, b), .5), ((b[0] - a[0]) / l, (b[1] - a[1]) / l)
    c, R, t0, sp = A
    t = t0 + sp / 2
    s = 1 if sp > 0 else -1
    return (c[0] + R * math.cos(t), c[1] + R * math.sin(t)), (-math.sin(t) * s, math.cos(t) * s)


def dist_e(g, e, p):
    """distance of p to the edge e"""
    A = g.arc_of(e)
    if A is None:
        return pt_seg_dist(p, g.xyz[e[0]], g.xyz[e[1]])
    c, R, t0, sp = A
    t = math.atan2(p[1] - c[1], p[0] - c[0])
    k = (t - t0) % (2 * math.pi) if sp > 0 else (t0 - t) % (2 * math.pi)
    if k <= abs(sp):
        return abs(dist(p, c) - R)
    return min(dist(p, g.xyz[e[0]]), dist(p, g.xyz[e[1]]))


def dist_edge(g, i, p):
    return dist_e(g, g.edges[i][0], p)


def where(g, p, tol=1e-5):
    """cells containing p; None when it is too close to an edge"""
    out = []
    if not hasattr(g, '_bb'):
        g._bb = [bbox(g.poly(i)[0]) for i in range(g.nc)]
        g._s = [g.poly(i)[1] for i in range(g.nc)]
    cand = [i for i in range(g.nc) if all(l - tol - s <= x <= h + tol + s for x, (l, h), s in zip(p, g._bb[i], [g._s[i]] * 2))]
    for i in cand:
        if any(dist_e(g, e, p) < tol for e in g.edges[i]):
            return None
    for i in cand:
        ps, s = g.poly(i)
        ins, dm = pt_in_poly2d(p, ps)
        if dm <= 2 * s:  # between the arc and its chords: decide with the exact circles
            ins = inside_exact(g, i, p)
        if ins:
            out.append(i)
    return out


def inside_exact(g, i, p):
    """winding number from the straight polygon, then circular segments"""
    ps = [g.xyz[e[0]] for e in g.edges[i]]
    w = 0
    for a, b in zip(ps, ps[1:] + ps[:1]):
        if (a[1] <= p[1]) != (b[1] <= p[1]):
            s = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])
            if b[1] > a[1] and s > 0:
                w += 1
            elif b[1] <= a[1] and s < 0:
                w -= 1
    for e in g.edges[i]:
        A = g.arc_of(e)
        if A is None:
            continue
        c, R, t0, sp = A
        a, b = g.xyz[e[0]], g.xyz[e[1]]
        if dist(p, c) < R:
            s = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])
            if sp > 0 and s < 0:
                w += 1
            elif sp < 0 and s > 0:
                w -= 1
    return w != 0


def uniq(g):
    """edges of the cells: key -> list of (cell, edge)"""
    out = {}
    for i, es in enumerate(g.edges):
        for e in es:
            A = g.arc_of(e)
            p = middle(g, i, e)[0] if A is not None else None
            k = (min(e[:2]), max(e[:2]))
            l = out.setdefault(k, [])
            for x in l:
                if (x[0] is None) == (p is None) and (p is None or dist(x[0], p) < 1e-7):
                    x[1].append((i, e))
                    break
            else:
                l.append((p, [(i, e)]))
    return [x for l in out.values() for x in l]


def border(g):
    return [(ce[0][0], ce[0][1]) for p, ce in uniq(g) if len(ce) == 1]


def conform(d, A, R, what, tol=1e-7):
    """edges of R used by a single cell are on the border of A, others by two"""
    b = [e for _, e in border(A)]
    for p, ce in uniq(R):
        d.check(len(ce) < 3, '%s: edge %r shared by cells %r' % (what, ce[0][1], [c for c, _ in ce]))
        if len(ce) == 1:
            i, e = ce[0]
            x = middle(R, i, e)[0]
            dm = min(dist_e(A, f, x) for f in b)
            if dm >= tol:
                d.fail('%s: not conformal, the edge %r of cell %d (%r, middle %r) is used by one cell only, at %g of the border of the first mesh' % (what, e, i, R.cells[i], x, dm))


def conform_self(d, R, what, tol=1e-8):
    """no node used by a cell is inside an edge"""
    used = sorted({v for es in R.edges for e in es for v in e[:2]})
    for p, ce in uniq(R):
        d.check(len(ce) < 3, '%s: edge %r shared by cells %r' % (what, ce[0][1], [c for c, _ in ce]))
        i, e = ce[0]
        for v in used:
            if v not in e[:2] and dist_e(R, e, R.xyz[v]) < tol and min(dist(R.xyz[v], R.xyz[e[0]]), dist(R.xyz[v], R.xyz[e[1]])) > tol:
                d.fail('%s: not conformal, node %d %r is inside the edge %r of cell %d' % (what, v, R.xyz[v], e, i))


def clearance(A, B, tol):
    """no node of one mesh close to an edge of the other without being (almost exactly) on it"""
    for g, h in ((A, B), (B, A)):
        used = {v for es in g.edges for e in es for v in e[:2]}
        for v in used:
            for es in h.edges:
                for e in es:
                    x = dist_e(h, e, g.xyz[v])
                    if tol and x < tol or not tol and 1e-13 < x < 1e-6:
                        return False
    # arcs and edges: no near tangency
    if 1:
        ea = {e for es in A.edges for e in es}
        eb = {e for es in B.edges for e in es}
        for e in ea:
            for f in eb:
                a, b = A.arc_of(e), B.arc_of(f)
                if a is not None and b is not None:
                    D = dist(a[0], b[0])
                    if not tol and D < 1e-12 and abs(a[1] - b[1]) < 1e-12:
                        continue
                    if min(abs(D - a[1] - b[1]), abs(D - abs(a[1] - b[1]))) < 10 * (tol or 1e-6):
                        return False
                elif a is not None or b is not None:
                    c, R = (a or b)[:2]
                    p, q = (B.xyz[f[0]], B.xyz[f[1]]) if a is not None else (A.xyz[e[0]], A.xyz[e[1]])
                    u = sub(q, p)
                    l = norm(u)
                    if abs(abs((c[0] - p[0]) * u[1] - (c[1] - p[1]) * u[0]) / l - R) < 10 * (tol or 1e-6):
                        return False
    return True


def seg_cross(a, b, c, e):
    def s(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    return s(a, b, c) * s(a, b, e) <= 0 and s(c, e, a) * s(c, e, b) <= 0


def simple(pts, segs):
    """the polyline does not cross nor touch itself"""
    if any(dist(pts[a], pts[b]) < .05 for a, b in segs):
        return False
    for i, (a, b) in enumerate(segs):
        for c, e in segs[:i]:
            sh = {a, b} & {c, e}
            if not sh:
                if seg_cross(pts[a], pts[b], pts[c], pts[e]):
                    return False
            elif len(sh) == 1:
                v = sh.pop()
                p, q = pts[a + b - v], pts[c + e - v]
                if pt_seg_dist(p, pts[v], q) < .02 or pt_seg_dist(q, pts[v], p) < .02:
                    return False
            else:
                return False
    for i in range(len(pts)):
        for a, b in segs:
            if i not in (a, b) and pt_seg_dist(pts[i], pts[a], pts[b]) < .02:
                return False
    return True


def self_cross(g):
    """edges of the line crossing outside of their ends (polylines of arcs)"""
    L_ = [g.line(es[0], 16)[0] + [g.xyz[es[0][1]]] for es in g.edges]
    for i in range(len(L_)):
        for j in range(i):
            for a, b in zip(L_[i], L_[i][1:]):
                for c, e in zip(L_[j], L_[j][1:]):
                    if min(dist(x, y) for x in (a, b) for y in (c, e)) < 1e-9:
                        continue
                    if seg_cross(a, b, c, e):
                        return True
    return False


def components(pm):
    """cells connected by edges"""
    u = UF(pm.nc)
    es = {}
    for i, (t, c) in enumerate(pm.cells):
        for k in range(len(c)):
            e = frozenset((c[k], c[(k + 1) % len(c)]))
            if e in es:
                u.union(es[e], i)
            es[e] = i
    out = {}
    for i in range(pm.nc):
        out.setdefault(u.find(i), []).append(i)
    return list(out.values())


def contour_edges(pm, cells):
    es = {}
    for i in cells:
        c = pm.cells[i][1]
        for k in range(len(c)):
            e = frozenset((c[k], c[(k + 1) % len(c)]))
            es[e] = es.get(e, 0) + 1
    return [e for e, n in es.items() if n == 1]


def simple_contour(pm, cells):
    """one closed contour visiting each of its nodes once"""
    es = contour_edges(pm, cells)
    deg = {}
    for e in es:
        for v in e:
            deg[v] = deg.get(v, 0) + 1
    if any(n != 2 for n in deg.values()):
        return False
    v = sorted(deg)
    ix = {x: i for i, x in enumerate(v)}
    u = UF(len(v))
    for e in es:
        a, b = e
        u.union(ix[a], ix[b])
    return len({u.find(i) for i in range(len(v))}) == 1


def boundary_nodes(pm):
    return sorted({v for e in contour_edges(pm, range(pm.nc)) for v in e})


def straight_node(pm, c, k):
    a, p, b = pm.xyz[c[k - 1]], pm.xyz[c[k]], pm.xyz[c[(k + 1) % len(c)]]
    return abs((p[0] - a[0]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[0] - a[0])) < 1e-10


def gen_curved(d):
    """conformal planar mesh with quadratic cells, some edges arcs of circles"""
    pm = gen.mesh2d(d, 2, perturb=d.bool(.5), kinds=('quad', 'tri', 'poly', 'merge'))
    d.assume(all(is_convex2d([pm.xyz[v] for v in c]) for t, c in pm.cells))
    q = gen.quadratic(pm, d, 0., False)
    sides = {}
    for t, c in q.cells:
        n = len(c) // 2
        for i in range(n):
            sides[c[n + i]] = (c[i], c[(i + 1) % n])
    h = min(pt_seg_dist(pm.xyz[v], pm.xyz[c[i]], pm.xyz[c[(i + 1) % len(c)]]) for t, c in pm.cells for i in range(len(c)) for v in c if v not in (c[i], c[(i + 1) % len(c)]))
    d.assume(h > 1e-2)
    xyz = list(q.xyz)
    for mnode, (a, b) in sorted(sides.items()):
        k = d.choice([0, 0, 1, 2, -1, -2])
        if k:
            A, B = xyz[a], xyz[b]
            u = sub(B, A)
            l = norm(u)
            s = min(h / 12, l / 4) * k / 2  # the tangents at the ends of the arcs stay apart
            xyz[mnode] = add(mul(add(A, B), .5), (-u[1] / l * s, u[0] / l * s))
    return PM(2, 2, xyz, q.cells, 'curved')


def flip(pm):
    """cells with the other orientation"""
    out = []
    for t, c in pm.cells:
        if t in (TRI6, QUAD8, QPOLYG):
            n = len(c) // 2
            out.append((t, [c[0]] + c[1:n][::-1] + c[n:][::-1]))
        else:
            out.append((t, [c[0]] + c[1:][::-1]))
    return PM(pm.sd, pm.md, pm.xyz, out, pm.name)


def loops(g):
    """nodes of the connected parts of the border"""
    es = [e for _, e in border(g)]
    v = sorted({x for e in es for x in e[:2]})
    ix = {x: i for i, x in enumerate(v)}
    u = UF(len(v))
    for e in es:
        u.union(ix[e[0]], ix[e[1]])
    out = {}
    for x in v:
        out.setdefault(u.find(ix[x]), []).append(x)
    return list(out.values())


def makes_hole(A, B):
    """a part of the border of B is inside a cell of A"""
    for l in loops(B):
        for i in range(A.nc):
            if all(inside_exact(A, i, B.xyz[v]) or min(dist_e(A, e, B.xyz[v]) for e in A.edges[i]) < 1e-9 for v in l):
                return True
    return False
