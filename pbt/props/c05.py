"""C05: proximity and bounding-box searches against brute force over all tuples / boxes."""
from common import *
import ctypes, gen

BIG = [1, 2, 3, 14, 15, 16, 29, 30, 31, 60]


def cloud(d, c, nmax=130, n=None):
    """integer points (so that every distance comparison is exact); returns (ints, scale)"""
    if n is None:
        n = d.choice(BIG) if d.bool(.4) else d.size(nmax, 1)
    g = d.nprng()
    kind = d.choice(('box', 'small', 'cluster', 'line', 'plane', 'spread', 'same'))
    d.label('cloud:' + kind)
    R = d.choice((3, 10, 100))
    if kind == 'small':
        x = g.randint(-2, 3, (n, c))
    elif kind == 'cluster':
        ctr = g.randint(-40 * R, 40 * R + 1, (d.int(1, 6), c))
        x = ctr[g.randint(0, len(ctr), n)] + g.randint(-3, 4, (n, c))
    elif kind == 'line':
        x = np.outer(g.randint(-R, R + 1, n), g.randint(-1, 2, c))
    elif kind == 'plane':
        x = g.randint(-R, R + 1, (n, c))
        x[:, int(g.randint(0, c))] = 5
    elif kind == 'spread':
        x = (2 ** g.randint(0, 20, (n, c))) * g.randint(-1, 2, (n, c))
    elif kind == 'same':
        x = np.zeros((n, c), dtype=int) + g.randint(-5, 6, c)
        k = int(g.randint(0, n))
        x[k] += g.randint(-1, 2, c)
    else:
        x = g.randint(-R, R + 1, (n, c))
    return x.astype(np.int64)


def arr(x, s=1.):
    return mc.DataArrayDouble(np.ascontiguousarray(x * s, dtype=float)).deepCopy() if len(x) else mc.DataArrayDouble(0, x.shape[1])


def pset(d, x, s):
    m = mc.MEDCouplingUMesh('m', x.shape[1])
    m.setCoords(arr(x, s))
    return m


def groups(c, ci):
    return [L(c)[a:b] for a, b in zip(L(ci), L(ci)[1:])]


@check(n=27000, rule='a query with at least one, and not every, tuple near')
def near_tuples(d):
    c, s = d.int(1, 3), 2. ** d.int(-10, 3)
    x = cloud(d, c)
    q = np.concatenate([x[[d.below(len(x)) for _ in range(d.int(0, 3))]] + d.nprng().randint(-2, 3, c), cloud(d, c, n=d.int(1, 20))])
    k = d.choice((0, 0, 1, 2, 5, 40))
    eps = (k + .5) * s
    D = np.abs(q[:, None, :] - x[None]).max(2) <= k
    want = [list(map(int, np.nonzero(r)[0])) for r in D]
    d.nontrivial(any(0 < len(w) < len(x) for w in want))
    d.sample('n=%d c=%d k=%d %s' % (len(x), c, k, short(want, 200)))
    a, b = arr(x, s), arr(q, s)
    o, oi = a.computeTupleIdsNearTuples(b, eps)
    eq(d, [sorted(g) for g in groups(o, oi)], want, 'computeTupleIdsNearTuples')
    m = pset(d, x, s)
    o, oi = m.getNodeIdsNearPoints(b, eps)
    eq(d, [sorted(g) for g in groups(o, oi)], want, 'getNodeIdsNearPoints')
    i = d.below(len(q))
    eq(d, sorted(L(m.getNodeIdsNearPoint([float(v) for v in q[i] * s], eps))), want[i], 'getNodeIdsNearPoint')


def clusters(d, c):
    """points whose 'within prec' relation is an equivalence in both norms; -> (ints, class of each, prec, scale)"""
    ng = d.size(60, 1)
    g = d.nprng()
    kind = d.choice(('cube', 'line', 'spread'))
    if kind == 'cube':
        side = int(math.ceil((ng + 1) ** (1. / c))) + 1
        cells = g.choice(side ** c, ng, replace=False)
        ctr = np.stack([(cells // side ** j) % side for j in range(c)], 1) - side // 2
    elif kind == 'line':
        ctr = np.zeros((ng, c), dtype=int)
        ctr[:, int(g.randint(0, c))] = g.permutation(ng)
    else:
        ctr = np.zeros((ng, c), dtype=int)
        ctr[:, int(g.randint(0, c))] = np.cumsum(2 ** g.randint(0, 14, ng))
        ctr = ctr[g.permutation(ng)]
    mult = [1 + (d.below(4) if d.bool(.4) else 0) for _ in range(ng)]
    if d.bool(.15):
        mult[d.below(ng)] = d.int(10, 40)
    cls = np.repeat(np.arange(ng), mult)
    cls = cls[g.permutation(len(cls))]
    x = ctr[cls] * 100 + g.randint(0, 9, (len(cls), c)) * (0 if d.bool(.3) else 1)
    return x.astype(np.int64), cls, d.choice((16.5, 40.5, 80.5)), 2. ** d.int(-12, 2)


@check(n=27000, rule='at least one class of several tuples and two classes')
def common_tuples(d):
    """findCommonTuples / getDifferentValues / findCommonNodes / areIncludedInMe"""
    c = d.int(1, 4)
    x, cls, prec, s = clusters(d, c)
    n = len(x)
    a = arr(x, s)
    by = {}
    for i, k in enumerate(cls):
        by.setdefault(int(k), []).append(i)
    d.nontrivial(len(by) > 1 and len(by) < n)
    d.sample('n=%d classes=%d c=%d' % (n, len(by), c))
    lim = d.choice((-1, 0, d.int(0, n)))
    # below the limit classes have one member only (already merged), otherwise the output is not specified further
    low = {}
    for i in range(max(lim, 0)):
        low[int(cls[i])] = low.get(int(cls[i]), 0) + 1
    if any(v > 1 for v in low.values()):
        lim = -1
    want = sorted(sorted(g) for g in by.values() if len(g) > 1 and max(g) >= lim)
    o, oi = a.findCommonTuples(prec * s, lim)
    eq(d, sorted(sorted(g) for g in groups(o, oi)), want, 'findCommonTuples(limit=%d)' % lim)
    if lim == -1:
        y = a.getDifferentValues(prec * s)
        first = sorted(min(g) for g in by.values())
        yy = y.toNumPyArray().reshape(-1, c) / s
        eq(d, len(yy), len(first), 'getDifferentValues: number of values')
        for i, f in enumerate(first):
            if not any((x[j] == yy[i]).all() for j in by[int(cls[f])]):
                d.fail('getDifferentValues: tuple %d is %s, not a member of the class of tuple %d' % (i, yy[i], f))
        if c <= 3:
            o, oi = pset(d, x, s).findCommonNodes(prec * s)
            eq(d, sorted(sorted(g) for g in groups(o, oi)), want, 'findCommonNodes')
    # inclusion; the searched array may itself hold coincident tuples
    if d.bool(.5):
        A = [d.choice(by[k]) for k in by]
    else:
        A = [d.below(n) for _ in range(d.int(1, n))]
    if d.bool(.3) and len(A) > 1:
        A.pop(d.below(len(A)))
    B = [d.below(n) for _ in range(d.int(1, 12))]
    ok, ids = arr(x[A], s).areIncludedInMe(arr(x[B], s), prec * s)
    inc = set(cls[B]) <= set(cls[A])
    eq(d, ok, inc, 'areIncludedInMe')
    if inc:
        ids = L(ids)
        if len(ids) != len(B) or any(not 0 <= k < len(A) or cls[A[k]] != cls[b] for k, b in zip(ids, B)):
            d.fail('areIncludedInMe: ids %s for classes %s in %s' % (ids, cls[B].tolist(), cls[A].tolist()))


@check(n=18000, rule='a tuple occurring several times and another one')
def common_ints(d):
    c = d.int(1, 4)
    x = cloud(d, c)
    if d.bool(.5):
        x = x % d.int(1, 6)
    by = {}
    for i, r in enumerate(x):
        by.setdefault(tuple(map(int, r)), []).append(i)
    d.nontrivial(1 < len(by) < len(x))
    d.sample('n=%d distinct=%d c=%d' % (len(x), len(by), c))
    cl = d.choice((mc.DataArrayInt32, mc.DataArrayInt64))
    a = cl(np.ascontiguousarray(x, dtype=np.int32 if cl is mc.DataArrayInt32 else np.int64)).deepCopy()
    o, oi = a.findCommonTuples(-1)
    eq(d, sorted(sorted(g) for g in groups(o, oi)), sorted(g for g in by.values() if len(g) > 1), 'findCommonTuples')


@check(n=18000, rule='at least two tuples and a unique closest one')
def closest(d):
    c, s = d.int(1, 3), 2. ** d.int(-8, 3)
    x, q = cloud(d, c), cloud(d, c, n=d.int(1, 25))
    if d.bool(.3):
        q = q + 3000
    D2 = ((q[:, None, :] - x[None]) ** 2).sum(2)
    d.nontrivial(len(x) > 1 and any((r == r.min()).sum() == 1 for r in D2))
    d.sample('n=%d nq=%d c=%d' % (len(x), len(q), c))
    a, b = arr(x, s), arr(q, s)
    got = L(a.findClosestTupleId(b))
    eq(d, len(got), len(q), 'findClosestTupleId length')
    for i, j in enumerate(got):
        if not 0 <= j < len(x) or D2[i, j] != D2[i].min():
            d.fail('findClosestTupleId: query %s got tuple %s at d2=%s, closest is at d2=%s (tuple %d)' %
                   (q[i], j, D2[i, j] if 0 <= j < len(x) else '?', D2[i].min(), D2[i].argmin()))
    dist, i, j = a.minimalDistanceTo(b)
    if D2[j, i] != D2.min():
        d.fail('minimalDistanceTo: pair (%d,%d) at d2=%s, minimum %s' % (i, j, D2[j, i], D2.min()))
    near(d, [dist], [math.sqrt(D2.min()) * s], 'minimalDistanceTo', 1e-12, 1 + math.sqrt(D2.min()) * s)
    k = d.below(len(q))
    dist, i = a.distanceToTuple([float(v) for v in q[k] * s])
    eq(d, i, int(D2[k].argmin()), 'distanceToTuple id')
    near(d, [dist], [math.sqrt(D2[k].min()) * s], 'distanceToTuple', 1e-12, 1 + math.sqrt(D2[k].min()) * s)
    if len(x) <= 40:
        m = a.buildEuclidianDistanceDenseMatrixWith(b)
        near(d, L(m), [float(v) for v in (np.sqrt(D2) * s).ravel()], 'buildEuclidianDistanceDenseMatrixWith', 1e-12, 1 + math.sqrt(D2.max()) * s)
        m = a.buildEuclidianDistanceDenseMatrix()
        S2 = ((x[:, None, :] - x[None]) ** 2).sum(2)
        near(d, L(m), [float(v) for v in (np.sqrt(S2) * s).ravel()], 'buildEuclidianDistanceDenseMatrix', 1e-12, 1 + math.sqrt(S2.max()) * s)


@check(n=18000, rule='some nodes on the plane / line and some off')
def plane_line(d):
    c, s = d.int(2, 3), 2. ** d.int(-6, 3)
    x = cloud(d, c)
    p = x[d.below(len(x))] if d.bool(.7) else d.nprng().randint(-5, 6, c)
    v = np.array([d.sint(4) for _ in range(c)])
    if not v.any():
        v[d.below(c)] = 1
    vs = d.choice((1., 1., 8., .125))
    m = pset(d, x, s)
    w = x - p
    vv = int((v ** 2).sum())
    thr = d.choice((.001, .5, 3., 20.))
    P, V = [float(a) for a in p * s], [float(a) for a in v * vs]
    if c == 3:
        dist = np.abs(w @ v) / math.sqrt(vv)
        if (np.abs(dist - thr) < 1e-6 * (1 + thr)).any():
            thr *= 1.0123
        want = list(map(int, np.nonzero(dist < thr)[0]))
        if thr * s * 10 < math.sqrt(vv) * vs:
            eq(d, sorted(L(m.findNodesOnPlane(P, V, thr * s))), want, 'findNodesOnPlane(%s,%s,%s)' % (P, V, thr * s))
    if c == 2:
        dist = np.abs(w[:, 0] * v[1] - w[:, 1] * v[0]) / math.sqrt(vv)
    else:
        dist = np.sqrt((np.cross(w, v) ** 2).sum(1)) / math.sqrt(vv)
    if (np.abs(dist - thr) < 1e-6 * (1 + thr)).any():
        thr *= 1.0123
    want = list(map(int, np.nonzero(dist < thr)[0]))
    d.nontrivial(0 < len(want) < len(x))
    d.sample('n=%d c=%d on=%d' % (len(x), c, len(want)))
    if thr * s * 10 < math.sqrt(vv) * vs and not (np.abs(dist - thr) < 1e-6 * (1 + thr)).any():
        eq(d, sorted(L(m.findNodesOnLine(P, V, thr * s))), want, 'findNodesOnLine(%s,%s,%s)' % (P, V, thr * s))


def boxes(d, c, n=None):
    lo = cloud(d, c, n=n)
    ext = d.nprng().randint(0, d.choice((1, 3, 12, 60)) + 1, lo.shape)
    return lo, lo + ext


def fmt(lo, hi):
    return np.stack([lo, hi], 2).reshape(len(lo), -1)


@check(n=24000, rule='a box interacting with some, and not all, of the others')
def interacting_boxes(d):
    c, s = d.int(1, 3), 2. ** d.int(-8, 2)
    lo, hi = boxes(d, c)
    ql, qh = boxes(d, c, n=d.int(1, 20))
    k = d.choice((-.25, .25, -2.25, 1.25, -1e-3))          # eps>0: boxes are shrunk
    gap = np.maximum(lo[None] - qh[:, None], ql[:, None] - hi[None])         # <0 : overlap by -gap
    M = (gap < -k).all(2)
    d.nontrivial(any(0 < r.sum() < len(lo) for r in M))
    d.sample('n=%d nq=%d c=%d eps=%g' % (len(lo), len(ql), c, k))
    A, B = arr(fmt(lo, hi), s), arr(fmt(ql, qh), s)
    eq(d, L(B.computeNbOfInteractionsWith(A, k * s)), [int(v) for v in M.sum(1)], 'computeNbOfInteractionsWith(eps=%g)' % k)
    e = d.choice((0., .5))
    bb = arr(lo, s).computeBBoxPerTuple(e)
    near(d, L(bb.rearrange(1) or bb), [float(v) for v in np.stack([lo * s - e, lo * s + e], 2).ravel()], 'computeBBoxPerTuple')


_lib = None


def lib():
    global _lib
    if _lib is None:
        try:
            _lib = ctypes.CDLL('libcshim.so')
            _lib.c_tree.restype = _lib.c_discrete.restype = ctypes.c_long
        except OSError:
            _lib = False
    return _lib


def ctree(dim, kind, data, eps, q):
    P = lambda a, t: a.ctypes.data_as(ctypes.POINTER(t))
    cap = (len(data) * 2 + 2) * len(q) + 16
    out, dst = np.zeros(cap, dtype=np.int64), np.zeros(len(q))
    if kind == 'd':
        data, q = np.ascontiguousarray(data, dtype=np.int64), np.ascontiguousarray(q, dtype=np.int64)
        r = lib().c_discrete(dim, P(data, ctypes.c_int64), ctypes.c_long(len(data)), P(q, ctypes.c_int64), ctypes.c_long(len(q)), P(out, ctypes.c_int64), ctypes.c_long(cap))
    else:
        data, q = np.ascontiguousarray(data, dtype=float), np.ascontiguousarray(q, dtype=float)
        r = lib().c_tree(dim, kind, P(data, ctypes.c_double), ctypes.c_long(len(data)), ctypes.c_double(eps), P(q, ctypes.c_double), ctypes.c_long(len(q)),
                         P(out, ctypes.c_int64), ctypes.c_long(cap), P(dst, ctypes.c_double))
    if r < 0:
        return None, None
    res, p = [], 0
    while p < r:
        k = int(out[p])
        res.append([int(v) for v in out[p + 1:p + 1 + k]])
        p += 1 + k
    return res, dst


@check(n=24000, rule='a query with some, and not all, items')
def trees(d):
    """the C++ search trees used directly"""
    d.assume(lib())
    c, s = d.int(1, 3), 2. ** d.int(-6, 2)
    lo, hi = boxes(d, c)
    n = len(lo)
    bb = fmt(lo, hi) * s
    which = d.choice(('box', 'pt', 'pts', 'pts2', 'dst', 'closest', 'closest_own', 'discrete'))
    d.label(which)
    q = cloud(d, c, n=d.int(1, 12))
    nt = lambda w: d.nontrivial(any(0 < len(r) < n for r in w))
    d.sample('%s n=%d c=%d' % (which, n, c))
    if which == 'box':
        ql, qh = boxes(d, c, n=d.int(1, 12))
        k = d.choice((-.25, .25, -2.25, 1.25))
        M = (np.maximum(lo[None] - qh[:, None], ql[:, None] - hi[None]) < -k).all(2)
        want = [list(map(int, np.nonzero(r)[0])) for r in M]
        nt(want)
        got, _ = ctree(c, 0, bb, k * s, fmt(ql, qh) * s)
        eq(d, [sorted(g) for g in got or []], want, 'BBTree::getIntersectingElems')
        got, _ = ctree(c, 1, bb, k * s, fmt(ql, qh) * s)
        eq(d, got, [[len(w)] for w in want], 'BBTree::getNbOfIntersectingElems')
    elif which == 'pt':
        k = d.choice((-.25, .25, -2.25, 1.25))
        M = ((lo[None] - q[:, None] <= k) & (hi[None] - q[:, None] >= -k)).all(2)
        want = [list(map(int, np.nonzero(r)[0])) for r in M]
        nt(want)
        got, _ = ctree(c, 2, bb, k * s, q * s)
        eq(d, [sorted(g) for g in got or []], want, 'BBTree::getElementsAroundPoint')
    elif which == 'pts':
        k = d.choice((0, 1, 5)) + .5
        want = [list(map(int, np.nonzero(r)[0])) for r in (np.abs(q[:, None] - lo[None]).max(2) < k)]
        nt(want)
        got, _ = ctree(c, 3, lo * s, k * s, q * s)
        eq(d, [sorted(g) for g in got or []], want, 'BBTreePts::getElementsAroundPoint')
    elif which == 'pts2':
        D2 = ((q[:, None] - lo[None]) ** 2).sum(2)
        thr = d.choice((.5, 4.5, 100.5, 1e6))
        d.nontrivial(any(0 < (r < thr).sum() < n for r in D2))
        got, dst = ctree(c, 4, lo * s, thr * s * s, q * s)
        for i, r in enumerate(D2):
            if r.min() < thr:
                d.check(len(got[i]) == 1 and r[got[i][0]] == r.min() and close(dst[i], r.min() * s * s), 'BBTreePts::getElementsAroundPoint2: %s got %s (%s) minimum %s' % (q[i], got[i], dst[i], r.min()))
            else:
                d.check(got[i] == [], 'BBTreePts::getElementsAroundPoint2: nothing within the threshold, got %s' % got[i])
    elif which == 'discrete':
        x = lo % d.choice((2, 3, 7, 1000))
        q = np.concatenate([q % 7, x[[d.below(n) for _ in range(4)]]])
        want = [list(map(int, np.nonzero((x == r).all(1))[0])) for r in q]
        nt(want)
        got, _ = ctree(c, 'd', x, 0, q)
        eq(d, [sorted(g) for g in got or []], want, 'BBTreeDiscrete')
    else:
        dmin = (np.maximum(np.maximum(lo[None] - q[:, None], q[:, None] - hi[None]), 0) ** 2).sum(2)
        dmax = (np.maximum(np.abs(lo[None] - q[:, None]), np.abs(q[:, None] - hi[None])) ** 2).sum(2)
        mm = dmax.min(1)
        if which == 'dst':
            want = [list(map(int, np.nonzero(r < m)[0])) for r, m in zip(dmin, mm)]
            nt(want)
            got, dst = ctree(c, 5, bb, 0, q * s)
            near(d, list(dst), [float(v) * s * s for v in mm], 'BBTreeDst::getMinDistanceOfMax', 1e-12, 1 + float(mm.max()) * s * s)
            eq(d, [sorted(g) for g in got or []], want, 'BBTreeDst::getElemsWhoseMinDistanceToPtSmallerThan')
        else:
            lv, _ = ctree(c, 8, bb, 0, q * s)
            eq(d, sorted(v for l in lv or [] for v in l), list(range(n)), 'BBTreeClosest: items of a serialized and deserialized tree')
            got, _ = ctree(c, 6 if which == 'closest' else 7, bb, 0, q * s)
            d.nontrivial(n > 15)
            d.check(got is not None, 'BBTreeClosest: more candidates than twice the number of items')
            for i, g in enumerate(got):
                need = set(map(int, np.nonzero(dmin[i] == dmin[i].min())[0])) if dmin[i].min() < mm[i] else set()
                if len(set(g)) != len(g):
                    d.fail('BBTreeClosest query %d: duplicated candidates %s' % (i, g))
                if any(dmin[i, j] > mm[i] for j in g):
                    d.fail('BBTreeClosest query %d: candidate farther than the closest item can be: %s' % (i, [(j, int(dmin[i, j])) for j in g if dmin[i, j] > mm[i]]))
                ok = set(map(int, np.nonzero(dmin[i] <= mm[i])[0]))
                if set(g) != ok:
                    d.fail('BBTreeClosest query %d: candidates %s, brute force %s' % (i, sorted(g), sorted(ok)))


def seg_d2(p, a, b):
    ab = b - a
    t = np.clip(((p - a) * ab).sum(-1) / np.maximum((ab * ab).sum(-1), 1e-300), 0, 1)
    return (((a + t[..., None] * ab) - p) ** 2).sum(-1)


@check(n=7500, rule='a mesh of more than 15 cells (the tree is split)')
def distance_to_mesh(d):
    """distanceToPoints on many cells = minimum over the cells (segments in 2D/3D, triangles in 3D)"""
    tri = d.bool(.4)
    sd = 3 if tri else 2
    k = 3 if tri else 2
    n = d.size(70, 1)
    x = cloud(d, sd, n=max(k + 1, n))
    g = d.nprng()
    if tri:
        x = np.sign(x) * (np.abs(x) % 64)
    if d.bool(.5):                      # short cells spread over the cloud
        base = x[g.randint(0, len(x), n)]
        pts = np.stack([base + g.randint(-3, 4, base.shape) for _ in range(k)], 1)
    else:
        pts = x[g.randint(0, len(x), (n, k))]
    if tri:
        nrm = np.cross(pts[:, 1] - pts[:, 0], pts[:, 2] - pts[:, 0])
        pts = pts[(nrm != 0).any(1)]
    else:
        pts = pts[(pts[:, 0] != pts[:, 1]).any(1)]
    d.assume(len(pts))
    n = len(pts)
    d.nontrivial(n > 15)
    d.sample('%s n=%d' % ('tri' if tri else 'seg', n))
    m = mc.MEDCouplingUMesh('m', k - 1)
    m.setCoords(arr(pts.reshape(-1, sd)))
    m.allocateCells(n)
    for i in range(n):
        m.insertNextCell(mc.NORM_TRI3 if tri else mc.NORM_SEG2, list(range(k * i, k * i + k)))
    q = cloud(d, sd, n=d.int(1, 8))
    P = pts.astype(float)
    Q = q.astype(float)
    if tri:
        D2 = np.zeros((len(q), n))
        for i, p in enumerate(Q):
            e = np.min([seg_d2(p, P[:, a], P[:, b]) for a, b in ((0, 1), (1, 2), (2, 0))], 0)
            A, B, C = P[:, 0], P[:, 1], P[:, 2]
            N = np.cross(B - A, C - A)
            ins = np.all([(np.cross(v - u, p - u) * N).sum(1) >= 0 for u, v in ((A, B), (B, C), (C, A))], 0)
            h = ((p - A) * N).sum(1) ** 2 / (N * N).sum(1)
            D2[i] = np.where(ins, h, e)
    else:
        D2 = np.array([seg_d2(p, P[:, 0], P[:, 1]) for p in Q])
    dist, ids = m.distanceToPoints(arr(q))
    best, sc = D2.min(1), 1 + float(D2.max())
    near(d, [v * v for v in L(dist)], [float(v) for v in best], 'distanceToPoints (squared)', 1e-11, sc)
    for i, j in enumerate(L(ids)):
        if abs(D2[i, j] - best[i]) > 1e-11 * sc:
            d.fail('distanceToPoints: cell %d at squared distance %s, closest at %s' % (j, D2[i, j], best[i]))
    dd, j = m.distanceToPoint([float(v) for v in q[0]])
    near(d, [dd * dd, D2[0, j]], [float(best[0])] * 2, 'distanceToPoint (squared)', 1e-11, sc)


@check(n=7500, rule='a mesh of more than 15 cells (the tree is split)')
def distance_to_surface(d):
    """distanceToPoints on planar convex polygons of any type in 3D"""
    n = d.size(45, 1)
    g = d.nprng()
    R = d.choice((3, 12, 40))
    xyz, cells, rings = [], [], []
    while len(cells) < n:
        u, v = g.randint(-2, 3, 3), g.randint(-2, 3, 3)
        if not np.cross(u, v).any():
            continue
        k = d.int(3, 6)
        poly = gen.random_convex_polygon(d, k, 4)
        if len(poly) < 3:
            continue
        o = g.randint(-R, R + 1, 3)
        ring = [o + a * u + b * v for a, b in np.array(poly, dtype=float)]
        if d.bool():
            ring.reverse()
        t = {3: mc.NORM_TRI3, 4: mc.NORM_QUAD4}.get(len(ring), mc.NORM_POLYGON)
        if d.bool(.2):
            t = mc.NORM_POLYGON
        cells.append((t, list(range(len(xyz), len(xyz) + len(ring)))))
        xyz += [list(p) for p in ring]
        rings.append(np.array(ring))
    d.nontrivial(n > 15)
    d.sample('n=%d types %s' % (n, sorted({t for t, c in cells})))
    m = mc.MEDCouplingUMesh('m', 2)
    m.setCoords(mc.DataArrayDouble(xyz))
    m.allocateCells(n)
    for t, c in cells:
        m.insertNextCell(t, c)
    Q = (g.randint(-R - 3, R + 4, (d.int(1, 8), 3)) + g.choice([0, .5, .25], (1, 3))).astype(float)
    D2 = np.zeros((len(Q), n))
    for j, P in enumerate(rings):
        nx = np.roll(P, -1, 0)
        N = np.cross(P, nx).sum(0)
        for i, p in enumerate(Q):
            e = seg_d2(p, P, nx).min()
            ins = ((np.cross(nx - P, p - P) * N).sum(1) >= 0).all()
            D2[i, j] = ((p - P[0]) @ N) ** 2 / (N @ N) if ins else e
    dist, ids = m.distanceToPoints(mc.DataArrayDouble(Q.tolist()))
    best, sc = D2.min(1), 1 + float(D2.max())
    near(d, [v * v for v in L(dist)], [float(v) for v in best], 'distanceToPoints (squared)', 1e-11, sc)
    for i, j in enumerate(L(ids)):
        if abs(D2[i, j] - best[i]) > 1e-11 * sc:
            d.fail('distanceToPoints: cell %d at squared distance %s, closest at %s' % (j, D2[i, j], best[i]))


@check(n=7500, rule='more than 15 cells')
def located(d):
    """getCellsContainingPoint(s) on grids of boxes: the boxes whose closed extent contains the point"""
    c = d.int(1, 3)
    dims = [d.int(1, (60, 12, 5)[c - 1]) for _ in range(c)]
    ax = [np.cumsum([d.sint(5) / 4.] + [d.int(1, 6) / 4. for _ in range(k)]) for k in dims]
    cm = mc.MEDCouplingCMesh()
    cm.setCoords(*[mc.DataArrayDouble([float(v) for v in a]) for a in ax])
    um = cm.buildUnstructured()
    perm = d.nprng().permutation(um.getNumberOfCells())
    um = um[I([int(v) for v in perm])]
    d.nontrivial(um.getNumberOfCells() > 15)
    d.sample('dims %s' % dims)
    pts, want = [], []
    for _ in range(d.int(1, 8)):
        p = [d.choice([float(d.choice(list(a))), d.uniform(a[0] - .3, a[-1] + .3)]) for a in ax]
        if any(1e-12 < abs(v - w) < 1e-6 for v, a in zip(p, ax) for w in a):
            continue
        rng = [[i for i in range(len(a) - 1) if a[i] - 1e-9 <= v <= a[i + 1] + 1e-9] for v, a in zip(p, ax)]
        cells = [0]
        mul = 1
        for r, k in zip(rng, dims):
            cells = [u + mul * i for u in cells for i in r]
            mul *= k
        inv = {int(v): i for i, v in enumerate(perm)}
        pts.append(p)
        want.append(sorted(inv[u] for u in cells))
    d.assume(pts)
    o, oi = um.getCellsContainingPoints([v for p in pts for v in p], len(pts), 1e-9)
    eq(d, [sorted(g) for g in groups(o, oi)], want, 'getCellsContainingPoints')
    p, w = pts[0], want[0]
    eq(d, sorted(L(um.getCellsContainingPoint(p, 1e-9))), w, 'getCellsContainingPoint')
