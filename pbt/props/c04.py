"""C04: array arithmetic, reductions, tensors and coordinate systems against numpy / defining equations."""
from common import *

N = lambda a: a.toNumPyArray().reshape(a.getNumberOfTuples(), a.getNumberOfComponents()).copy()
ICLS = {np.dtype(np.int32): mc.DataArrayInt32, np.dtype(np.int64): mc.DataArrayInt64, np.dtype(float): mc.DataArrayDouble}


def mkd(x, keep=None):
    x = np.array(np.atleast_2d(x), order='C')
    if x.shape[0] == 0:
        a = ICLS[x.dtype].New()
        a.alloc(0, x.shape[1])
        return a
    a = ICLS[x.dtype](x)
    return a.deepCopy()


def vals(d, n, c, nz=False, ext=False):
    m = np.zeros((n, c))
    for i in range(n):
        for j in range(c):
            v = d.sint(24) / 4.
            if nz and v == 0:
                v = 1.5
            m[i, j] = v
    if ext and n and d.bool(.1):
        m[d.below(n), d.below(c)] = d.choice([1e300, -1e300, 1e-300, 1e16, -0.0])
    return m


def cmp(d, a, y, what, eps=0.):
    x = N(a) if hasattr(a, 'getNumberOfTuples') else np.atleast_2d(a)
    y = np.atleast_2d(y)
    if x.shape != y.shape:
        d.fail('%s: shape %s expected %s' % (what, x.shape, y.shape))
    ok = (x == y) | (np.isnan(x) & np.isnan(y)) if eps == 0 else np.isclose(x, y, rtol=eps, atol=eps, equal_nan=True)
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        d.fail('%s: at %s got %r expected %r (got %s expected %s)' % (what, i, x[i].item(), y[i].item(), short(x.tolist(), 200), short(y.tolist(), 200)))


OPD = {'Add': np.add, 'Substract': np.subtract, 'Multiply': np.multiply, 'Divide': np.divide}
PYO = {'Add': lambda a, b: a + b, 'Substract': lambda a, b: a - b, 'Multiply': lambda a, b: a * b, 'Divide': lambda a, b: a / b}
INP = {'Add': 'addEqual', 'Substract': 'substractEqual', 'Multiply': 'multiplyEqual', 'Divide': 'divideEqual'}


@check(n=60000, rule='at least 2 tuples and 2 components')
def arithmetic(d):
    n, c = d.size(9), d.int(1, 4)
    x = vals(d, n, c, ext=True)
    shp = d.choice([(n, c), (n, 1), (1, c)] if n else [(n, c), (n, 1)])
    op = d.choice(list(OPD))
    y = vals(d, shp[0], shp[1], nz=(op == 'Divide'), ext=op != 'Divide')
    d.nontrivial(n > 1 and c > 1)
    d.label(op, 'operand %s' % ('same' if shp == (n, c) else 'one component' if shp[1] == 1 else 'one tuple'))
    d.sample('%s %s by %s' % (op, x.tolist(), y.tolist()))
    A, B = mkd(x), mkd(y)
    A.setInfoOnComponents(['c%d' % i for i in range(c)])
    with np.errstate(all='ignore'):
        w = OPD[op](x, y)
        cmp(d, getattr(mc.DataArrayDouble, op)(A, B), w, op)
        cmp(d, PYO[op](A, B), w, 'operator ' + op)
        cmp(d, A, x, 'left operand of %s' % op)
        cmp(d, B, y, 'right operand of %s' % op)
        if op in ('Add', 'Multiply') and shp != (n, c):
            cmp(d, getattr(mc.DataArrayDouble, op)(B, A), w, op + ' (swapped)')
        C = A.deepCopy()
        getattr(C, INP[op])(B)
        cmp(d, C, w, INP[op])
        eq(d, list(C.getInfoOnComponents()), ['c%d' % i for i in range(c)], INP[op] + ' keeps component infos')
        s = d.sint(20) / 4. or 2.5
        cmp(d, PYO[op](A, s), OPD[op](x, s), 'scalar ' + op, 1e-15)
        if op != 'Divide':
            cmp(d, PYO[op](s, A), OPD[op](s, x), 'scalar first ' + op, 1e-15)
        elif n and (x != 0).all():
            cmp(d, s / A, s / x, 'scalar / array', 1e-15)
        # one tuple given as a list
        t = [d.sint(9) / 4. or 1. for _ in range(c)]
        if n:
            cmp(d, PYO[op](A, t), OPD[op](x, np.array([t])), 'tuple ' + op, 1e-15)
        if op == 'Divide' and n:
            z = y.copy()
            z[d.below(shp[0]), d.below(shp[1])] = 0.
        z = np.abs(x) + .25
        e = d.choice([0., .5, 1., 2., 3., -1.])
        P = mkd(z)
        cmp(d, P ** e, z ** e, 'array ** scalar', 1e-14)
        if n:
            ey = np.array([[d.sint(3) for _ in range(c)] for _ in range(n)], dtype=float)
            z1, e1 = z[:, :1], ey[:, :1]
            cmp(d, mc.DataArrayDouble.Pow(mkd(z1), mkd(e1)), z1 ** e1, 'Pow', 1e-13)
            Q = mkd(z1)
            Q.powEqual(mkd(e1))
            cmp(d, Q, z1 ** e1, 'powEqual', 1e-13)
            yy = vals(d, n, c)
            cmp(d, mc.DataArrayDouble.Max(A, mkd(yy)), np.maximum(x, yy), 'Max')
            cmp(d, mc.DataArrayDouble.Min(A, mkd(yy)), np.minimum(x, yy), 'Min')
    if n > 1 and c > 1:
        bad = vals(d, n + 1, c)
        if not raises(lambda: getattr(mc.DataArrayDouble, op)(A, mkd(bad + 10.))):
            d.fail('%s of %d and %d tuples accepted' % (op, n, n + 1))


@check(n=60000, rule='at least 2 tuples and 2 components')
def unary(d):
    n, c = d.size(9), d.int(1, 4)
    x = vals(d, n, c)
    d.nontrivial(n > 1 and c > 1)
    A = mkd(x)
    cmp(d, -A, -x, 'negation')
    cmp(d, A.negate(), -x, 'negate')
    cmp(d, A.computeAbs(), np.abs(x), 'computeAbs')
    B = A.deepCopy()
    B.abs()
    cmp(d, B, np.abs(x), 'abs')
    a, b = d.sint(12) / 4., d.sint(12) / 4.
    B = A.deepCopy()
    B.applyLin(a, b)
    cmp(d, B, a * x + b, 'applyLin', 1e-15)
    k = d.below(c)
    B = A.deepCopy()
    B.applyLin(a, b, k)
    y = x.copy()
    y[:, k] = a * x[:, k] + b
    cmp(d, B, y, 'applyLin on component %d' % k, 1e-15)
    z = np.abs(x) + .5
    B = mkd(z)
    B.applyInv(a)
    cmp(d, B, a / z, 'applyInv', 1e-15)
    B = mkd(z)
    e = d.choice([0, 1, 2, -1, .5])
    B.applyPow(e)
    cmp(d, B, z ** e, 'applyPow', 1e-14)
    B = mkd(x)
    B.applyRPow(2.5)
    cmp(d, B, 2.5 ** x, 'applyRPow', 1e-14)
    if n and (x == 0).any():
        if not raises(lambda: mkd(x).applyInv(1.)):
            d.fail('applyInv accepted a zero: %s' % x.tolist())
        if not raises(mkd(x).checkNoNullValues):
            d.fail('checkNoNullValues accepted a zero: %s' % x.tolist())
    elif n:
        mkd(x).checkNoNullValues()
    cmp(d, A, x, 'source after out-of-place operations')
    # per tuple
    if n:
        cmp(d, A.magnitude(), np.sqrt((x ** 2).sum(1))[:, None], 'magnitude', 1e-14)
        cmp(d, A.sumPerTuple(), x.sum(1)[:, None], 'sumPerTuple', 1e-14)
        cmp(d, A.maxPerTuple(), x.max(1)[:, None], 'maxPerTuple')
        cmp(d, A.minPerTuple(), x.min(1)[:, None], 'minPerTuple')
        m, ids = A.maxPerTupleWithCompoId()
        cmp(d, m, x.max(1)[:, None], 'maxPerTupleWithCompoId value')
        eq(d, L(ids), [int(v) for v in x.argmax(1)], 'maxPerTupleWithCompoId id')
    if n:
        eq(d, [tuple(t) for t in A.getMinMaxPerComponent()], [(x[:, j].min(), x[:, j].max()) for j in range(c)], 'getMinMaxPerComponent')
        eq(d, list(A.normMaxPerComponent()), [np.abs(x[:, j]).max() for j in range(c)], 'normMaxPerComponent')
        eq(d, A.normMax(), np.abs(x).max(), 'normMax')
        eq(d, A.normMin(), np.abs(x).min(), 'normMin')
        near(d, [A.norm2()], [math.sqrt((x ** 2).sum())], 'norm2', 1e-13)
        near(d, list(A.accumulate()), list(x.sum(0)), 'accumulate', 1e-13)
        near(d, [A.accumulate(k)], [x[:, k].sum()], 'accumulate(%d)' % k, 1e-13)
        eq(d, (A.getMaxValueInArray(), A.getMinValueInArray()), (x.max(), x.min()), 'max/min in array')
        # packs of tuples
        cut = sorted([d.choice([0, d.below(n)]), *(d.int(0, n) for _ in range(d.int(0, 3))), d.choice([n, d.int(0, n)])]); cut[0] = min(cut[0], n - 1)
        cmp(d, A.accumulatePerChunck(cut), np.array([x[p:q].sum(0) for p, q in zip(cut, cut[1:])]), 'accumulatePerChunck %s' % cut, 1e-13)
    v = x[:, 0]
    V = mkd(x[:, :1])
    if n:
        eq(d, tuple(V.getMaxValue()), (v.max(), int(v.argmax())), 'getMaxValue')
        eq(d, tuple(V.getMinValue()), (v.min(), int(v.argmin())), 'getMinValue')
        m, i = V.getMaxValue2()
        eq(d, (m, L(i)), (v.max(), [int(t) for t in np.flatnonzero(v == v.max())]), 'getMaxValue2')
        m, i = V.getMinValue2()
        eq(d, (m, L(i)), (v.min(), [int(t) for t in np.flatnonzero(v == v.min())]), 'getMinValue2')
        near(d, [V.getAverageValue()], [v.mean()], 'getAverageValue', 1e-13)
        t = V.getMaxAbsValue()
        eq(d, (abs(t[0]), t[1] if v.size and np.sum(np.abs(v) == np.abs(v).max()) == 1 else None),
           (np.abs(v).max(), int(np.abs(v).argmax()) if np.sum(np.abs(v) == np.abs(v).max()) == 1 else None), 'getMaxAbsValue')
        eq(d, abs(V.getMaxAbsValueInArray()), np.abs(v).max(), 'getMaxAbsValueInArray')
        cmp(d, V.cumSum(), np.concatenate([[0.], np.cumsum(v)])[:, None], 'cumSum', 1e-13)
    lo = d.sint(24) / 4.
    hi = lo + d.int(0, 20) / 4.
    eq(d, L(V.findIdsInRange(lo, hi)), [i for i in range(n) if lo <= v[i] <= hi], 'findIdsInRange(%s,%s) of %s' % (lo, hi, v.tolist()))
    eq(d, L(V.findIdsNotInRange(lo, hi)), [i for i in range(n) if not lo <= v[i] <= hi], 'findIdsNotInRange(%s,%s)' % (lo, hi))
    for f, g in (('findIdsGreaterOrEqualTo', v >= lo), ('findIdsGreaterThan', v > lo), ('findIdsLowerOrEqualTo', v <= lo), ('findIdsLowerThan', v < lo)):
        if hasattr(V, f):
            eq(d, L(getattr(V, f)(lo)), [int(i) for i in np.flatnonzero(g)], f)
    if n:
        inc = d.bool()
        s = np.sort(v) if d.bool() else v
        s = s if inc else s[::-1]
        S = mkd(s[:, None])
        e = 1e-9
        dif = np.diff(s) if inc else -np.diff(s)
        eq(d, S.isMonotonic(inc, e), bool((dif >= e).all()), 'isMonotonic(%s) of %s' % (inc, s.tolist()))
        eq(d, V.isUniform(float(v[0]), 1e-12), bool((v == v[0]).all()), 'isUniform')


@check(n=40000, rule='at least 2 tuples')
def integers(d):
    """integer array arithmetic, both widths"""
    w = d.choice([np.int64, np.int32])
    C = ICLS[np.dtype(w)]
    n, c = d.size(8), d.int(1, 3)
    x = np.array([[d.sint(20) for _ in range(c)] for _ in range(n)], dtype=w).reshape(n, c)
    shp = d.choice([(n, c), (n, 1), (1, c)] if n else [(n, c), (n, 1)])
    y = np.array([[d.sint(20) for _ in range(shp[1])] for _ in range(shp[0])], dtype=w).reshape(shp)
    d.nontrivial(n > 1)
    A, B = mkd(x), mkd(y)
    for op, f in (('Add', np.add), ('Substract', np.subtract), ('Multiply', np.multiply)):
        cmp(d, getattr(C, op)(A, B), f(x, y), op)
        D = A.deepCopy()
        getattr(D, INP[op])(B)
        cmp(d, D, f(x, y), INP[op])
    p, q = np.abs(x), np.abs(y) + 1
    cmp(d, C.Divide(mkd(p), mkd(q)), p // q, 'Divide')
    D = mkd(p)
    D.divideEqual(mkd(q))
    cmp(d, D, p // q, 'divideEqual')
    cmp(d, C.Modulus(mkd(p), mkd(q)), p % q, 'Modulus')
    D = mkd(p)
    D.modulusEqual(mkd(q))
    cmp(d, D, p % q, 'modulusEqual')
    if shp == (n, c) and c == 1:
        b, e = np.abs(x) % 5, np.abs(y) % 5
        cmp(d, C.Pow(mkd(b), mkd(e)), b ** e, 'Pow')
    if n:
        eq(d, list(A.accumulate()), [int(v) for v in x.sum(0)], 'accumulate')
        cut = sorted([d.choice([0, d.below(n)]), *(d.int(0, n) for _ in range(d.int(0, 3))), d.choice([n, d.int(0, n)])]); cut[0] = min(cut[0], n - 1)
        cmp(d, A.accumulatePerChunck(cut), np.array([x[a:b].sum(0) for a, b in zip(cut, cut[1:])], dtype=w), 'accumulatePerChunck %s' % cut)
        cmp(d, A.sumPerTuple(), x.sum(1, dtype=w)[:, None], 'sumPerTuple')
    cmp(d, A.computeAbs(), np.abs(x), 'computeAbs')
    cmp(d, A.negate(), -x, 'negate')
    k = d.below(c)
    D = A.deepCopy()
    D.applyLin(3, -2, k)
    z = x.copy()
    z[:, k] = 3 * x[:, k] - 2
    cmp(d, D, z, 'applyLin component')
    s = d.int(1, 9)
    for nm, r in (('+', A + s), ('-', A - s), ('*', A * s)):
        cmp(d, r, eval('x %s s' % nm), 'scalar ' + nm)
    cmp(d, s - A, s - x, 'scalar - array')


def sym(t):
    return np.array([[t[0], t[3], t[5]], [t[3], t[1], t[4]], [t[5], t[4], t[2]]])


@check(n=30000, rule='at least 2 tuples')
def tensors(d):
    n = d.int(1, 5)
    x, y = vals(d, n, 3), vals(d, n, 3)
    c = d.int(1, 5)
    u, v = vals(d, n, c), vals(d, n, c)
    d.nontrivial(n > 1)
    cmp(d, mc.DataArrayDouble.CrossProduct(mkd(x), mkd(y)), np.cross(x, y), 'CrossProduct', 1e-13)
    cmp(d, mc.DataArrayDouble.Dot(mkd(u), mkd(v)), (u * v).sum(1)[:, None], 'Dot', 1e-13)
    for nc in (4, 6, 9):
        t = vals(d, n, nc)
        M = [r.reshape(2, 2) if nc == 4 else r.reshape(3, 3) if nc == 9 else sym(r) for r in t]
        det = np.array([np.linalg.det(m) for m in M])
        cmp(d, mkd(t).determinant(), det[:, None], 'determinant of %d components' % nc, 1e-10)
        cmp(d, mkd(t).trace(), np.array([[np.trace(m)] for m in M]), 'trace of %d components' % nc, 1e-13)
        t2 = t[np.abs(det) > .2]
        if len(t2):
            inv = N(mkd(t2).inverse())
            for r, i in zip(t2, inv):
                sq = (lambda q: q.reshape(2, 2)) if nc == 4 else (lambda q: q.reshape(3, 3)) if nc == 9 else sym
                if not np.allclose(sq(r) @ sq(i), np.eye(len(sq(r))), atol=1e-7):
                    d.fail('inverse of %s (%d components): %s' % (r.tolist(), nc, i.tolist()))
    t = vals(d, n, 6)
    M = [sym(r) for r in t]
    cmp(d, mkd(t).doublyContractedProduct(), np.array([[(m * m).sum()] for m in M]), 'doublyContractedProduct', 1e-13)
    dv = N(mkd(t).deviator())
    for m, r in zip(M, dv):
        if not np.allclose(sym(r), m - np.trace(m) / 3 * np.eye(3), atol=1e-12):
            d.fail('deviator of %s: %s' % (m.tolist(), r.tolist()))
    ev = N(mkd(t).eigenValues())
    for m, e in zip(M, ev):
        if not np.allclose(sorted(e), np.linalg.eigvalsh(m), atol=2e-6 * max(1, np.abs(m).max())):
            d.fail('eigenValues of %s: %s expected %s' % (m.tolist(), e.tolist(), np.linalg.eigvalsh(m).tolist()))
    sep = [i for i, m in enumerate(M) if np.diff(np.linalg.eigvalsh(m)).min() > .5]
    if sep:
        d.label('separated eigenvalues')
        t2 = t[sep]
        ev, vec = N(mkd(t2).eigenValues()), N(mkd(t2).eigenVectors())
        for r, e, w in zip(t2, ev, vec):
            w = w.reshape(3, 3)
            for k in range(3):
                z = w[k]
                if not np.linalg.norm(z) > 1e-3 or np.linalg.norm(sym(r) @ z - e[k] * z) > 1e-4 * np.linalg.norm(z) * max(1, np.abs(r).max()):
                    d.fail('eigenVectors of %s: vector %d is %s for value %r' % (r.tolist(), k, z.tolist(), e[k]))
    # symmetry about a plane
    p, nv = vals(d, 1, 3)[0], vals(d, 1, 3)[0]
    if np.abs(nv).max() > 0:
        nn = nv / np.linalg.norm(nv)
        r = x - 2 * ((x - p) @ nn)[:, None] * nn
        cmp(d, mkd(x).symmetry3DPlane(list(p), list(nv)), r, 'symmetry3DPlane', 1e-11)
        b = mc.DataArrayDouble.GiveBaseForPlane(list(nv))
        B = np.array([list(q) for q in b]) if len(b) == 3 else np.array(b).reshape(3, 3)
        if not np.allclose(B @ B.T, np.eye(3), atol=1e-12) or np.linalg.norm(np.cross(B[2], nn)) > 1e-12:
            d.fail('GiveBaseForPlane(%s): %s' % (nv.tolist(), B.tolist()))


@check(n=30000, rule='at least 2 points away from the axes')
def coordinates(d):
    """cartesian / polar / cylindrical / spherical conversions"""
    n = d.int(1, 6)
    x = vals(d, n, 3)
    d.nontrivial(n > 1 and (np.abs(x).min(1) > 0).sum() > 1)
    p = N(mkd(x[:, :2]).fromCartToPolar())
    cmp(d, p[:, :1], np.hypot(x[:, 0], x[:, 1])[:, None], 'radius of fromCartToPolar', 1e-13)
    cmp(d, mkd(p).fromPolarToCart(), x[:, :2], 'fromPolarToCart(fromCartToPolar)', 1e-12)
    c = N(mkd(x).fromCartToCyl())
    cmp(d, c[:, [0, 2]], np.stack([np.hypot(x[:, 0], x[:, 1]), x[:, 2]], 1), 'fromCartToCyl', 1e-13)
    cmp(d, mkd(c).fromCylToCart(), x, 'fromCylToCart(fromCartToCyl)', 1e-12)
    nz = x[np.abs(x).sum(1) > 0]
    if len(nz):
        s = N(mkd(nz).fromCartToSpher())
        cmp(d, s[:, :1], np.linalg.norm(nz, axis=1)[:, None], 'radius of fromCartToSpher', 1e-13)
        if ((s[:, 1] < -1e-12) | (s[:, 1] > math.pi + 1e-12)).any():
            d.fail('fromCartToSpher: polar angle %s' % s.tolist())
        cmp(d, mkd(s).fromSpherToCart(), nz, 'fromSpherToCart(fromCartToSpher)', 1e-12)
        cmp(d, mkd(s).cartesianize(mc.AX_SPHER), nz, 'cartesianize spherical', 1e-12)
    cmp(d, mkd(c).cartesianize(mc.AX_CYL), x, 'cartesianize cylindrical', 1e-12)
    cmp(d, mkd(p).cartesianize(mc.AX_CYL), x[:, :2], 'cartesianize polar', 1e-12)
    cmp(d, mkd(x).cartesianize(mc.AX_CART), x, 'cartesianize cartesian')
    # vector field expressed in a local cylindrical frame: rotation, so norms are kept and it decomposes the vector
    f = vals(d, n, 3)
    ctr, ax = vals(d, 1, 3)[0], vals(d, 1, 3)[0]
    if np.abs(ax).max() > 0:
        uz = ax / np.linalg.norm(ax)
        r = x - ctr
        ut = np.cross(uz, r)
        ok = np.linalg.norm(ut, axis=1) > 1e-6
        if ok.any():
            ut = ut[ok] / np.linalg.norm(ut[ok], axis=1)[:, None]
            ur = np.cross(ut, uz)
            w = np.stack([(ur * f[ok]).sum(1), (ut * f[ok]).sum(1), f[ok] @ uz], 1)
            cmp(d, mkd(f[ok]).fromCartToCylGiven(mkd(x[ok]), list(ctr), list(ax)), w, 'fromCartToCylGiven', 1e-11)
