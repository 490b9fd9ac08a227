"""C33 iterative statistics of fields: batch formulas on the whole stream, per tuple and component, with both back ends of the module."""
import os
from common import *
_SP = '/opt/vp/pyenv/lib/python3.12/site-packages'
try:
    import iterative_stats
except ImportError:
    sys.path.append(_SP)
import MEDCouplingIterativeStatistics as S
import gen

ASSUMPTIONS = ['the third party packages iterative_stats and openturns of the sandbox are trusted for the scalar recurrences',
               'variance and covariance are the unbiased estimators (n-1), Sobol indices those of the Saltelli estimator centred on the global mean']
BACKENDS = ['ot', 'iterative_stats'] if S.have_ot else ['iterative_stats']


def mesh(d):
    n = d.int(1, 5)
    m = mc.MEDCouplingCMesh()
    m.setCoords(mc.DataArrayDouble([float(i) for i in range(n + 1)], n + 1, 1))
    return m


def field(m, cls, nodes, vals, nc):
    f = cls(mc.ON_NODES if nodes else mc.ON_CELLS, mc.ONE_TIME)
    f.setMesh(m)
    n = m.getNumberOfNodes() if nodes else m.getNumberOfCells()
    if cls is mc.MEDCouplingFieldDouble:
        a = mc.DataArrayDouble([float(x) for r in vals for x in r], n, nc)
    else:
        a = mc.DataArrayInt32([int(x) for r in vals for x in r], n, nc)
    f.setArray(a)
    f.setName('f')
    return f


def draw(d, n, nc, kind, off):
    if kind == 'int':
        return [[d.sint(1000) for _ in range(nc)] for _ in range(n)]
    if kind == 'const':
        return [[off] * nc for _ in range(n)]
    return [[off + d.sint(4000) / 16 for _ in range(nc)] for _ in range(n)]


def backend(d):
    b = d.choice(BACKENDS)
    S.have_ot = b == 'ot'
    d.label(b)
    return b


def cmp(d, got, want, what, scale):
    eq(d, got.shape, want.shape, what + ' shape')
    near(d, [float(x) for x in got.ravel()], [float(x) for x in want.ravel()], what, 1e-9, scale)


@check(n=2000, rule='three increments at least, two tuples or components')
def moments(d):
    """mean, variance, standard deviation, covariance after every increment; several interleaved accumulators; wrong shapes refused"""
    b = backend(d)
    kind = d.weighted([(6, 'real'), (1, 'int'), (1, 'const')])
    nodes, nc = d.bool(), d.int(1, 4)
    m = mesh(d)
    cls = mc.MEDCouplingFieldInt32 if kind == 'int' else mc.MEDCouplingFieldDouble
    n = m.getNumberOfNodes() if nodes else m.getNumberOfCells()
    off = d.choice([0., 0., 100., -1e4])
    stream = [draw(d, n, nc, kind, off) for _ in range(d.int(1, 8))]
    d.nontrivial(len(stream) > 2 and n * nc > 1)
    d.label(kind)
    en = [d.bool(.85) for _ in range(3)]
    d.sample('%s %s x%d tuples %d components, stream of %d, enabled %r' % (b, kind, n, nc, len(stream), en))
    acc = S.IterativeFieldMoments(*en)
    other = S.IterativeFieldMoments()          # fed with a permutation of the stream at the end
    names = ('mean', 'variance', 'covariance')
    for k, nm in enumerate(names):
        d.check(raises(lambda: getattr(acc, nm)(), ValueError), '%s before any data is refused' % nm)
    at = d.below(len(stream))
    for k, vals in enumerate(stream):
        f = field(m, cls, nodes, vals, nc)
        acc.increment(f)
        eq(d, T(f.getArray()), [tuple(r) for r in vals], 'the field is left as it was')
        if k == at and d.bool(.5):              # a refused increment does not change the state
            g = field(m, cls, nodes, [r + [1] for r in vals], nc + 1)
            d.check(raises(lambda: acc.increment(g), ValueError), 'field with another number of components accepted')
            g = field(m, cls, not nodes, draw(d, m.getNumberOfCells() if nodes else m.getNumberOfNodes(), nc, kind, off), nc)
            d.check(raises(lambda: acc.increment(g), ValueError), 'field with another number of tuples accepted')
        if k in (0, at, len(stream) - 1):
            verify(d, acc, stream[:k + 1], en, off)
    for i in d.perm(len(stream)):
        other.increment(field(m, cls, nodes, stream[i], nc))
    verify(d, other, stream, [True] * 3, off)
    verify(d, acc, stream, en, off)


def verify(d, acc, stream, en, off):
    X = np.array(stream, dtype=float)               # (k, n, nc)
    k = len(stream)
    scale = max(1., abs(off) * 10)
    if en[0]:
        cmp(d, acc.mean(), X.mean(axis=0), 'mean', scale)
    else:
        d.check(raises(acc.mean, ValueError), 'disabled mean')
    if k > 1:
        if en[1]:
            v = X.var(axis=0, ddof=1)
            cmp(d, acc.variance(), v, 'variance', scale)
            w = acc.stddev()
            cmp(d, w ** 2, v, 'standard deviation', scale)
        else:
            d.check(raises(acc.variance, ValueError), 'disabled variance')
            d.check(raises(acc.stddev, ValueError), 'disabled standard deviation')
        if en[2]:
            Y = X - X.mean(axis=0)
            cmp(d, acc.covariance(), np.einsum('kni,knj->nij', Y, Y) / (k - 1), 'covariance', scale * 10)
        else:
            d.check(raises(acc.covariance, ValueError), 'disabled covariance')


@check(n=1500, rule='three increments at least, two tuples or components')
def sobol(d):
    """first and total order indices after any number of increments"""
    p, nodes, nc = d.int(2, 4), d.bool(), d.choice([1, 1, 2, 3])
    m = mesh(d)
    n = m.getNumberOfNodes() if nodes else m.getNumberOfCells()
    stream = [[draw(d, n, nc, 'real', 0.) for _ in range(p + 2)] for _ in range(d.int(2, 8))]
    d.nontrivial(len(stream) > 2 and n * nc > 1)
    d.label('%d components' % nc)
    d.sample('%d parameters, %d tuples %d components, stream of %d' % (p, n, nc, len(stream)))
    acc = S.IterativeFieldSobol(p)
    d.check(raises(lambda: acc.indices(0), ValueError), 'indices before any data')
    at = d.int(1, len(stream) - 1)
    for k, fs in enumerate(stream):
        acc.increment([field(m, mc.MEDCouplingFieldDouble, nodes, v, nc) for v in fs])
        d.check(raises(lambda: acc.increment([field(m, mc.MEDCouplingFieldDouble, nodes, v, nc) for v in fs[1:]]), ValueError), 'wrong number of fields accepted')
        if k not in (at, len(stream) - 1):
            continue
        X = np.array(stream[:k + 1], dtype=float)     # (k, p+2, n, nc)
        s = X.mean(axis=(0, 1))
        X = X - s
        A, B, E = X[:, 0], X[:, 1], X[:, 2:]
        var = A.var(axis=0, ddof=1)
        d.assume((var > 1e-3 * (X ** 2).max()).all())
        for t in range(n):
            first, total = acc.indices(t)
            w1, w2 = np.zeros((nc, p)), np.zeros((nc, p))
            for c in range(nc):
                mA, mB = A[:, t, c].mean(), B[:, t, c].mean()
                for j in range(p):
                    w1[c, j] = ((B[:, t, c] * E[:, j, t, c]).sum() / k - mA * mB) / var[t, c]
                    w2[c, j] = (var[t, c] - (A[:, t, c] * E[:, j, t, c]).sum() / k + mA * mA) / var[t, c]
            cmp(d, np.asarray(first), w1, 'first order indices of tuple %d' % t, 10.)
            cmp(d, np.asarray(total), w2, 'total order indices of tuple %d' % t, 10.)


@check(n=200, rule='always')
def arguments(d):
    """fewer than two parameters are refused"""
    p = d.choice([-1, 0, 1])
    d.nontrivial()
    d.check(raises(lambda: S.IterativeFieldSobol(p), ValueError), '%d parameters accepted' % p)
