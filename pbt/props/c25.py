"""C25 field transfer: stateful model of the remapper (matrix + nature formulas), conservation laws, default values, call sequences."""
from common import *
from ref import *
import gen
from interp import *

ASSUMPTIONS = ['ExtensiveConservation needs non-null column sums, IntensiveMaximum non-null row sums; matrices edited by the user are positive']
NAT = [mc.IntensiveMaximum, mc.ExtensiveMaximum, mc.ExtensiveConservation, mc.IntensiveConservation]
NN = {mc.IntensiveMaximum: 'IntensiveMaximum', mc.ExtensiveMaximum: 'ExtensiveMaximum', mc.ExtensiveConservation: 'ExtensiveConservation', mc.IntensiveConservation: 'IntensiveConservation'}


def meshes(d, dims=(1, 2, 2, 2, 3)):
    k = d.choice(dims)
    if k == 1:
        s, t = gen.seg_mesh(d, 1, 6), gen.seg_mesh(d, 1, 6)
        if d.bool(.7):
            t = PM(1, 1, place(d, t, bbox(s.xyz)), t.cells)
    elif k == 2:
        s, t = gen.mesh2d(d, d.int(1, 3), ('quad', 'tri', 'poly', 'center')), gen.mesh2d(d, d.int(1, 3), ('quad', 'tri', 'poly', 'center'))
        t = PM(2, 2, place(d, t, bbox(s.xyz)), t.cells)
    else:
        s, t = gen.mesh3d(d, 1, kinds2=('quad', 'tri'), zmax=2), gen.mesh3d(d, 2, kinds2=('quad', 'tri'), zmax=1)
        t = PM(3, 3, place(d, t, bbox(s.xyz)), t.cells)
    if d.bool(.3):
        s, t = gen.shuffle(d, s, unused=False), gen.shuffle(d, t, unused=False)
    return s, t


def field(d, m, on, nat, nc, name='f', vals=None):
    f = mc.MEDCouplingFieldDouble(on, mc.ONE_TIME)
    f.setMesh(m)
    n = m.getNumberOfCells() if on == mc.ON_CELLS else m.getNumberOfNodes()
    if vals is None:
        vals = [tuple(d.sint(64) / 8 for _ in range(nc)) for _ in range(n)]
    a = Dbl(vals, nc)
    a.setInfoOnComponents(['c%d [u]' % i for i in range(nc)])
    f.setArray(a)
    f.setNature(nat)
    f.setName(name)
    f.setDescription('desc')
    f.setTime(d.sint(9) / 2, d.int(0, 3), d.int(0, 3))
    return f, vals


def formula(M, nat, ms, mt, ncol):
    """rows of coefficients of the direct transfer and of the reverse one"""
    R, C = [sum(r.values()) for r in M], [0.] * ncol
    for r in M:
        for j, v in r.items():
            C[j] += v
    fwd, rev = [{} for _ in M], [{} for _ in range(ncol)]
    for i, r in enumerate(M):
        for j, v in r.items():
            a, b = {mc.IntensiveMaximum: (R[i], C[j]), mc.ExtensiveConservation: (C[j], R[i]),
                    mc.ExtensiveMaximum: (ms[j], mt[i]), mc.IntensiveConservation: (mt[i], ms[j])}[nat]
            fwd[i][j], rev[j][i] = v / a, v / b
    return fwd, rev


def apply_rows(rows, vals, dft, old, nc):
    out = []
    for i, r in enumerate(rows):
        if not r:
            out.append(tuple(old[i]) if old is not None else (dft,) * nc)
        else:
            out.append(tuple(sum(c * vals[j][k] for j, c in r.items()) for k in range(nc)))
    return out


def measure(m, on):
    f = mc.MEDCouplingFieldDouble(on, mc.NO_TIME)
    f.setMesh(m)
    return L(f.buildMeasureField(True).getArray())


def flat(v):
    return [x for t in v for x in t]


def check_attr(d, r, f, what):
    eq(d, (r.getName(), r.getDescription(), r.getTime(), r.getNature(), r.getArray().getInfoOnComponents()), (f.getName(), f.getDescription(), f.getTime(), f.getNature(), f.getArray().getInfoOnComponents()), what + ': name, description, time, nature, components')


METHODS = ['P0P0', 'P0P0', 'P0P0', 'P0P1', 'P1P0', 'P1P1']
ON = {'P0': mc.ON_CELLS, 'P1': mc.ON_NODES}


@check(n=30000, rule='at least two transfers on a matrix with at least two non-null entries')
def history(d):
    """sequence of prepare / export / edit / transfer / reverse calls on one remapper"""
    r = mc.MEDCouplingRemapper()
    s, t = meshes(d)
    ms, mt = to_mc(s, 'src'), to_mc(t, 'trg')
    meth = 'P0P0'
    tri = lambda m: all(c[0] in (TRI3, TETRA4, SEG2) for c in m.cells)
    if s.md == 2 and tri(s) and tri(t):
        meth = d.choice(METHODS)
    d.label(meth)
    d.label('dim%d' % s.md)
    custom = d.bool(.35)
    ns = s.nc if meth[:2] == 'P0' else s.nn
    nt = t.nc if meth[2:] == 'P0' else t.nn

    def random_matrix():
        return [{j: d.int(1, 16) / 8 for j in range(ns) if d.bool(.4)} for _ in range(nt)]

    def csr(M):
        ci, cj, v = [0], [], []
        for row in M:
            for j in sorted(row):
                cj.append(j)
                v.append(row[j])
            ci.append(len(cj))
        from scipy.sparse import csr_matrix
        return csr_matrix((v, cj, ci), shape=(nt, ns))
    if custom:
        M = random_matrix()
        r.setCrudeMatrix(ms, mt, meth, M)
    else:
        if d.bool():
            r.prepare(ms, mt, meth)
        else:
            a, b = mc.MEDCouplingFieldTemplate(ON[meth[:2]]), mc.MEDCouplingFieldTemplate(ON[meth[2:]])
            a.setMesh(ms)
            b.setMesh(mt)
            r.prepareEx(a, b)
        M = [dict(x) for x in r.getCrudeMatrix()]
    vs, vt = measure(ms, ON[meth[:2]]), measure(mt, ON[meth[2:]])
    d.sample('%s %s' % (meth, repr(M)[:500]))
    ntr = 0
    for _ in range(d.int(1, 7)):
        if any(x <= 1e-7 for row in M for x in row.values()):        # touching cells: coefficients of the order of the precision
            n = r.nullifiedTinyCoeffInCrudeMatrixAbs(1e-7)
            M2 = [{j: v for j, v in row.items() if v > 1e-7} for row in M]
            eq(d, n, sum(map(len, M)) - sum(map(len, M2)), 'nullifiedTinyCoeffInCrudeMatrixAbs')
            M = M2
        nat = d.choice(NAT) if meth == 'P0P0' else mc.IntensiveMaximum
        nc = d.int(1, 3)
        fwd, rev = formula(M, nat, vs, vt, ns)
        k = d.below(9)
        dft = d.choice([0., -7.5, 1e300])
        w = '%s %s' % (NN[nat], meth)
        if k < 2:
            f, v = field(d, ms, ON[meth[:2]], nat, nc)
            g = r.transferField(f, dft)
            near(d, L(g.getArray()), flat(apply_rows(fwd, v, dft, None, nc)), 'transferField ' + w, 1e-9, 8.)
            check_attr(d, g, f, 'transferField')
            if g.getMesh().getHiddenCppPointer() != mt.getHiddenCppPointer() or g.getTypeOfField() != ON[meth[2:]]:
                d.fail('transferField: result on another support')
            ntr += 1
        elif k == 2:
            f, v = field(d, mt, ON[meth[2:]], nat, nc)
            g = r.reverseTransferField(f, dft)
            near(d, L(g.getArray()), flat(apply_rows(rev, v, dft, None, nc)), 'reverseTransferField ' + w, 1e-9, 8.)
            check_attr(d, g, f, 'reverseTransferField')
            if g.getMesh().getHiddenCppPointer() != ms.getHiddenCppPointer():
                d.fail('reverseTransferField: result on another support')
            ntr += 1
        elif k in (3, 4):
            f, v = field(d, ms, ON[meth[:2]], nat, nc)
            g, old = field(d, mt, ON[meth[2:]], nat, nc, 'g')
            a = g.getArray()
            if k == 3:
                r.partialTransfer(f, g)
                near(d, L(g.getArray()), flat(apply_rows(fwd, v, dft, old, nc)), 'partialTransfer ' + w, 1e-9, 8.)
            else:
                if d.bool():
                    g.setArray(None)
                r.transfer(f, g, dft)
                near(d, L(g.getArray()), flat(apply_rows(fwd, v, dft, None, nc)), 'transfer ' + w, 1e-9, 8.)
            ntr += 1
        elif k == 5:
            f, v = field(d, mt, ON[meth[2:]], nat, nc)
            g, old = field(d, ms, ON[meth[:2]], nat, nc)
            if d.bool():
                g.setArray(None)
            r.reverseTransfer(g, f, dft)
            near(d, L(g.getArray()), flat(apply_rows(rev, v, dft, None, nc)), 'reverseTransfer ' + w, 1e-9, 8.)
            ntr += 1
        elif k == 6:        # export, compare, re-import in this remapper or in a new one
            M1 = r.getCrudeMatrix()
            if M1 != M:
                d.fail('matrix changed: %s / %s' % (short(M1), short(M)))
            if d.bool():
                from scipy.sparse import csr_matrix
                c = r.getCrudeCSRMatrix()
                eq(d, [dict(zip(c.indices[a:b].tolist(), c.data[a:b].tolist())) for a, b in zip(c.indptr, c.indptr[1:])], M, 'getCrudeCSRMatrix')
            eq(d, r.getNumberOfColsOfMatrix(), ns, 'getNumberOfColsOfMatrix')
            mx = max([abs(x) for row in M for x in row.values()] or [None], key=lambda x: x or 0)
            if mx is not None:
                eq(d, r.getMaxValueInCrudeMatrix(), mx, 'getMaxValueInCrudeMatrix')
            if d.bool():
                r = mc.MEDCouplingRemapper()
            r.setCrudeMatrix(ms, mt, meth, csr(M1) if d.bool() else M1)
        elif k == 7:        # edit
            M = [{j: v * d.choice([1, .5, 2]) for j, v in row.items() if d.bool(.8)} for row in M]
            if d.bool(.5):
                r.setCrudeMatrix(ms, mt, meth, M)
            else:
                a, b = mc.MEDCouplingFieldTemplate(ON[meth[:2]]), mc.MEDCouplingFieldTemplate(ON[meth[2:]])
                a.setMesh(ms)
                b.setMesh(mt)
                r.setCrudeMatrixEx(a, b, M)
        else:               # small coefficients right after a new import
            mx = max([abs(x) for row in M for x in row.values()] or [0.])
            fac = d.choice([.01, .3, .6])
            r.setCrudeMatrix(ms, mt, meth, M)
            if d.bool():
                n = r.nullifiedTinyCoeffInCrudeMatrix(fac)
                if not any(M):
                    eq(d, n, -1, 'nullifiedTinyCoeffInCrudeMatrix of an empty matrix')
                    n = 0
                M2 = [{j: v for j, v in row.items() if abs(v) > fac * mx} for row in M]
            else:
                n = r.nullifiedTinyCoeffInCrudeMatrixAbs(fac)
                M2 = [{j: v for j, v in row.items() if abs(v) > fac} for row in M]
            eq(d, n, sum(map(len, M)) - sum(map(len, M2)), 'number of coefficients removed')
            M = M2
            if r.getCrudeMatrix() != M:
                d.fail('nullifiedTinyCoeffInCrudeMatrix: %s, expected %s' % (short(r.getCrudeMatrix()), short(M)))
    d.nontrivial(ntr >= 2 and sum(map(len, M)) >= 2)


def tot(vals, w, k):
    return sum(v[k] * x for v, x in zip(vals, w))


@check(n=12000, rule='at least two sources and two targets')
def laws(d):
    """constants, bounds, totals and integrals"""
    s, t = meshes(d)
    cover = d.bool(.6)
    md = s.md
    if cover:               # target: box containing the source (source covered), or the reverse
        b = bbox(s.xyz)
        b = [(l - d.choice([0., .25, .3]), h + d.choice([0., .25, .3])) for l, h in b]
        ax = [sorted({l, h} | {l + (h - l) * d.uniform(.1, .9) for _ in range(d.int(0, 2))}) for l, h in b]
        c = mc.MEDCouplingCMesh()
        c.setCoords(*[mc.DataArrayDouble(x) for x in ax])
        mt = c.buildUnstructured()
        ms = to_mc(s)
    else:
        ms, mt = to_mc(s), to_mc(t)
    if cover and d.bool(.3):
        ms, mt = mt, ms
        sw = True
    else:
        sw = False
    ms.setName('s')
    mt.setName('t')
    kw = {}
    if md == 2:
        kw['itype'] = d.choice(['Triangulation', 'Geometric2D'])
    r = remap(d, ms, mt, **kw)
    r.nullifiedTinyCoeffInCrudeMatrixAbs(1e-9)
    M = r.getCrudeMatrix()
    ns, nt = ms.getNumberOfCells(), mt.getNumberOfCells()
    d.nontrivial(ns > 1 and nt > 1)
    d.label('cover%d%d' % (cover, sw))
    vs, vt = measure(ms, mc.ON_CELLS), measure(mt, mc.ON_CELLS)
    nc = d.int(1, 2)
    d.sample('%s %s %d -> %d cover %s swap %s' % (md, kw, ns, nt, cover, sw))
    tb = 1e-7
    reached_s = sorted({j for row in M for j in row})
    # extensive conservation: total of the sources that intersect something
    f, v = field(d, ms, mc.ON_CELLS, mc.ExtensiveConservation, nc)
    g = T(r.transferField(f, 0.).getArray())
    for k in range(nc):
        near(d, [sum(x[k] for x in g)], [sum(v[j][k] for j in reached_s)], 'total of an extensive field (ExtensiveConservation)', tb, 10.)
    if cover and not sw:
        eq(d, len(reached_s), ns, 'sources of a covered mesh that reach a target')
    # extensive maximum: value distributed according to the source measure
    f, v = field(d, ms, mc.ON_CELLS, mc.ExtensiveMaximum, nc)
    g = T(r.transferField(f, 0.).getArray())
    for i, row in enumerate(M):
        for k in range(nc):
            near(d, [g[i][k]], [sum(x / vs[j] * v[j][k] for j, x in row.items())], 'ExtensiveMaximum', tb, 10.)
    if cover and not sw:
        for k in range(nc):
            near(d, [sum(x[k] for x in g)], [sum(x[k] for x in v)], 'total of an extensive field (ExtensiveMaximum, source covered)', tb, 10.)
    # intensive maximum: constants, bounds
    f, v = field(d, ms, mc.ON_CELLS, mc.IntensiveMaximum, nc)
    g = T(r.transferField(f, 1e300).getArray())
    for i, row in enumerate(M):
        for k in range(nc):
            if not row:
                eq(d, g[i][k], 1e300, 'default value of a target that is not reached')
            else:
                lo, hi = min(v[j][k] for j in row), max(v[j][k] for j in row)
                if not lo - tb <= g[i][k] <= hi + tb:
                    d.fail('IntensiveMaximum leaves the bounds: %r not in [%r, %r]' % (g[i][k], lo, hi))
    f, v = field(d, ms, mc.ON_CELLS, mc.IntensiveMaximum, 1, vals=[(3.25,)] * ns)
    for i, x in enumerate(L(r.transferField(f, 3.25).getArray())):
        if abs(x - 3.25) > 1e-9:
            d.fail('IntensiveMaximum of a constant: %r' % x)
    # intensive conservation: integral over the intersection; exact integral when the source is covered
    f, v = field(d, ms, mc.ON_CELLS, mc.IntensiveConservation, nc)
    g = T(r.transferField(f, 0.).getArray())
    for k in range(nc):
        want = tot(v, vs, k) if cover and not sw else sum(x * v[j][k] for row in M for j, x in row.items())
        near(d, [tot(g, vt, k)], [want], 'integral of an intensive field (IntensiveConservation)', tb, 10.)
    if cover and sw:        # every target is covered: a constant is kept
        f, v = field(d, ms, mc.ON_CELLS, mc.IntensiveConservation, 1, vals=[(3.25,)] * ns)
        near(d, L(r.transferField(f, 0.).getArray()), [3.25] * nt, 'constant on covered targets (IntensiveConservation)', tb, 1.)
    # linearity and independence of the components
    nat = d.choice(NAT)
    f1, v1 = field(d, ms, mc.ON_CELLS, nat, nc)
    f2, v2 = field(d, ms, mc.ON_CELLS, nat, nc)
    f3, v3 = field(d, ms, mc.ON_CELLS, nat, nc, vals=[tuple(2 * a - 3 * b for a, b in zip(x, y)) for x, y in zip(v1, v2)])
    g1, g2, g3 = [T(r.transferField(f, 0.).getArray()) for f in (f1, f2, f3)]
    near(d, flat(g3), [2 * a - 3 * b for a, b in zip(flat(g1), flat(g2))], 'linearity of the transfer', 1e-9, 1000.)


@check(n=5000, rule='refusal on a prepared remapper with intersections')
def refusals(d):
    """incoherent fields are refused, and the remapper is still usable"""
    s, t = meshes(d)
    ms, mt = to_mc(s, 's'), to_mc(t, 't')
    r = mc.MEDCouplingRemapper()
    nat = d.choice(NAT)
    f, v = field(d, ms, mc.ON_CELLS, nat, 2)
    if not raises(lambda: r.transferField(f, 0.)):
        d.fail('transfer without prepare accepted')
    r.prepare(ms, mt, 'P0P0')
    r.nullifiedTinyCoeffInCrudeMatrixAbs(1e-9)
    M = r.getCrudeMatrix()
    d.nontrivial(any(M))
    k = d.below(8)
    what = None
    bad = None
    g, gv = field(d, mt, mc.ON_CELLS, nat, 2)
    g0 = L(g.getArray())
    if k == 0:
        what, (bad, _) = 'nodal source', field(d, ms, mc.ON_NODES, mc.IntensiveMaximum, 2)
        fn = lambda: r.transferField(bad, 0.)
    elif k == 1:
        other = d.choice([x for x in NAT if x != nat])
        what, (bad, _) = 'natures', field(d, ms, mc.ON_CELLS, other, 2)
        fn = lambda: r.transfer(bad, g, 0.)
    elif k == 2:
        what, (bad, _) = 'components', field(d, ms, mc.ON_CELLS, nat, 3)
        fn = lambda: r.partialTransfer(bad, g)
    elif k == 3:
        what = 'NoNature'
        bad, _ = field(d, ms, mc.ON_CELLS, mc.NoNature, 2)
        fn = lambda: r.transferField(bad, 0.)
    elif k == 4:
        what = 'partialTransfer without array'
        g2 = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.ONE_TIME)
        g2.setMesh(mt)
        g2.setNature(nat)
        fn = lambda: r.partialTransfer(f, g2)
    elif k == 5:
        what = 'reverse with nodal target'
        bad, _ = field(d, mt, mc.ON_NODES, mc.IntensiveMaximum, 2)
        fn = lambda: r.reverseTransferField(bad, 0.)
    elif k == 6:
        what = 'matrix with a wrong number of rows'
        fn = lambda: mc.MEDCouplingRemapper().setCrudeMatrix(ms, mt, 'P0P0', [{} for _ in range(t.nc + 1)])
    else:
        what = 'matrix with a source out of range'
        fn = lambda: mc.MEDCouplingRemapper().setCrudeMatrix(ms, mt, 'P0P0', [{d.choice([-1, s.nc, s.nc + 5]): 1.}] + [{} for _ in range(t.nc - 1)])
    d.label(what)
    d.sample(what)
    if not raises(fn):
        d.fail('accepted: ' + what)
    eq(d, L(g.getArray()), g0, 'target field after a refused transfer')
    fwd, rev = formula(M, nat, measure(ms, mc.ON_CELLS), measure(mt, mc.ON_CELLS), s.nc)
    near(d, L(r.transferField(f, 5.).getArray()), flat(apply_rows(fwd, v, 5., None, 2)), 'transferField after a refusal', 1e-9, 8.)


@check(n=5000, rule='several cells')
def global_mesh(d):
    """interpolation to and from a mesh of dimension -1 (one value for the whole space)"""
    s, _ = meshes(d, (2, 2, 3))
    m = to_mc(s, 's')
    g = mc.MEDCouplingUMesh('global', -1)
    vs = measure(m, mc.ON_CELLS)
    V = sum(vs)
    d.nontrivial(s.nc > 1)
    d.label('dim%d' % s.md)
    d.sample(repr(s)[:300])
    nc = d.int(1, 2)
    r = mc.MEDCouplingRemapper()
    back = d.bool()
    if not back:
        r.prepare(m, g, 'P0P0')
        for nat in NAT:
            f, v = field(d, m, mc.ON_CELLS, nat, nc)
            got = L(r.transferField(f, 0.).getArray())
            ext = nat in (mc.ExtensiveMaximum, mc.ExtensiveConservation)
            near(d, got, [sum(x[k] for x in v) if ext else tot(v, vs, k) / V for k in range(nc)], '%s to a mesh of dimension -1' % NN[nat], 1e-9, 8.)
    else:
        r.prepare(g, m, 'P0P0')
        for nat in NAT:
            f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.ONE_TIME)
            f.setMesh(g)
            f.setNature(nat)
            v = [d.sint(64) / 8 for _ in range(nc)]
            f.setArray(Dbl([v], nc))
            f.setTime(0., 0, 0)
            got = T(r.transferField(f, 0.).getArray())
            ext = nat in (mc.ExtensiveMaximum, mc.ExtensiveConservation)
            near(d, flat(got), [x * vs[i] / V if ext else x for i in range(s.nc) for x in v], '%s from a mesh of dimension -1' % NN[nat], 1e-9, 8.)
