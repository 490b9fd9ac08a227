"""C20 fields: arithmetic against the operation on their arrays, compatibility rules, values at a time, time representations, time definitions."""
from fields import *

DA = mc.DataArrayDouble


def arrs(f):
    return [a for a in f.getArrays()]


def same_support(d, r, f, F, what, disc=True):
    if r.getMesh().getHiddenCppPointer() != f.getMesh().getHiddenCppPointer():
        d.fail(what + ': the result does not lie on the mesh of the operand')
    eq(d, r.getTypeOfField(), f.getTypeOfField(), what + ': type of field')
    eq(d, get_time(r), want_time(F.tm), what + ': time')
    if F.disc == 'gauss':
        eq(d, [r.getGaussLocalizationIdOfOneCell(i) for i in range(F.pm.nc)], F.loc_of, what + ': Gauss localizations')
    r.checkConsistencyLight()


def same_arrays(d, r, want, what):
    got = arrs(r)
    eq(d, len(got), len(want), what + ': number of arrays')
    for k, (a, b) in enumerate(zip(got, want)):
        x, y = a.toNumPyArray(), b.toNumPyArray()
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            d.fail('%s: array %d is %s, expected %s' % (what, k, short(x.tolist()), short(y.tolist())))
        eq(d, a.getInfoOnComponents(), b.getInfoOnComponents(), what + ': component infos')


BIN = {'add': (lambda a, b: a + b, DA.Add, mc.MEDCouplingFieldDouble.AddFields), 'sub': (lambda a, b: a - b, DA.Substract, mc.MEDCouplingFieldDouble.SubstractFields),
       'mul': (lambda a, b: a * b, DA.Multiply, mc.MEDCouplingFieldDouble.MultiplyFields), 'div': (lambda a, b: a / b, DA.Divide, mc.MEDCouplingFieldDouble.DivideFields),
       'pow': (lambda a, b: a ** b, DA.Pow, None), 'max': (None, DA.Max, mc.MEDCouplingFieldDouble.MaxFields), 'min': (None, DA.Min, mc.MEDCouplingFieldDouble.MinFields),
       'dot': (lambda a, b: a.dot(b), DA.Dot, mc.MEDCouplingFieldDouble.DotFields), 'cross': (lambda a, b: a.crossProduct(b), DA.CrossProduct, mc.MEDCouplingFieldDouble.CrossProductFields),
       'meld': (None, DA.Meld, mc.MEDCouplingFieldDouble.MeldFields)}


def iop(k, a, b):
    if k == 'add':
        a += b
    elif k == 'sub':
        a -= b
    elif k == 'mul':
        a *= b
    elif k == 'div':
        a /= b
    else:
        a **= b
    return a


@check(n=6000, rule='more than one tuple and more than one component or two arrays')
def binary(d):
    """operation between two fields on the same mesh = operation between their arrays"""
    op = d.choice(list(BIN))
    F = field(d, nc=3 if op == 'cross' else 1 if op == 'pow' else None, nz=True, pos=op == 'pow')
    F2 = Fld(**{k: getattr(F, k) for k in 'pm disc tm arrays nc infos kind locs loc_of name desc nature'.split()})
    F2.name = 'other'
    F2.infos = ['d%d' % i for i in range(F.nc)]
    n2 = F.nc
    if op in ('mul', 'div') and d.bool(.3):
        n2 = 1
    elif op == 'meld':
        n2 = d.int(1, 3)
    F2.nc, F2.infos = n2, F2.infos[:1] * n2 if n2 > F.nc else F2.infos[:n2]
    n = len(F.arrays[0])
    F2.arrays = [rows_for(d, n, n2, nz=True, pos=op == 'pow') for _ in F.arrays]
    F2.tm = dict(F.tm)
    if d.bool(.5):      # the times are those of the first operand
        F2.tm.update(t0=(7., 3, 4), t1=(9., 5, 6))
    d.nontrivial(n > 1 and (F.nc > 1 or len(F.arrays) == 2))
    d.label(op, F.disc, F.tm['td'])
    d.sample('%s %s %s' % (op, repr(F)[:500], short(F2.arrays, 200)))
    m = to_mc(F.pm)
    f, g = F.build(m), F2.build(m)
    want = [BIN[op][1](array('double', a, F.nc, F.infos), array('double', b, n2, F2.infos)) for a, b in zip(F.arrays, F2.arrays)]
    fn = d.choice([x for x in (BIN[op][0], BIN[op][2]) if x])
    r = fn(f, g)
    same_arrays(d, r, want, op)
    same_support(d, r, f, F, op)
    for h, H in ((f, F), (g, F2)):
        same_arrays(d, h, [array('double', a, H.nc, H.infos) for a in H.arrays], op + ': operand')
    if op in ('add', 'sub', 'mul', 'div', 'pow') and n2 == F.nc:
        r2 = iop(op, f, g)
        if op == 'pow':     # the infos are those of the left operand in place
            for a, b in zip(want, r2.getArrays()):
                a.setInfoOnComponents(b.getInfoOnComponents())
        same_arrays(d, r2, want, op + ' in place')
        same_support(d, f, f, F, op + ' in place')
        eq(d, f.getName(), F.name, op + ' in place: name')


@check(n=4000, rule='every case')
def compat(d):
    """operations are refused when mesh, spatial or time discretization, unit, tolerance, components or nature differ"""
    op = d.choice(['add', 'sub', 'mul', 'div', 'max', 'min', 'dot', 'meld'])
    F = field(d, disc=d.choice(['cell', 'node', 'gne']), nz=True)
    G = Fld(**{k: getattr(F, k) for k in 'pm disc tm arrays nc infos kind locs loc_of name desc nature'.split()})
    m = to_mc(F.pm)
    m2 = m
    what = d.choice(['mesh', 'disc', 'td', 'tol', 'compo', 'nature', 'none'])
    if what == 'mesh':
        m2 = m.deepCopy()
    elif what == 'disc':
        G.disc = d.choice([x for x in ('cell', 'node', 'gne') if x != F.disc])
        if G.disc == 'gne' and any(t in POLY or t in (HEXGP12, SEG4) for t, c in F.pm.cells):
            raise Discard()
        n = ntup(G.pm, G.disc, None, None)
        G.arrays = [rows_for(d, n, F.nc, nz=True) for _ in F.arrays]
        G.nature = F.nature = mc.NoNature
    elif what == 'td':
        G.tm = dict(F.tm, td=d.choice([x for x in TD if x != F.tm['td']]))
        G.arrays = [F.arrays[0]] * (2 if G.tm['td'] == 'linear' else 1)
    elif what == 'tol':
        G.tm = dict(F.tm, tol=F.tm['tol'] / 3. + 1e-11)
    elif what == 'compo':
        if op == 'meld':
            raise Discard()
        G.nc = F.nc + 1 if F.nc > 1 or op not in ('mul',) else F.nc + 1
        if op in ('mul', 'div', 'dot') and min(F.nc, G.nc) == 1:
            raise Discard()
        G.infos = ['z'] * G.nc
        G.arrays = [rows_for(d, len(a), G.nc, nz=True) for a in F.arrays]
    elif what == 'nature':
        if F.disc != 'cell' or op in ('mul', 'div', 'dot'):
            raise Discard()
        G.nature = d.choice([x for x in (mc.NoNature, mc.IntensiveMaximum, mc.ExtensiveConservation) if x != F.nature])
    d.nontrivial(True)
    d.label(what)
    d.sample('%s %s %r' % (op, what, F))
    f, g = F.build(m), G.build(m2)
    fn = d.choice([x for x in (BIN[op][0], BIN[op][2]) if x])
    if what == 'none':
        fn(f, g)
    elif not raises(lambda: fn(f, g)):
        d.fail('%s accepts two fields differing by their %s' % (op, what))


UN = {'negate': (None, lambda f: f.negate(), lambda a: a.negate()), 'neg': (None, lambda f: -f, lambda a: a.negate()), 'magnitude': (None, lambda f: f.magnitude(), lambda a: a.magnitude()), 'maxPerTuple': (None, lambda f: f.maxPerTuple(), lambda a: a.maxPerTuple()),
      'determinant': ((4, 6, 9), lambda f: f.determinant(), lambda a: a.determinant()), 'inverse': ((4, 6, 9), lambda f: f.inverse(), lambda a: a.inverse()),
      'eigenValues': ((6,), lambda f: f.eigenValues(), lambda a: a.eigenValues()), 'eigenVectors': ((6,), lambda f: f.eigenVectors(), lambda a: a.eigenVectors()),
      'trace': ((4, 6, 9), lambda f: f.trace(), lambda a: a.trace()), 'deviator': ((6,), lambda f: f.deviator(), lambda a: a.deviator()),
      'dcp': ((6,), lambda f: f.doublyContractedProduct(), lambda a: a.doublyContractedProduct())}
EXPR = ['2*x+1', 'x*x', 'abs(x)', 'if(x>2,x,3)', 'max(x,1)']


@check(n=6000, rule='more than one tuple')
def unary(d):
    """unary operations and restructuring of the components = the operation on every array"""
    op = d.choice(list(UN))
    F = field(d, nc=d.choice(UN[op][0]) if UN[op][0] else None)
    d.nontrivial(len(F.arrays[0]) > 1)
    d.label(op, F.disc, F.tm['td'])
    d.sample('%s %r' % (op, F))
    f = F.build(to_mc(F.pm))
    A = [array('double', a, F.nc, F.infos) for a in F.arrays]
    try:
        want = [UN[op][2](a) for a in A]
    except InterpKernelException:
        if not raises(lambda: UN[op][1](f)):
            d.fail(op + ' succeeds whereas it fails on the arrays')
        return
    r = UN[op][1](f)
    same_arrays(d, r, want, op)
    same_support(d, r, f, F, op)
    same_arrays(d, f, A, op + ': operand')


@check(n=6000, rule='more than one tuple')
def inplace(d):
    """applyLin, applyFunc, sortPerTuple, changeNbOfComponents, selected components, uniform values, fillFromAnalytic"""
    op = d.choice(['lin', 'lin1', 'func', 'funcC', 'sort', 'nbcomp', 'keep', 'setsel', 'analytic', 'analyticN', 'uniform'])
    disc = None
    F = field(d)
    n = len(F.arrays[0])
    d.nontrivial(n > 1)
    d.label(op, F.disc, F.tm['td'])
    d.sample('%s %r' % (op, F))
    m = to_mc(F.pm)
    f = F.build(m)
    A = [array('double', a, F.nc, F.infos) for a in F.arrays]
    r, W = f, [a.deepCopy() for a in A]
    if op == 'lin':
        a, b = d.sint(8) / 2., d.sint(8) / 2.
        f.applyLin(a, b)
        for w in W:
            w.applyLin(a, b)
    elif op == 'lin1':
        a, b, c = d.sint(8) / 2., d.sint(8) / 2., d.below(F.nc)
        f.applyLin(a, b, c)
        for w in W:
            w.applyLin(a, b, c)
    elif op == 'func':
        e, k = d.choice(EXPR), d.int(1, 3)
        if F.nc == 1:
            f.applyFunc(k, e)
            W = [w.applyFunc(k, e) for w in W]
        else:
            f.applyFunc(e)
            W = [w.applyFunc(e) for w in W]
    elif op == 'funcC':
        nm = ['a', 'b', 'c'][:F.nc]
        W = [w.deepCopy() for w in W]
        for w in W:
            w.setInfoOnComponents(nm)
        for x in arrs(f):
            x.setInfoOnComponents(nm)
        e = '+'.join('%d*%s' % (i + 2, x) for i, x in enumerate(nm))
        if d.bool():
            f.applyFuncCompo(2, e)
            W = [w.applyFuncCompo(2, e) for w in W]
        else:
            f.applyFuncNamedCompo(2, nm[::-1], e)
            W = [w.applyFuncNamedCompo(2, nm[::-1], e) for w in W]
    elif op == 'sort':
        asc = d.bool()
        f.sortPerTuple(asc)
        for w in W:
            w.sortPerTuple(asc)
    elif op == 'nbcomp':
        k, v = d.int(1, 4), d.sint(5) / 2.
        f.changeNbOfComponents(k, v)
        W = [w.changeNbOfComponents(k, v) for w in W]
    elif op == 'keep':
        ids = [d.below(F.nc) for _ in range(d.int(1, 4))]
        r = f.keepSelectedComponents(ids)
        W = [w.keepSelectedComponents(ids) for w in W]
        same_arrays(d, f, A, op + ': operand')
    elif op == 'setsel':
        k = d.int(1, F.nc)
        G = Fld(**{k_: getattr(F, k_) for k_ in 'pm disc tm arrays nc infos kind locs loc_of name desc nature'.split()})
        G.nc, G.infos = k, ['g%d' % i for i in range(k)]
        G.arrays = [rows_for(d, n, k) for _ in F.arrays]
        ids = d.perm(F.nc)[:k]
        f.setSelectedComponents(G.build(m), ids)
        for w, a in zip(W, G.arrays):
            w.setSelectedComponents(array('double', a, k, G.infos), ids)
    elif op in ('analytic', 'analyticN'):
        if F.pm.nc == 0 or n == 0:
            raise Discard()
        loc = f.getLocalizationOfDiscr()
        sd = F.pm.sd
        nm = ['x', 'y', 'z'][:sd]
        e = '+'.join('%d*%s' % (i + 2, x) for i, x in enumerate(nm))
        if op == 'analytic':
            f.fillFromAnalytic(2, e)
            W = [loc.applyFunc(2, e) for w in W]
        else:
            f.fillFromAnalyticNamedCompo(2, nm[::-1], e)
            W = [loc.applyFuncNamedCompo(2, nm[::-1], e) for w in W]
        # the function is linear: also compared to the positions known to the model
        if F.disc in ('node', 'kr') and op == 'analytic':
            ex = [(sum((i + 2) * x for i, x in enumerate(p)),) * 2 for p in F.pm.xyz]
            near(d, [x for t in T(f.getArray()) for x in t], [x for t in ex for x in t], 'fillFromAnalytic on the nodes')
    elif op == 'uniform':
        v = d.sint(8) / 2.
        f.assign(v)
        for w in W:
            w.fillWithValue(v)
    same_arrays(d, r, W, op)
    same_support(d, r, f, F, op)
    if r is f:
        eq(d, f.getName(), F.name, op + ': name')
        eq(d, f.getNature(), F.nature, op + ': nature')


RED = {'getMaxValue2': None, 'getMinValue2': None, 'max': None, 'min': None, 'getMaxValue': None, 'getMinValue': None, 'getAverageValue': None, 'norm2': None, 'normMax': None, 'accumulate': None, 'findIdsInRange': None}


@check(n=5000, rule='more than one tuple')
def reductions(d):
    """reductions of the values"""
    F = field(d, nc=d.choice([1, 1, 2, 3]))
    n = len(F.arrays[0])
    if n == 0:
        raise Discard()
    d.nontrivial(n > 1)
    d.label('%d' % F.nc, F.tm['td'])
    d.sample(repr(F)[:600])
    f = F.build(to_mc(F.pm))
    x = np.array(F.arrays[0]).reshape(n, F.nc)
    allx = np.array(F.arrays).reshape(-1, F.nc)
    near(d, [f.norm2()], [math.sqrt((x * x).sum())], 'norm2')
    near(d, list(f.accumulate()), x.sum(0).tolist(), 'accumulate')
    c = d.below(F.nc)
    near(d, [f.accumulate(c)], [x[:, c].sum()], 'accumulate(compoId)')
    eq(d, f.getNumberOfTuples(), n, 'getNumberOfTuples')
    eq(d, f.getNumberOfValues(), n * F.nc, 'getNumberOfValues')
    i = d.below(n)
    eq(d, f.getIJ(i, c), x[i, c], 'getIJ')
    if F.nc == 1:
        eq(d, f.getMaxValue(), allx.max(), 'getMaxValue')
        eq(d, f.getMinValue(), allx.min(), 'getMinValue')
        v, ids = f.getMaxValue2()
        eq(d, (v, L(ids)), (x.max(), [int(k) for k in np.where(x[:, 0] == x.max())[0]]), 'getMaxValue2')
        v, ids = f.getMinValue2()
        eq(d, (v, L(ids)), (x.min(), [int(k) for k in np.where(x[:, 0] == x.min())[0]]), 'getMinValue2')
        near(d, [f.getAverageValue()], [x.mean()], 'getAverageValue')
        a, b = sorted((d.sint(20) / 4., d.sint(20) / 4.))
        eq(d, L(f.findIdsInRange(a, b)), [k for k in range(n) if a <= x[k, 0] <= b], 'findIdsInRange')


SC = ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'rdiv', 'pow', 'iadd', 'isub', 'imul', 'idiv', 'ipow']


def demo_linear_scalar():
    """python operators between a LINEAR_TIME field and a number only change the array of the start time"""
    f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.LINEAR_TIME)
    c = mc.MEDCouplingCMesh()
    c.setCoords(mc.DataArrayDouble([0., 1.]))
    f.setMesh(c)
    f.setArray(mc.DataArrayDouble([1.]))
    f.setEndArray(mc.DataArrayDouble([5.]))
    f.setStartTime(0., 0, 0)
    f.setEndTime(1., 1, 0)
    return (f + 1.).getEndArray().getValues() != [6.]


@check(n=5000, rule='more than one tuple')
def scalars(d):
    """python operators between a field and a number, a list, a tuple of an array, an array (single array fields; see the known finding on LINEAR_TIME)"""
    op = d.choice(SC)
    F = field(d, td=d.choice(['no', 'one', 'const']), nz=True, pos='pow' in op)
    n = len(F.arrays[0])
    if n == 0:
        raise Discard()
    k = d.choice(['number', 'list', 'array', 'tuple'])
    if op == 'ipow' or op == 'pow':
        k = d.choice(['number', 'array'])
    x = np.array(F.arrays[0]).reshape(n, F.nc)
    v = [abs(d.sint(8) / 4.) + .5 for _ in range(F.nc)]
    if k == 'number':
        o, y = v[0], np.full((1, F.nc), v[0])
        if d.bool(.3):
            o = int(o)
            if o == 0:
                o = 2
            y = np.full((1, F.nc), float(o))
    elif k == 'list':
        o, y = v, np.array([v])
    elif k == 'array':
        y = np.array(rows_for(d, n, F.nc, nz=True, pos='pow' in op)).reshape(n, F.nc)
        o = dbl_np(y)
    else:
        z = mc.DataArrayDouble(v, 1, F.nc)
        o, y = z[0] if F.nc > 1 else z.getTuple(0), np.array([v])
        o = [t for t in z][0]
    if op in ('rdiv', 'rsub') and k != 'number' or 'pow' in op and k == 'array' and F.nc > 1:       # not provided
        raise Discard()
    d.nontrivial(n > 1)
    d.label(op, k)
    d.sample('%s %s %r %s' % (op, k, F, short(y.tolist(), 200)))
    m = to_mc(F.pm)
    f = F.build(m)
    with np.errstate(all='ignore'):
        w = {'add': lambda: x + y, 'radd': lambda: y + x, 'sub': lambda: x - y, 'rsub': lambda: y - x, 'mul': lambda: x * y, 'rmul': lambda: x * y, 'div': lambda: x / y, 'rdiv': lambda: y / x,
             'pow': lambda: x ** y, 'iadd': lambda: x + y, 'isub': lambda: x - y, 'imul': lambda: x * y, 'idiv': lambda: x / y, 'ipow': lambda: x ** y}[op]()
    if op.startswith('i'):
        if k in ('list', 'tuple'):
            raise Discard()
        if k == 'array' and op == 'ipow':
            raise Discard()
        r = iop(op[1:], f, o)
    else:
        r = {'add': lambda: f + o, 'radd': lambda: o + f, 'sub': lambda: f - o, 'rsub': lambda: o - f, 'mul': lambda: f * o, 'rmul': lambda: o * f, 'div': lambda: f / o, 'rdiv': lambda: o / f, 'pow': lambda: f ** o}[op] if not (op.startswith('r') and k in ('array', 'tuple')) else None
        if r is None:
            raise Discard()
        r = r()
        eq(d, T(f.getArray()), F.arrays[0], op + ': operand')
    near(d, L(r.getArray()), w.ravel().tolist(), op + ' ' + k, 1e-13)
    same_support(d, r, f, F, op)


@check(n=6000, rule='a field defined on an interval, asked inside it')
def at_time(d):
    """getValueOn(point, time): which times are covered, values on the covered times"""
    F = field(d, disc='cell', pm=gen.mesh2d(d, 2, kinds=('quad',), perturb=False))
    m = to_mc(F.pm)
    f = F.build(m)
    tm = F.tm
    t0, t1, tol = tm['t0'][0], tm['t1'][0], tm['tol']
    base = d.choice([t0, t1, (t0 + t1) / 2, t0 + (t1 - t0) * d.int(0, 8) / 8.])
    t = base + d.choice([0., 0., .25 * tol, -.25 * tol, 4 * tol, -4 * tol, 3., -3.])
    i = d.below(F.pm.nc)
    p = centroid_pts([F.pm.xyz[v] for v in F.pm.cells[i][1]])
    d.label(tm['td'])
    d.sample('%r at %r' % (tm, t))
    a = F.arrays[0][i]
    if tm['td'] == 'no':
        if not raises(lambda: f.getValueOn(p, t)):
            d.fail('getValueOn(time) on a field without time succeeds')
        return
    if abs(t - t0) == tol or tm['td'] != 'one' and abs(t - t1) == tol:
        raise Discard()
    if tm['td'] == 'one':
        inside = abs(t - t0) < tol
        w = a
    else:
        inside = t0 - tol < t < t1 + tol
        w = a
        if tm['td'] == 'linear':
            al = (t1 - t) / (t1 - t0)
            w = [al * x + (1 - al) * y for x, y in zip(a, F.arrays[1][i])]
    d.nontrivial(tm['td'] != 'one' and inside)
    if not inside:
        if not raises(lambda: f.getValueOn(p, t)):
            d.fail('getValueOn at %r succeeds on the field %r' % (t, tm))
        return
    near(d, list(f.getValueOn(p, t)), list(w), 'getValueOn at %r of %r' % (t, tm))
    near(d, list(f.getValueOn(p)), list(a), 'getValueOn without time')


@check(n=5000, rule='every case with at least one value')
def time_repr(d):
    """buildNewTimeReprFromThis: same values on the same support; setTime, synchronizeTimeWithMesh, copyTinyAttrFrom"""
    F = field(d)
    m = to_mc(F.pm)
    m.setTime(3.5, 4, 5)
    m.setTimeUnit('min')
    f = F.build(m)
    td = d.choice(list(TD))
    deep = d.bool()
    d.nontrivial(len(F.arrays[0]) > 0)
    d.label(F.tm['td'] + '->' + td)
    d.sample('%r -> %s' % (F, td))
    r = f.buildNewTimeReprFromThis(TD[td], deep)
    eq(d, r.getTimeDiscretization(), TD[td], 'time discretization')
    eq(d, r.getTypeOfField(), f.getTypeOfField(), 'type of field')
    eq(d, (r.getName(), r.getDescription(), r.getNature(), r.getTimeUnit()), (F.name, F.desc, F.nature, F.tm['unit']), 'name, description, nature, unit')
    eq(d, r.getMesh().getHiddenCppPointer(), f.getMesh().getHiddenCppPointer(), 'mesh')
    if F.disc == 'gauss':
        eq(d, [r.getGaussLocalizationIdOfOneCell(i) for i in range(F.pm.nc)], F.loc_of, 'Gauss localizations')
    eq(d, T(r.getArray()), F.arrays[0], 'values')
    eq(d, r.getArray().getInfoOnComponents(), F.infos, 'component infos')
    eq(d, r.getArray().getHiddenCppPointer() == f.getArray().getHiddenCppPointer(), not deep, 'shared values')
    same_arrays(d, f, [array('double', a, F.nc, F.infos) for a in F.arrays], 'operand')
    # synchronisation
    if F.tm['td'] in ('one', 'no'):
        if F.tm['td'] == 'no':
            if not raises(lambda: f.synchronizeTimeWithMesh()):
                d.fail('synchronizeTimeWithMesh on a field without time')
            eq(d, f.getTimeUnit(), F.tm['unit'], 'unit after the failure')
        else:
            f.synchronizeTimeWithMesh()
            eq(d, (tuple(f.getTime()), f.getTimeUnit()), ((3.5, 4, 5), 'min'), 'synchronizeTimeWithMesh')
    f2 = F.build(m)
    if F.tm['td'] != 'no':
        f2.synchronizeTimeWithSupport()
        if F.tm['td'] == 'one':
            eq(d, (tuple(f2.getTime()), f2.getTimeUnit()), ((3.5, 4, 5), 'min'), 'synchronizeTimeWithSupport')
        else:
            eq(d, (tuple(f2.getStartTime()), tuple(f2.getEndTime()), f2.getTimeUnit()), ((3.5, 4, 5), (3.5, 4, 5), 'min'), 'synchronizeTimeWithSupport')
    g = mc.MEDCouplingFieldDouble(DISC[F.disc], TD[F.tm['td']])
    g.copyTinyAttrFrom(F.build(m))
    eq(d, get_time(g), want_time(F.tm), 'copyTinyAttrFrom')


@check(n=4000, rule='at least three time steps')
def definition_time(d):
    """MEDCouplingFieldOverTime: the field and arrays to use at a time, from the left and from the right"""
    mode = d.choice(['linear', 'const', 'one', 'mix'])
    c = mc.MEDCouplingCMesh()
    c.setCoords(mc.DataArrayDouble([0., 1., 2.]))
    m = c.buildUnstructured()
    n = d.int(1, 5)
    t = d.sint(4) * .5
    fs, sl = [], []
    for i in range(n):
        k = mode if mode != 'mix' else d.choice(['linear', 'const', 'one'])
        f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, TD[k])
        f.setMesh(m)
        f.setName('f')
        f.setArray(mc.DataArrayDouble([float(i), 0.]))
        if k == 'one':
            f.setTime(t, i, 0)
            sl.append((k, t, t))
        else:
            if k == 'linear':
                f.setEndArray(mc.DataArrayDouble([i + .5, 0.]))
            t2 = t + d.int(1, 4) * .5
            f.setStartTime(t, i, 0)
            f.setEndTime(t2, i + 1, 0)
            sl.append((k, t, t2))
            t = t2
        t += d.int(0 if sl[-1][0] != 'one' else 1, 2) * .5
        fs.append(f)
    # a one time step on the bound of the previous interval is not a strictly increasing sequence
    for a, b in zip(sl, sl[1:]):
        if b[1] <= a[2] and 'one' in (a[0], b[0]):
            raise Discard()
    d.nontrivial(n >= 3)
    d.label(mode)
    fot = mc.MEDCouplingFieldOverTime(fs)
    dt = fot.getDefinitionTimeZone()
    A, refs = fot.getDifferentArrays()
    eq(d, len(refs), n, 'getDifferentArrays: one list per field')
    for f, r in zip(fs, refs):
        eq(d, [A[x].getHiddenCppPointer() for x in r], [x.getHiddenCppPointer() for x in f.getArrays()], 'getDifferentArrays')
    q = d.choice([x for s in sl for x in s[1:]] + [(s[1] + s[2]) / 2 for s in sl] + [sl[0][1] - 1., sl[-1][2] + 1., sl[0][2] + .125])
    d.sample('%r at %r' % (sl, q))
    hot = []
    for k, a, b in sl:
        h = [a, b] if k == 'linear' else [(a + b) / 2]
        hot += h[1:] if hot and hot[-1] == h[0] else h
    eq(d, list(dt.getHotSpotsTime()), hot, 'getHotSpotsTime')

    def ids(side):
        cov = [i for i, s in enumerate(sl) if s[1] <= q <= s[2]]
        if not cov:
            return None
        i = cov[0] if side == 'left' else cov[-1]
        return i
    for side, fn in (('left', dt.getIdsOnTimeLeft), ('right', dt.getIdsOnTimeRight)):
        w = ids(side)
        if any(k == 'linear' and a < q < b for k, a, b in sl):     # only the bounds of a linear slice may be asked
            w = None
        if w is None:
            if not raises(lambda: fn(q)):
                d.fail('%s: %r not covered by %r is accepted' % (side, q, sl))
            continue
        mi, ai, aif, fi = fn(q)
        eq(d, fi, w, 'getIdsOnTime%s field id at %r of %r' % (side, q, sl))
        k = sl[w][0]
        val = A[ai].getIJ(0, 0)
        own = {fs[w].getArray().getIJ(0, 0)} | ({fs[w].getEndArray().getIJ(0, 0)} if k == 'linear' else set())
        if val not in own:
            d.fail('%s: array %r is not of the field %d' % (side, val, w))
